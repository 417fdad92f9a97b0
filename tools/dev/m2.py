cv='cligen_cv.c';ve='cligen_cvec.c';pt='cligen_parsetree.c';ob='cligen_object.c';ex='cligen_expand.c';re='cligen_result.c';bu='cligen_buf.c';ma='cligen_match.c'
exec(open('/tmp/w/m1.py').read())
old={m[0]:m for m in M}
M=[old['b03'],old['c01'],old['c02'],old['c05'],old['e03'],
('e06','C06,C04',[(ex,"""    if (co->co_rangecvv_low){
        cvec_free(co->co_rangecvv_low);
        co->co_rangecvv_low = NULL;
    }
""","""    co->co_rangecvv_low = NULL;
""")]),
('e07','C06',[(ex,"        if ((con->co_cvec = cvec_dup(co0->co_cvec)) == NULL)\n            goto done;","        con->co_cvec = co0->co_cvec;")]),
('e08','C06',[(ob,"        con->co_choice = NULL;\n","")]),
]
