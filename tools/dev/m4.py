M=[('a1','C25',[('cligen_expand.c','    if (hide && co_flags_get(co, CO_FLAGS_HIDE))\n        goto ok;\n','    if (hide && co->co_type == CO_COMMAND && co_flags_get(co, CO_FLAGS_HIDE))\n        goto ok;\n')]),
('a2','C25',[('cligen_expand.c','        if (pt_expand1_co(h, cot, hide, expandvar,','        if (pt_expand1_co(h, cot, 0, expandvar,')]),
('a3','C25',[('cligen_match.c','                  !best,  /*','                  best,  /*')]),
('a4','C25',[('cligen_match.c','                  !best,  /*','                  1,  /*')]),
('a5','C25',[('cligen_read.c','                  1, /* Include hidden commands */','                  0, /* Include hidden commands */')]),
('a6','C25',[('cligen_read.c','                  0,  /* Do not include hidden commands */','                  1,  /* Do not include hidden commands */')]),
('a7','C25',[('cligen_read.c','                      0,        /* best: Return all options, not only best, exclude hidden */','                      1,        /* best: Return all options, not only best, exclude hidden */')]),
('a8','C25',[('cligen_object.c','    co_flags_reset(con, CO_FLAGS_MARK);','    co_flags_reset(con, CO_FLAGS_MARK|CO_FLAGS_HIDE);')]),
('a9','C25',[('cligen_object.c','    co_flags_reset(con, CO_FLAGS_MARK);','    con->co_flags = 0;',1)]),
('b1','C25',[('cligen_parse.y','            co_flags_set(co, CO_FLAGS_HIDE);\n        if (sets)','            co_flags_set(co, CO_FLAGS_MARK);\n        if (sets)')]),
('b2','C25',[('cligen_parse.y','        if (cvec_find(cy->cy_cvec, "hide") != NULL)\n            co_flags_set(co, CO_FLAGS_HIDE);\n        if (sets)','        if (sets)')]),
('b3','C25',[('cligen_read.c','show_help_line(h, stdout, cligen_buf(h), ptn, cvv) <0','show_help_line(h, stdout, cligen_buf(h), pt, cvv) <0')]),
('b4','C25',[('cligen_match.c','                                   ptn,\n                                   level+1,','                                   co_pt_get(co_match),\n                                   level+1,')]),
('b5','C25',[('cligen_match.c','pt_apply(pt, co_clearflag, 1, (void*)CO_FLAGS_MATCH)','pt_apply(pt, co_clearflag, 1, (void*)(CO_FLAGS_MATCH|1))')]),
('b6','C25',[('cligen_expand.c','                                            hide, expandvar,\n                                            callbacks,\n                                            ptn) < 0)\n                        goto done;\n                }','                                            0, expandvar,\n                                            callbacks,\n                                            ptn) < 0)\n                        goto done;\n                }')]),
('r1','C25',[('cligen_expand.c','    if (hide && co_flags_get(co, CO_FLAGS_HIDE))\n        goto ok;\n','    if (co->co_flags & CO_FLAGS_HIDE)\n        if (hide != 0)\n            return 0;\n')]),
('r2','C25',[('cligen_match.c','                  !best,  /*','                  best ? 0 : 1,  /*')]),
('r3','C25',[('cligen_read.c','    if (pt_expand(h, NULL,\n                  pt,\n                  NULL,\n                  cvv,\n                  1, /* Include hidden commands */\n                  0, /* VARS are not expanded, eg ? <tab> */\n                  NULL, NULL,\n                  ptn) < 0)','    if (expand_visible(h, pt, cvv, ptn) < 0)'),('cligen_read.c','/*! Show help strings','static int\nexpand_visible(cligen_handle h, parse_tree *pt, cvec *cvv, parse_tree *ptn)\n{\n    return pt_expand(h, NULL, pt, NULL, cvv, 1, 0, NULL, NULL, ptn);\n}\n/*! Show help strings')]),
('r4','C25',[('cligen_object.c','    co_flags_reset(con, CO_FLAGS_MARK);','    con->co_flags &= ~CO_FLAGS_MARK;',1)]),
]
