O='cligen_object.c'; H='cligen_object.h'; E='cligen_expand.c'; M_='cligen_match.c'; P='cligen_print.c'; S='cligen_syntax.c'
M=[
('a1','C12',[(H,"(co)->co_ref && (co)->co_ref->co_type == CO_VARIABLE && ","(co)->co_ref && ")]),
('a2','C12',[(E,"    if (co->co_type == CO_VARIABLE && co->co_choice != NULL){","    if (co->co_choice != NULL){")]),
('a3','C12',[(O,"    if (co->co_type == CO_VARIABLE){\n        if (co->co_expand_fn_str)\n            free","    if (co->co_type != CO_REFERENCE){\n        if (co->co_expand_fn_str)\n            free")]),
('a4','C12',[(O,"    if (type == CO_VARIABLE) // ref","    if (type != CO_VARIABLE) // ref")]),
('a5','C12',[(E,"    co->co_command = cmd;\n    if (helptext){","    co->co_type = CO_COMMAND;\n    co->co_command = cmd;\n    if (helptext){")]),
('a6','C12',[(O,"    case CO_COMMAND:\n    case CO_REFERENCE:\n        eq = str_cmp(co1->co_command, co2->co_command);\n        break;","    case CO_COMMAND:\n        eq = str_cmp(co1->co_command, co2->co_command);\n        break;\n    case CO_REFERENCE:")]),
('a7','C12',[(O,"    if (co->co_type == CO_VARIABLE){\n        cgs","    if (co->co_command){\n        cgs")] ),
('a8','C12',[(M_,"    else if (co->co_type == CO_COMMAND && co_orig->co_type == CO_VARIABLE){","    else if (co->co_type == CO_COMMAND && co_orig != co){")]),
('a9','C12',[(O,"    if ((con = co_new_only(co->co_type)) == NULL)","    if ((con = co_new_only(CO_COMMAND)) == NULL)")]),
('b1','C12',[(S,"            if (co->co_type == CO_VARIABLE &&\n                co->co_translate","            if (co->co_type != CO_REFERENCE &&\n                co->co_translate")]),
('b2','C12',[(M_,"if (co_match->co_type == CO_VARIABLE && ISREST(co_match))","if (co_match->co_vtype == CGV_REST)")]),
('b3','C12',[(E,"    else if (co->co_type == CO_VARIABLE &&","    else if (co->co_type != CO_COMMAND &&")]),
('r1','C12',[(H,"#define ISREST(co) (((co)->co_type == CO_VARIABLE && (co)->co_vtype == CGV_REST) || ((co)->co_ref && (co)->co_ref->co_type == CO_VARIABLE && (co)->co_ref->co_vtype == CGV_REST))","#define ISREST(co) isrest(co)\nstatic inline int isrestvar(cg_obj *co) { return co->co_type == CO_VARIABLE && co->co_vtype == CGV_REST; }\nstatic inline int isrest(cg_obj *co)\n{\n    if (isrestvar(co)) return 1;\n    if (co->co_ref == NULL) return 0;\n    return isrestvar(co->co_ref);\n}")]),
('r2','C12',[(E,"    if (co->co_type == CO_VARIABLE && co->co_choice != NULL){","    int isvar = co->co_type == CO_VARIABLE;\n    if (isvar && co->co_choice != NULL){")]),
('r3','C12',[(O,"    if (co->co_type == CO_VARIABLE){\n        if (co->co_expand_fn_str)\n            free","    if (co->co_type != CO_VARIABLE)\n        ;\n    else {\n        if (co->co_expand_fn_str)\n            free")]),
('r4','C12',[(O,"    if (type == CO_VARIABLE) // reference since it may be replaced\n        size = sizeof(cg_obj);\n    else\n        size = sizeof(struct cg_obj_common);\n    return size;","    switch (type){\n    case CO_VARIABLE: return sizeof(cg_obj);\n    default: break;\n    }\n    (void)size;\n    return sizeof(struct cg_obj_common);")]),
('r5','C12',[(S,"            if (co->co_type == CO_VARIABLE &&\n                co->co_translate_fn_str != NULL && co->co_translate_fn == NULL){","            if (needs_translate(co)){"),(S,"/*! Assign functions for translation","static int\nneeds_translate(cg_obj *co)\n{\n    if (co->co_type != CO_VARIABLE)\n        return 0;\n    return co->co_translate_fn_str != NULL && co->co_translate_fn == NULL;\n}\n\n/*! Assign functions for translation")] ),
('r6','C12',[(E,"    if (co->co_expandv_fn)\n        co->co_expandv_fn = NULL;\n    if (co->co_expand_fn_str){\n        free(co->co_expand_fn_str);\n        co->co_expand_fn_str = NULL;\n    }\n","    cg_varspec *cs = co2varspec(co);\n    cs->cgs_expandv_fn = NULL;\n    if (cs->cgs_expand_fn_str){\n        free(cs->cgs_expand_fn_str);\n        cs->cgs_expand_fn_str = NULL;\n    }\n")]),
('r7','C12',[(O,"""    if ((co = co_new_only(CO_VARIABLE)) == NULL)
        return NULL;""","""    co = calloc(1, sizeof(*co));
    if (co == NULL)
        return NULL;
    co->co_type = CO_VARIABLE;
    _co_count++;
    _co_created++;""")]),
]
