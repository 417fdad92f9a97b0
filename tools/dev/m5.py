Y='cligen_parse.y'; L='cligen_parse.l'; S='cligen_syntax.c'
M=[
('a1','C02',[(Y,'if (cg_range(_cy, $3, $5) < 0) _YYERROR("keypair"); free($3); free($5);','cg_range(_cy, $3, $5); free($3); free($5);')]),
('a2','C02',[(Y,'if (cg_preference(_cy, $3) < 0) _YYERROR("keypair"); free($3);','if (cg_preference(_cy, $3) < 0) cligen_parseerror(_cy, "keypair"); free($3);')]),
('a3','C02',[(Y,'if ($2 && expand_arg(_cy, $1, $2) < 0) _YYERROR("exparg");','if ($1 && $2 && expand_arg(_cy, $1, $2) < 0) ; else if ($2 && !$1 && expand_arg(_cy, $1, $2) < 0) _YYERROR("exparg");')]),
('a4','C02',[(Y,'if (yv->co_dec64_n < 1 || yv->co_dec64_n > 18){','if (yv->co_dec64_n < 1 || yv->co_dec64_n > 19){')]),
('a5','C02',[(Y,'!= 1){\n        cligen_parseerror1(cy, reason?reason:"Invalid preference");','< 0){\n        cligen_parseerror1(cy, reason?reason:"Invalid preference");')]),
('a6','C02',[(Y,'        fprintf(stderr, "%s: Invalid type: %s\\n", __FUNCTION__, type);\n        return -1;','        fprintf(stderr, "%s: Invalid type: %s\\n", __FUNCTION__, type);\n        cy->cy_var->co_vtype = CGV_STRING;')]),
('a7','C02',[(Y,'cligen_parseerror1(cy, "Wrong or unassigned variable type");\n        return -1;','cligen_parseerror1(cy, "Wrong or unassigned variable type");\n        return 0;')]),
('a8','C02',[(Y,'            if (val && cv_parse(val, cv) < 0)  /* May be wrong type */\n                goto done;','            if (val) cv_parse(val, cv);')]),
('a9','C02',[(L,'<INITIAL>.                { return -1; }','<INITIAL>.                { ; }')]),
('b1','C02',[(L,'if ((cligen_parselval.string = strdup(yytext)) == NULL) return -1;\n                                 return NAME; }\n\n<OPTION>[ \\t]+','cligen_parselval.string = strdup(yytext);\n                                 return NAME; }\n\n<OPTION>[ \\t]+')]),
('b2','C02',[(Y,'        if (cvret == 0){ /* parsing failed */\n            cligen_parseerror1(cy, reason);\n            goto done;\n        }\n    }','        if (cvret == 0){ /* parsing failed */\n            cligen_parseerror1(cy, reason);\n            cv_type_set(cv1, CGV_EMPTY);\n        }\n    }')]),
('b3','C02',[(Y,'if (cv_type_set(cv, cv_str2type(type)) == CGV_ERR){','if (cv_type_set(cv, cv_str2type(type)) == CGV_ERR && strlen(type)){')]),
('b4','C02',[(S,'    if (cligen_parseparse(&cy) != 0)','    if (cligen_parseparse(&cy) < 0)')]),
('b5','C02',[(Y,"if (($$ = cgy_var_choice_append(_cy, $1, $3)) == NULL) _YYERROR(\"choices\"); free($3);}","if (($$ = cgy_var_choice_append(_cy, $1, $3)) == NULL) $$ = NULL; free($3);}",1)]),
('b6','C02',[(Y,"if (cligen_ph_parsetree_set(ph, pt) < 0)\n            goto done;","cligen_ph_parsetree_set(ph, pt);")]),
('r1','C02',[(Y,'if (cg_range(_cy, $3, $5) < 0) _YYERROR("keypair"); free($3); free($5);','{ int r = cg_range(_cy, $3, $5); if (r < 0) { _YYERROR("keypair"); } free($5); free($3); }')]),
('r2','C02',[(Y,'if (yv->co_dec64_n < 1 || yv->co_dec64_n > 18){\n        cligen_parseerror1(cy, "fraction-digits not in interval 1..18");\n        return -1;\n    }\n    return 0;','if (yv->co_dec64_n >= 1 && yv->co_dec64_n <= 18)\n        return 0;\n    cligen_parseerror1(cy, "fraction-digits not in interval 1..18");\n    return -1;')]),
('r3','C02',[(Y,'if ((_CY->cy_var = cgy_var_create(_CY)) == NULL) _YYERROR("cmd");','_CY->cy_var = cgy_var_create(_CY); if (!_CY->cy_var) _YYERROR("cmd");')]),
('r4','C02',[(Y,'    cy->cy_var->co_command = name;\n    if ((cy->cy_var->co_vtype = cv_str2type(type)) == CGV_ERR){','    enum cv_type t = cv_str2type(type);\n    cy->cy_var->co_command = name;\n    cy->cy_var->co_vtype = t;\n    if (t == CGV_ERR){')]),
]
