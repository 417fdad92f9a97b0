PROP='C25'
EDITS=[('cligen_expand.c', '    if (hide && co_flags_get(co, CO_FLAGS_HIDE))\n        goto ok;', '    if (hide && co->co_type != CO_VARIABLE && co_flags_get(co, CO_FLAGS_HIDE))\n        goto ok;')]
DEMO='#include "demo.h"\nint main(){ cligen_handle h=cligen_init(); parse_tree *pt=pt_new(), *ptn=pt_new(); cg_obj *a=co_new("a",NULL), *v; cvec *cvv=cvec_start("");\n v=cov_new(CGV_INT32,NULL); v->co_command=strdup("v"); co_flags_set(v,CO_FLAGS_HIDE);\n CHECK(co_insert(pt,a)==a); CHECK(co_insert(pt,v)==v);\n CHECK(pt_expand(h,NULL,pt,NULL,cvv,1,0,NULL,NULL,ptn)==0);\n CHECK(pt_len_get(ptn)==1); return 0;}\n'
NEEDS='a hidden command whose word is a variable'
BREAKS='it is listed among the candidates'
