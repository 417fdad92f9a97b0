PROP='C14'
EDITS=[('cligen_parsetree.c', '    if (i<0 || i >= pt_len_get(pt)){\n       errno = EINVAL;\n       return -1;\n    }\n    if (pt->pt_vec == NULL){', '    if (i<0 || i > pt_len_get(pt)){\n       errno = EINVAL;\n       return -1;\n    }\n    if (pt->pt_vec == NULL){')]
DEMO='#include "demo.h"\nint main(){ parse_tree *pt=pt_new(); cg_obj *a=co_new("a",NULL), *b=co_new("b",NULL);\n CHECK(co_insert(pt,a)==a); CHECK(co_insert(pt,b)==b); CHECK(pt_len_get(pt)==2);\n CHECK(pt_vec_i_clear(pt,1)==0); CHECK(pt_vec_i_clear(pt,-1)<0); CHECK(pt_vec_i_clear(pt,2)<0); return 0;}\n'
NEEDS='clearing the element of a command tree at index equal to its length'
BREAKS='a null pointer is written behind the vector'
