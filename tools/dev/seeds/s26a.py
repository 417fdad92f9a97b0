PROP='C26'
EDITS=[('cligen_object.c', '    case CGV_INT32:\n        if (co->co_rangelen)\n', '    case CGV_INT32:\n        if (co->co_rangelen > 1)\n')]
DEMO='#include "demo.h"\nint main(){ cg_obj *v=cov_new(CGV_INT32,NULL), *w=cov_new(CGV_INT8,NULL); \n v->co_command=strdup("v"); \n CHECK(co_pref(v,0)==48); v->co_rangelen=1; CHECK(co_pref(v,0)==56); CHECK(co_pref(v,0)>co_pref(w,0)); return 0;}\n'
NEEDS='a 32-bit integer with one interval and another integer as alternatives'
BREAKS='the ranged integer ranks as an unranged one'
