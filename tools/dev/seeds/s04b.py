PROP='C04'
EDITS=[('cligen_object.c', '    if (co_pt_set(co, pt) < 0){\n        free(pt);\n        free(co);\n        return NULL;\n    }\n    return co;\n}\n\n/*! Copy', '    if (co_pt_set(co, pt) < 0){\n        co_free(co, 0);\n        return NULL;\n    }\n    return co;\n}\n\n/*! Copy')]
DEMO='#include "demo.h"\nint main(){ long l0, n; cg_obj *co;\n co_free(cov_new(CGV_INT32, NULL), 1);\n l0=live;\n for(n=1;n<10;n++){ oom_set(n); co=cov_new(CGV_INT32, NULL); oom_set(0); if (co) co_free(co,1); CHECK(live==l0);}\n return 0;}\n'
NEEDS='memory running out when the tree vector of a new variable is created'
BREAKS='the parse-tree that was not attached is lost'
