PROP='C16'
EDITS=[('cligen_cv.c', 'int16_t\ncv_int16_set(cg_var *cv,\n             int16_t x)\n{\n    if (cv == NULL)\n        return 0;\n    return', 'int16_t\ncv_int16_set(cg_var *cv,\n             int16_t x)\n{\n    if (cv == NULL && x == 0)\n        return 0;\n    return')]
DEMO='#include "demo.h"\nint main(){ cg_var *a=cv_new(CGV_INT16); CHECK(cv_int16_set(a,-3)==-3); CHECK(cv_int16_get(a)==-3);\n CHECK(cv_int16_set(NULL,0)==0); CHECK(cv_int16_set(NULL,7)==0); return 0;}\n'
NEEDS='cv_int16_set without a value object and with a number other than 0'
BREAKS='the missing object is dereferenced'
