PROP='C15'
EDITS=[('cligen_cv.c', 'return cv->var_flag |= mask;', 'return cv->var_flag ^= mask;')]
DEMO='#include "demo.h"\nint main(){ cg_var *v=cv_new(CGV_INT32);\n cv_flag_set(v,1); cv_flag_set(v,2); CHECK(cv_flag(v,1)); CHECK(cv_flag(v,2));\n cv_flag_set(v,1); CHECK(cv_flag(v,1)); CHECK(cv_flag(v,2)); return 0;}\n'
NEEDS='setting a flag that is already set'
BREAKS='the flag becomes clear'
