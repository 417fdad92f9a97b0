PROP='C07'
EDITS=[('cligen_cv.c', '        len = snprintf(str, size, "%" PRIu64, cv->var_uint64);', '        len = snprintf(str, size, "%" PRId64, cv->var_uint64);')]
DEMO='#include "demo.h"\nint main(){ cg_var *a=cv_new(CGV_UINT64); char b[64];\n cv_uint64_set(a, UINT64_MAX); CHECK(cv2str(a,b,sizeof(b))==20); CHECK(strcmp(b,"18446744073709551615")==0);\n cv_uint64_set(a, 7); CHECK(cv2str(a,b,sizeof(b))==1); return 0;}\n'
NEEDS='an unsigned 64-bit value above the largest signed one, printed by cv2str'
BREAKS='the value is printed as a negative number'
