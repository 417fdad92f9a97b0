PROP='C09'
EDITS=[('cligen_cv.c', 'range_check(u, cv1, cv2, uint32)', 'range_check((int32_t)u, cv1, cv2, int32)')]
DEMO='#include "demo.h"\nint main(){ cligen_handle h=cligen_init(); cg_varspec cs; cg_var *lo,*up,*v; char *r=NULL;\n memset(&cs,0,sizeof(cs)); cs.cgs_vtype=CGV_UINT32; cs.cgs_rangelen=1;\n cs.cgs_rangecvv_low=cvec_new(0); cs.cgs_rangecvv_upp=cvec_new(0);\n lo=cvec_add(cs.cgs_rangecvv_low,CGV_UINT32); up=cvec_add(cs.cgs_rangecvv_upp,CGV_UINT32);\n cv_uint32_set(lo,1); cv_uint32_set(up,4000000000u);\n v=cv_new(CGV_UINT32); \n cv_uint32_set(v,5); CHECK(cv_validate(h,v,&cs,"x",&r)==1);\n cv_uint32_set(v,4000000000u); CHECK(cv_validate(h,v,&cs,"x",&r)==1);\n cv_uint32_set(v,4000000001u); CHECK(cv_validate(h,v,&cs,"x",&r)==0); return 0;}\n'
NEEDS='a uint32 range with an end point above the largest signed value'
BREAKS='values inside the range are refused'
