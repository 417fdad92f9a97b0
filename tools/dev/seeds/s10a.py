PROP='C10'
EDITS=[('cligen_cv.c', '        if ((n =  memcmp(&cv1->var_ipv6addr, &cv2->var_ipv6addr,\n                         sizeof(cv1->var_ipv6addr))))', '        if ((n =  memcmp(&cv1->var_ipv6addr, &cv2->var_ipv6addr,\n                         sizeof(cv1->var_ipv6addr)-1)))')]
DEMO='#include "demo.h"\nint main(){ cg_var *a=cv_new(CGV_IPV6PFX), *b=cv_new(CGV_IPV6PFX);\n CHECK(cv_parse("2001::/64",a)==0); CHECK(cv_parse("2001::1/64",b)==0);\n CHECK(cv_cmp(a,b)<0); CHECK(cv_cmp(b,a)>0); CHECK(cv_cmp(a,a)==0); return 0;}\n'
NEEDS='two IPv6 prefixes that differ in the last byte of the address only'
BREAKS='they compare equal'
