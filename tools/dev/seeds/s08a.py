PROP='C08'
EDITS=[('cligen_cv.c', '        if (masklen > 128 || masklen < 0) {', '        if (masklen > 255 || masklen < 0) {')]
DEMO='#include "demo.h"\nint main(){ cg_var *a=cv_new(CGV_IPV6PFX); char *r=NULL; \n CHECK(cv_parse1("2001::/128",a,&r)==1); CHECK(cv_ipv6masklen_get(a)==128);\n CHECK(cv_parse1("2001::/129",a,&r)==0); CHECK(r); free(r); r=NULL;\n CHECK(cv_parse1("2001::/255",a,&r)==0); return 0;}\n'
NEEDS='an IPv6 prefix with a mask length between 129 and 255'
BREAKS='it is accepted'
