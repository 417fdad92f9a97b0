PROP='C03'
EDITS=[('cligen_cv.c',"""    if ((ss = malloc(strlen(str)+n+2)) == NULL){
        retval = -1; /* malloc */
        goto done;
    }
    memcpy(ss, s1, len1);
""","""    ss = malloc(strlen(str)+n+2);
    memcpy(ss, s1, len1);
    if (ss == NULL){
        retval = -1; /* malloc */
        goto done;
    }
""")]
DEMO='''#include "demo.h"
int main(){ long n; int64_t v; int r; char *reason;
 for(n=1;n<6;n++){ reason=NULL; oom_set(n); r=parse_dec64("12.34", 4, &v, &reason); oom_set(0); CHECK(r==-1 || r==1);}
 return 0;}
'''
NEEDS='memory running out at the second allocation of parsing a decimal64 literal'
BREAKS='the missing scratch string is written before it is tested'
