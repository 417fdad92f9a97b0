PROP='C04'
EDITS=[('cligen_cvec.c',"""    retval = 0;
    if (cvtp){
        *cvtp = cvt;
        cvt = NULL;
    }
    if (cvrp){
        *cvrp = cvr;
        cvr = NULL;
    }
""","""    retval = 0;
    if (cvtp)
        *cvtp = cvt;
    cvt = NULL;
    if (cvrp)
        *cvrp = cvr;
    cvr = NULL;
""")]
DEMO='''#include "demo.h"
int main(){ cvec *t=NULL; long l0; int i;
 CHECK(cligen_str2cvv("a bb  ccc", &t, NULL)==0); cvec_free(t);
 l0=live;
 for(i=0;i<100;i++){ CHECK(cligen_str2cvv("a bb  ccc", &t, NULL)==0); CHECK(cvec_len(t)==4); cvec_free(t);}
 CHECK(live==l0);
 return 0;}
'''
NEEDS='a caller of cligen_str2cvv that asks for only one of the two vectors'
BREAKS='the vector the caller did not ask for is dropped without being released'
