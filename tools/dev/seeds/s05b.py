PROP='C05'
EDITS=[('cligen_result.c',"""    if ((reason = from->mr_reason) != NULL &&
        to->mr_reason == NULL){
        to->mr_reason = reason;
        from->mr_reason = NULL;
    }
""","""    if ((reason = from->mr_reason) != NULL){
        if (to->mr_reason != NULL)
            free(reason);
        else{
            to->mr_reason = reason;
            from->mr_reason = NULL;
        }
    }
""")]
DEMO='''#include "demo.h"
#include "cligen_result.h"
int main(){ match_result *a=mr_new(), *b=mr_new();
 char *x;
 CHECK(a&&b);
 mr_reason_set(a, strdup("one")); mr_reason_set(b, strdup("two"));
 mr_mv_reason(a, b);
 x = strdup("XXX"); /* takes the place of a released block, if any */
 CHECK(mr_reason_get(a) != x);
 CHECK(strcmp(mr_reason_get(b),"two")==0);
 return 0;}
'''
NEEDS='two nested match results that both carry an error reason'
BREAKS='the released reason stays referenced by the first result'
