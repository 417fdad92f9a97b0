PROP='C11'
EDITS=[('cligen_cv.c', '    else{\n        if (reason)\n            if ((*reason = cligen_reason("\'%s\' is not a boolean value", str)) == NULL){', '    else{\n        if (reason && *str)\n            if ((*reason = cligen_reason("\'%s\' is not a boolean value", str)) == NULL){')]
DEMO='#include "demo.h"\nint main(){ uint8_t v; char *r=NULL;\n CHECK(parse_bool("true",&v,&r)==1); CHECK(r==NULL);\n CHECK(parse_bool("maybe",&v,&r)==0); CHECK(r!=NULL); free(r); r=NULL;\n CHECK(parse_bool("",&v,&r)==0); CHECK(r!=NULL); return 0;}\n'
NEEDS='the empty string given for a boolean'
BREAKS='it is refused without a reason'
