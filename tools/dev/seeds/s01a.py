PROP='C01'
EDITS=[('cligen_cvec.c', '        if (cv_strncpy(cv, &str[i0], i-i0) == NULL)\n            goto done;\n    }\n    if (cvp){', '        if (cv_strncpy(cv, &str[i0], i-i0) == NULL)\n            cv_string_set(cv, "");\n    }\n    if (cvp){')]
DEMO='#include "demo.h"\nint main(){ long n; cvec *c; int r;\n for(n=1;n<12;n++){ c=NULL; oom_set(n); r=cligen_txt2cvv("one\\n two", &c); oom_set(0);\n   if (r==0){ CHECK(cvec_len(c)==2); CHECK(cv_string_get(cvec_i(c,1))); CHECK(strcmp(cv_string_get(cvec_i(c,1)),"two")==0); cvec_free(c);} }\n return 0;}\n'
NEEDS='memory running out when the last line, which has no newline, is stored'
BREAKS='cligen_txt2cvv succeeds with an empty line in place of the text'
