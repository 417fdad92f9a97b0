PROP='C20'
EDITS=[('cligen_regex.c', '    int   retval = -1;\n\n    if (cligen_regex_xsd(h) == 0) {\n        retval = cligen_regex_posix_free(recomp);', '    int   retval = -1;\n\n    if (cligen_regex_xsd(h) != 1) {\n        retval = cligen_regex_posix_free(recomp);')]
DEMO='#include "demo.h"\nint main(){ cligen_handle h=cligen_init(); int i;\n for(i=0;i<3;i++){ cligen_regex_xsd_set(h,i); CHECK(match_regexp(h,"aab","[a-c]+",0)==1); CHECK(match_regexp(h,"xx","[a-c]+",0)==0);} return 0;}\n'
NEEDS='the expression engine selected with a number other than 0 and 1'
BREAKS='an expression compiled by libxml2 is released as a posix one'
