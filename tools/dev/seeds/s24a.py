PROP='C24'
EDITS=[('cligen_cvec.c', '    cvec   *cvv = NULL;\n    cg_var *cv = NULL;\n    int     whitespace = 1;\n', '    cvec   *cvv = NULL;\n    cg_var *cv = NULL;\n    static int whitespace = 1;\n')]
DEMO='#include "demo.h"\nint main(){ cvec *c=NULL; \n CHECK(cligen_txt2cvv("  one", &c)==0); CHECK(strcmp(cv_string_get(cvec_i(c,0)),"one")==0);\n CHECK(cligen_txt2cvv("  two", &c)==0); CHECK(strcmp(cv_string_get(cvec_i(c,0)),"two")==0); return 0;}\n'
NEEDS='two help texts split one after the other'
BREAKS='leading blanks of the second are kept, depending on the first'
