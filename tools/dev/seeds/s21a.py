PROP='C21'
EDITS=[('cligen_io.c', '    else{\n        fprintf(f, "%s", inbuf);\n    }\n    fflush(f);\n    retval = 0;\n done:\n    return retval;', '    else{\n        fprintf(f, inbuf);\n    }\n    fflush(f);\n    retval = 0;\n done:\n    return retval;')]
DEMO='#include "demo.h"\nint main(){ FILE *f=tmpfile(); char b[100]={0};\n CHECK(f!=NULL); CHECK(cligen_output_basic(f,"load 50%% of 7\\n",15)==0); rewind(f);\n CHECK(fread(b,1,90,f)>0); CHECK(strcmp(b,"load 50%% of 7\\n")==0); return 0;}\n'
NEEDS='output of a pipe function with a percent sign, without paging'
BREAKS='the text is interpreted as a print format'
