PROP='C02'
EDITS=[('cligen_parse.y', '    cclast = NULL;\n    for (cc=cy->cy_callbacks; cc; cc = co_callback_next(cc))\n        cclast = cc;\n    if (cclast){\n', '    cclast = NULL;\n    for (cc=cy->cy_callbacks; cc; cc = co_callback_next(cc))\n        cclast = cc;\n    retval = 0;\n    if (cclast){\n')]
DEMO='#include "demo.h"\nint main(){ cligen_handle h=cligen_init(); parse_tree *pt=pt_new(); cvec *g=cvec_new(0);\n CHECK(clispec_parse_str(h,"a,cb((int32)\\"17\\", \\"x\\");","x","t",pt,g)==0);\n pt=pt_new(); CHECK(clispec_parse_str(h,"b,cb((int32)\\"seventeen\\", \\"x\\");","x","t",pt,g)<0); return 0;}\n'
NEEDS='a typed callback argument whose text is no value of the type'
BREAKS='the specification is accepted with the argument left out, so the callback sees its later arguments moved'
