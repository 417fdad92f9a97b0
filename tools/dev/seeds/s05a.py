PROP='C05'
EDITS=[('cligen_callback.c', '   cg_callback *cc;\n\n   while ((cc = *ccp) != NULL){\n        *ccp = co_callback_next(cc);\n        co_callback_one_free(cc);\n   }\n    return 0;', '   cg_callback *cc;\n   cg_callback *next;\n\n   for (cc = *ccp; cc != NULL; cc = next){\n        if ((next = co_callback_next(cc)) != NULL)\n            *ccp = next;\n        co_callback_one_free(cc);\n   }\n    return 0;')]
DEMO='#include "demo.h"\nint main(){ cg_callback *a=calloc(1,sizeof(*a)), *b=calloc(1,sizeof(*b)); a->cc_next=b;\n a->cc_fn_str=strdup("x"); b->cc_fn_str=strdup("y");\n co_callbacks_free(&a);\n CHECK(a==NULL);\n return 0;}\n'
NEEDS='releasing the callbacks of a node that lives on'
BREAKS='the node still refers to its last, released, callback'
