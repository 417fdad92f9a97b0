PROP='C17'
EDITS=[('cligen_cvec.c', '    if (name){\n        if ((s1 = strdup4(name)) == NULL)\n            return NULL; /* error in errno */\n    }\n    if (cvv->vr_name != NULL)\n        free(cvv->vr_name);\n', '    if (cvv->vr_name != NULL && (name == NULL || strcmp(name, cvv->vr_name) != 0)){\n        free(cvv->vr_name);\n        cvv->vr_name = NULL;\n    }\n    if (name){\n        if ((s1 = strdup4(name)) == NULL)\n            return NULL; /* error in errno */\n    }\n    if (cvv->vr_name != NULL)\n        free(cvv->vr_name);\n')]
DEMO='#define POISON\n#include "demo.h"\nint main(){ cvec *c=cvec_new(0); char *n;\n CHECK(cvec_name_set(c,"hello world")); CHECK(cvec_name_set(c,cvec_name_get(c))); CHECK(strcmp(cvec_name_get(c),"hello world")==0);\n CHECK(cvec_name_set(c,cvec_name_get(c)+6)); CHECK(strcmp(cvec_name_get(c),"world")==0); return 0;}\n'
NEEDS='a vector named by a part of its present name'
BREAKS='the present name is released before it is copied'
