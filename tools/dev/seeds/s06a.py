PROP='C06'
EDITS=[('cligen_cv.c', '        if (old->var_urluser)\n            if ((new->var_urluser = strdup(old->var_urluser)) == NULL)', '        if (old->var_urluser && old->var_urlpasswd)\n            if ((new->var_urluser = strdup(old->var_urluser)) == NULL)')]
DEMO='#include "demo.h"\nint main(){ cg_var *a=cv_new(CGV_URL), *b=cv_new(CGV_URL);\n CHECK(cv_urlproto_set(a,"http")); CHECK(cv_urladdr_set(a,"host")); CHECK(cv_urluser_set(a,"me"));\n CHECK(cv_cp(b,a)==0); CHECK(cv_urluser_get(b)!=NULL); CHECK(strcmp(cv_urluser_get(b),"me")==0); CHECK(cv_urluser_get(b)!=cv_urluser_get(a));\n cv_free(a); CHECK(strcmp(cv_urluser_get(b),"me")==0); cv_free(b); return 0;}\n'
NEEDS='copying a url value that has a user and no password'
BREAKS='the copy has no user'
