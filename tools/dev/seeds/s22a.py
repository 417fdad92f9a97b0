PROP='C22'
EDITS=[('cligen_read.c', '                                cvv1,\n                                argv) < 0){', '                                cvv1,\n                                argv) < 0 && cc->cc_next == NULL){')]
DEMO='#include "demo.h"\nstatic int n=0;\nstatic int bad(cligen_handle h, cvec *a, cvec *b){ return -1; }\nstatic int good(cligen_handle h, cvec *a, cvec *b){ n++; return 0; }\nint main(){ cligen_handle h=cligen_init(); cg_obj *co=co_new("a",NULL); cg_callback *c1=calloc(1,sizeof(*c1)), *c2=calloc(1,sizeof(*c2)); cvec *cvv=cvec_start("a");\n c1->cc_fn_vec=bad; c1->cc_fn_str=strdup("bad"); c2->cc_fn_vec=good; c2->cc_fn_str=strdup("good"); co->co_callbacks=c1; c1->cc_next=c2;\n CHECK(cligen_eval(h,co,cvv)<0); CHECK(n==0); return 0;}\n'
NEEDS='a command with two callbacks of which the first fails'
BREAKS='evaluation goes on with the second and reports success'
