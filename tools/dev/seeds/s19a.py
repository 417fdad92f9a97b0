PROP='C19'
EDITS=[('cligen_read.c', '    if (spipe != -1)\n        close(spipe);\n    if (wh)', '    if (spipe != -1 && retval == 0)\n        close(spipe);\n    if (wh)')]
DEMO='#include "demo.h"\n#include <fcntl.h>\nstatic int pcb(cligen_handle h, cvec *a, cvec *b){ return 0; }\nstatic int cb(cligen_handle h, cvec *a, cvec *b){ return -1; }\nstatic int nfd(void){ int i,n=0; for(i=0;i<64;i++) if (fcntl(i,F_GETFD)>=0) n++; return n; }\nint main(){ cligen_handle h=cligen_init(); cg_obj *co=co_new("a",NULL); cg_callback *cc=calloc(1,sizeof(*cc)), *c2=calloc(1,sizeof(*cc)); cvec *cvv=cvec_start("a"); int n;\n cc->cc_fn_vec=pcb; cc->cc_fn_str=strdup("pcb"); cc->cc_flags=CC_FLAGS_PIPE_FUNCTION; c2->cc_fn_vec=cb; c2->cc_fn_str=strdup("cb"); c2->cc_next=cc; co->co_callbacks=c2;\n n=nfd(); CHECK(cligen_eval(h,co,cvv)<0); CHECK(nfd()==n); return 0;}\n'
NEEDS='a callback that fails in a command with an output pipe'
BREAKS='one descriptor is lost for each such command'
