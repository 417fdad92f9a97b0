PROP='C18'
EDITS=[('cligen_getline.c', ' err: /* fatal error */\n    gl_cleanup();\n    return -1;', ' err: /* fatal error */\n    if (c >= 0)\n        gl_cleanup();\n    return -1;')]
DEMO='#include "demo.h"\n#include <termios.h>\n#include <fcntl.h>\nextern int gl_getline(cligen_handle h, char **buf);\nextern int (*gl_qmark_hook)(cligen_handle, char *);\nextern int (*gl_interrupt_hook)(cligen_handle);\nstatic int bad(cligen_handle h, char *s){ return -1; }\nstatic int hup(cligen_handle h){ return -1; }\nstatic void sig(int s){}\nint main(){ int m=posix_openpt(O_RDWR|O_NOCTTY), s, i; struct termios a,b; char *buf=NULL; cligen_handle h; struct sigaction sa; \n CHECK(m>=0); CHECK(grantpt(m)==0); CHECK(unlockpt(m)==0); s=open(ptsname(m),O_RDWR|O_NOCTTY); CHECK(s>=0);\n CHECK(dup2(s,0)==0); i=open("/dev/null",O_WRONLY); CHECK(dup2(i,1)==1);\n CHECK((h=cligen_init())!=NULL);\n CHECK(tcgetattr(0,&a)==0); CHECK(a.c_lflag & ECHO);\n gl_qmark_hook = bad;\n CHECK(write(m,"?",1)==1);\n CHECK(gl_getline(h,&buf)<0);\n CHECK(tcgetattr(0,&b)==0); CHECK(a.c_lflag==b.c_lflag); CHECK(a.c_iflag==b.c_iflag);\n /* the interrupt hook fails while waiting for a key */\n gl_interrupt_hook = hup;\n memset(&sa,0,sizeof(sa)); sa.sa_handler=sig; sigaction(SIGALRM,&sa,NULL);\n alarm(1);\n i=gl_getline(h,&buf);\n CHECK(tcgetattr(0,&b)==0); CHECK(a.c_lflag==b.c_lflag); CHECK(a.c_iflag==b.c_iflag);\n return 0;}\n'
NEEDS='reading a key fails (an interrupt hook refuses) while a line is edited'
BREAKS='the terminal is left in raw mode'
