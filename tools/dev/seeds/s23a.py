PROP='C23'
EDITS=[('cligen_history.c', '    ch->ch_hist_last = 0;\n    ch->ch_hist_pre = 0;', '    if (ch->ch_hist_last > lines+1)\n        ch->ch_hist_last = 0;\n    ch->ch_hist_pre = 0;')]
DEMO='#include "demo.h"\nextern int hist_add(cligen_handle h, char *b); extern int hist_last_get(cligen_handle h); extern int hist_pos(cligen_handle h);\nint main(){ cligen_handle h=cligen_init(); int i; char b[16];\n CHECK(cligen_hist_init(h,10)==0);\n for(i=0;i<4;i++){ sprintf(b,"l%d",i); CHECK(hist_add(h,b)==0);} \n CHECK(cligen_hist_init(h,3)==0); CHECK(hist_last_get(h)>=0 && hist_last_get(h)<4); CHECK(hist_pos(h)<4); \n return 0;}\n'
NEEDS='shrinking a history in use to one slot less than the newest position'
BREAKS='the newest position lies one past the end'
