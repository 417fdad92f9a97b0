H='cligen_history.c'
M=[('a1','C23',[(H,'ch->ch_hist_last = (ch->ch_hist_last + 1) % ch->ch_hist_size;','ch->ch_hist_last = (ch->ch_hist_last + 1) % (ch->ch_hist_size+1);')]),
('a2','C23',[(H,'(ch->ch_hist_cur - 1 + ch->ch_hist_size) % ch->ch_hist_size','(ch->ch_hist_cur - 1) % ch->ch_hist_size')]),
('a3','C23',[(H,'    ch->ch_hist_cur = 0;\n    ch->ch_hist_last = 0;','    ch->ch_hist_last = 0;')]),
('a4','C23',[(H,'malloc((lines+1)*sizeof(char*))','malloc(lines*sizeof(char*))')]),
('a5','C23',[(H,'ch->ch_hist_cur = (ch->ch_hist_cur+1) % ch->ch_hist_size;','ch->ch_hist_cur++;')]),
('a6','C23',[(H,'    while(ch->ch_hist_buf[i] == NULL)\n        i = (i+1)%ch->ch_hist_size;','    while(ch->ch_hist_buf[i] == NULL)\n        i++;')]),
('a7','C23',[(H,'for (i=1; i < ch->ch_hist_size; i++)','for (i=1; i <= ch->ch_hist_size; i++)')]),
('a8','C23',[(H,'    ch->ch_hist_cur = ch->ch_hist_last;\n    retval','    retval')]),
('a9','C23',[('cligen_getline.c','        search_last = last;\n        search_update(h, 0);\n        gl_search_mode = 1;','        search_update(h, 0);\n        gl_search_mode = 1;',1)]),
('b1','C23',[(H,'if (lines < 1){','if (lines < 0){')]),
('b2','C23',[(H,'(ch->ch_hist_cur - 1 + ch->ch_hist_size) % ch->ch_hist_size','ch->ch_hist_cur?ch->ch_hist_cur-1:ch->ch_hist_size-2')]),
# refactors
('r1','C23',[(H,'ch->ch_hist_cur = (ch->ch_hist_cur+1) % ch->ch_hist_size;','if (++ch->ch_hist_cur >= ch->ch_hist_size)\n ch->ch_hist_cur = 0;')]),
('r2','C23',[(H,'    int   next = (ch->ch_hist_cur - 1 + ch->ch_hist_size) % ch->ch_hist_size;','    int   next = ch->ch_hist_cur;\n if (next == 0) next = ch->ch_hist_size;\n next--;')]),
('r3','C23',[(H,'    ch->ch_hist_buf = buf;\n    ch->ch_hist_size = lines+1;\n    ch->ch_hist_cur = 0;\n','    ch->ch_hist_cur = 0;\n    ch->ch_hist_size = lines+1;\n    ch->ch_hist_buf = buf;\n')]),
('r4','C23',[(H,'static char *\nhist_save','static int hist_step(struct cligen_handle *ch, int pos){ pos++; return pos == ch->ch_hist_size ? 0 : pos; }\nstatic char *\nhist_save'),(H,'ch->ch_hist_last = (ch->ch_hist_last + 1) % ch->ch_hist_size;','ch->ch_hist_last = hist_step(ch, ch->ch_hist_last);'),(H,'i = (i+1)%ch->ch_hist_size;\n    }','i = hist_step(ch, i);\n    }')]),
('r5','C23',[(H,'for (i=1; i < ch->ch_hist_size; i++)','for (i=lines; i >= 1; i--)')]),
('r6','C23',[(H,'malloc((lines+1)*sizeof(char*))','calloc(lines+1, sizeof(*buf))')]),
]
