PROP='C28'
EDITS=[('cligen_buf.c', '    if (i > cb->cb_strlen){', '    if (i > cb->cb_buflen){')]
DEMO_SH='#!/bin/bash\n# a dynamic string truncated to a length past its text, under the address sanitizer\nd=$(mktemp -d) || exit 1\ntrap \'rm -rf "$d"\' EXIT\ncp /repo/*.c /repo/*.h "$d"/ || exit 1\ncd "$d" || exit 1\nrm -f "$d"/cligen_hello.c "$d"/cligen_file.c "$d"/cligen_tutorial.c\ncat > "$d"/main_demo.c <<\'EOF\'\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <errno.h>\n#include <netinet/in.h>\n#include "cligen/cligen.h"\nint cligen_buf_increase(cligen_handle h, size_t len1);\nint cligen_buf_size(cligen_handle h);\nchar *cligen_buf(cligen_handle h);\nint main(void){\n  cbuf *cb = cbuf_new_alloc(16); int r;\n  if (cb == NULL) return 1;\n  cprintf(cb, "abc");\n  r = cbuf_trunc(cb, 16);\n  if (r == 0) { cprintf(cb, "def"); return 2; }\n  if (cbuf_trunc(cb, 2) != 0 || strcmp(cbuf_get(cb), "ab")) return 3;\n  cbuf_free(cb);\n  return 0; }\nEOF\nmkdir -p "$d"/cligen && cp "$d"/*.h "$d"/cligen/\ngcc -w -g -O0 -fsanitize=address -DHAVE_CONFIG_H -I"$d" -I/usr/include/libxml2 *.c -o "$d"/demo -ldl 2>"$d"/err || gcc -w -g -O0 -fsanitize=address -DHAVE_CONFIG_H -I"$d" -I/usr/include/libxml2 *.c -o "$d"/demo -lxml2 -ldl || exit 1\nASAN_OPTIONS=detect_leaks=0 "$d"/demo\n'
NEEDS='a truncation to the very size of the buffer'
BREAKS='the end mark is written one byte behind the block'
