PROP='C28'
EDITS=[('cligen_cvec.c', "    if (i >= cvec_len(cvv)) /* Not found !?! */\n        return cvec_len(cvv);\n\n    if (i != cvec_len(cvv)-1) /* If not last entry, move the remaining cv's */\n        memmove(&cvv->vr_vec[i], &cvv->vr_vec[i+1],\n                (cvv->vr_len-i-1) * sizeof", "    if (i >= cvec_len(cvv)) /* Not found !?! */\n        return cvec_len(cvv);\n\n    if (i != cvec_len(cvv)-1) /* If not last entry, move the remaining cv's */\n        memmove(&cvv->vr_vec[i], &cvv->vr_vec[i+1],\n                (cvv->vr_len-i) * sizeof")]
DEMO_SH='#!/bin/bash\n# values deleted from the middle of a vector, under the address sanitizer\nd=$(mktemp -d) || exit 1\ntrap \'rm -rf "$d"\' EXIT\ncp /repo/*.c /repo/*.h "$d"/ || exit 1\ncd "$d" || exit 1\nrm -f "$d"/cligen_hello.c "$d"/cligen_file.c "$d"/cligen_tutorial.c\ncat > "$d"/main_demo.c <<\'EOF\'\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include <errno.h>\n#include <netinet/in.h>\n#include "cligen/cligen.h"\nint cligen_buf_increase(cligen_handle h, size_t len1);\nint cligen_buf_size(cligen_handle h);\nchar *cligen_buf(cligen_handle h);\nint main(void){\n  cvec *cvv = cvec_new(0); cg_var *cv; int i;\n  if (cvv == NULL) return 1;\n  for (i=0;i<5;i++){ cv = cvec_add(cvv, CGV_INT32); cv_int32_set(cv, i); }\n  while (cvec_len(cvv) > 0){\n    int first = cv_int32_get(cvec_i(cvv, cvec_len(cvv)-1));\n    if (cvec_del(cvv, cvec_i(cvv, cvec_len(cvv) > 1 ? cvec_len(cvv)-2 : 0)) < 0) return 2;\n    if (cvec_len(cvv) && cv_int32_get(cvec_i(cvv, cvec_len(cvv)-1)) != first) return 3;\n  }\n  cvec_free(cvv);\n  return 0; }\nEOF\nmkdir -p "$d"/cligen && cp "$d"/*.h "$d"/cligen/\ngcc -w -g -O0 -fsanitize=address -DHAVE_CONFIG_H -I"$d" -I/usr/include/libxml2 *.c -o "$d"/demo -ldl 2>"$d"/err || gcc -w -g -O0 -fsanitize=address -DHAVE_CONFIG_H -I"$d" -I/usr/include/libxml2 *.c -o "$d"/demo -lxml2 -ldl || exit 1\nASAN_OPTIONS=detect_leaks=0 "$d"/demo\n'
NEEDS='a value deleted from before the end of a vector'
BREAKS='one value more than there is is read from behind the vector'
