PROP='C27'
EDITS=[('cligen_getline.c','        if (search_pos+1 < SEARCH_LEN) {','        if (search_pos < SEARCH_LEN) {')]
DEMO_SH='''#!/bin/bash
# a search for more than a hundred characters, under the address sanitizer
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
cp /repo/*.c /repo/*.h "$d"/ || exit 1
cd "$d" || exit 1
rm -f "$d"/cligen_hello.c "$d"/cligen_file.c "$d"/cligen_tutorial.c; mv "$d"/cligen_getline.c "$d"/cligen_getline.i && mkdir "$d"/inc && mv "$d"/cligen_getline.i "$d"/inc/cligen_getline.c
cat > "$d"/main_demo.c <<'EOF'
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <netinet/in.h>

#include "cligen_getline.c"
int main(void){
  cligen_handle h = cligen_init(); int i;
  if (h == NULL) return 1;
  search_update(h, 0);
  for (i=0;i<SEARCH_LEN+8;i++) search_update(h, 'a'+i%26);
  for (i=0;i<SEARCH_LEN-2;i++) search_update(h, -1);
  return 0; }
EOF
mkdir -p "$d"/cligen && cp "$d"/*.h "$d"/cligen/
gcc -w -g -O0 -fsanitize=address -DHAVE_CONFIG_H -I"$d" -I"$d"/inc -I/usr/include/libxml2 *.c -o "$d"/demo -ldl 2>"$d"/err || { gcc -w -g -O0 -fsanitize=address -DHAVE_CONFIG_H -I"$d" -I"$d"/inc -I/usr/include/libxml2 *.c -o "$d"/demo -lxml2 -ldl || exit 1; }
ASAN_OPTIONS=detect_leaks=0 "$d"/demo
'''
NEEDS='a history search for a hundred characters or more'
BREAKS='the end of the search string and of the prompt are written behind their arrays'
