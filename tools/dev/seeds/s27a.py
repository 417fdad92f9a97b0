PROP='C27'
EDITS=[('cligen_cv.c','    for (len=0; len<6; len++){\n','    for (len=0; len<7; len++){\n')]
DEMO_SH='''#!/bin/bash
# a time with seven digits of fraction, under the address sanitizer
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
cp /repo/*.c /repo/*.h "$d"/ || exit 1
cd "$d" || exit 1
rm -f "$d"/cligen_hello.c "$d"/cligen_file.c "$d"/cligen_tutorial.c
cat > "$d"/main_demo.c <<'EOF'
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <netinet/in.h>
#include <cligen/cligen.h>
int main(void){
  struct timeval tv; char s[64]; int i; const char *f[] = {"1","12","123456","1234567","12345678"};
  for (i=0;i<5;i++){ snprintf(s,sizeof(s),"2020-01-02T03:04:05.%sZ",f[i]); (void)str2time(s,&tv); }
  return 0; }
EOF
mkdir -p "$d"/cligen && cp "$d"/*.h "$d"/cligen/
gcc -w -g -O0 -fsanitize=address -DHAVE_CONFIG_H -I"$d" -I/usr/include/libxml2 *.c -o "$d"/demo -ldl 2>"$d"/err || { gcc -w -g -O0 -fsanitize=address -DHAVE_CONFIG_H -I"$d" -I/usr/include/libxml2 *.c -o "$d"/demo -lxml2 -ldl || exit 1; }
ASAN_OPTIONS=detect_leaks=0 "$d"/demo
'''
NEEDS='a time whose fraction has seven digits or more'
BREAKS='the terminating null is written one past the end of the array of seven characters'
