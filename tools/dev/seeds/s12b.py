PROP='C12'
EDITS=[('cligen_object.c', '''    /* XXX union */
    if (co->co_type == CO_VARIABLE){
        cgs = &co->u.cou_var;''', '''    /* XXX union */
    if (co->co_type == CO_VARIABLE || co->co_type == CO_REFERENCE){
        cgs = &co->u.cou_var;''')]
DEMO='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <cligen/cligen.h>
/* Every block is followed by bytes that are no part of it */
extern void *__libc_malloc(size_t); extern void __libc_free(void *);
static void *get(size_t n, int zero){ char *p = __libc_malloc(n+528); if (p == NULL) return NULL; memset(p, 0x55, n+528); *(size_t*)p = n; p += 16; if (zero) memset(p, 0, n); return p; }
void *malloc(size_t n){ return get(n, 0); }
void *calloc(size_t a, size_t b){ return get(a*b, 1); }
void free(void *p){ if (p == NULL) return; if ((unsigned long)p == 0x5555555555555555UL){ write(2, "demo: bytes behind a block released\\n", 36); _exit(1);} __libc_free((char*)p-16); }
void *realloc(void *q, size_t n){ void *p = get(n, 0); size_t m; if (q && p){ m = *(size_t*)((char*)q-16); memcpy(p, q, m<n?m:n); free(q); } return p; }
char *strdup(const char *s){ size_t n = strlen(s)+1; char *p = malloc(n); return p ? memcpy(p, s, n) : NULL; }
char *strndup(const char *s, size_t k){ size_t n = strnlen(s, k); char *p = malloc(n+1); if (p){ memcpy(p, s, n); p[n] = 0; } return p; }
int main(void){
  uint64_t nr = 0; size_t sz = 0;
  cligen_handle h = cligen_init(); parse_tree *pt = pt_new(); cvec *g = cvec_new(0);
  if (clispec_parse_str(h, "a; b <v:int32>;", "x", "t", pt, g) != 0) return 2;
  if (pt_stats(pt, &nr, &sz) != 0 || sz > 1000000) return 3;
  pt_free(pt, 1);
  pt = pt_new();
  if (clispec_parse_str(h, "a; @other;", "x", "t", pt, g) != 0) return 2;
  if (pt_stats(pt, &nr, &sz) != 0 || sz > 1000000) return 3;
  pt_free(pt, 1);
  return 0;
}
'''
NEEDS='the size statistics of a tree with a reference to another tree (a node smaller than a variable)'
BREAKS='members of the variable part are read, and followed, behind the block of a reference node'
