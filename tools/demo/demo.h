/* Shared by the demonstrations: failing the n:th allocation, counting live blocks, checks */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <inttypes.h>
#include <stddef.h>
#include <signal.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <cligen/cligen.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
static long oom_at = 0;  /* >0: the oom_at:th allocation from now fails */
static long oom_hit = 0; /* number of failed allocations */
static long oom_n = 0;   /* allocations since oom_set */
static long live = 0;    /* blocks allocated and not released */
static int oom_now(void)
{
    oom_n++;
    if (oom_at && oom_n == oom_at){ oom_hit++; errno = ENOMEM; return 1; }
    return 0;
}
static void oom_set(long n) { oom_at = n; oom_n = 0; oom_hit = 0; }
void *malloc(size_t n) { void *p; if (oom_now()) return NULL; if ((p = __libc_malloc(n))) live++; return p; }
void *calloc(size_t a, size_t b) { void *p; if (oom_now()) return NULL; if ((p = __libc_calloc(a, b))) live++; return p; }
void *realloc(void *q, size_t n) { void *p; if (oom_now()) return NULL; if ((p = __libc_realloc(q, n)) && !q) live++; return p; }
void free(void *p)
{
    if (p){
        live--;
#ifdef POISON
        { extern size_t malloc_usable_size(void *); memset(p, 0xdd, malloc_usable_size(p)); }
#endif
    }
    __libc_free(p);
}
char *strdup(const char *s) { size_t n = strlen(s)+1; char *p = malloc(n); return p ? memcpy(p, s, n) : NULL; }
#define CHECK(e) do { if (!(e)){ fprintf(stderr, "demo: %s:%d: failed: %s\n", __FILE__, __LINE__, #e); _exit(1);} } while (0)
