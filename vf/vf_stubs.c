// Verification bodies of the allocation wrappers and the diagnostics (memory.c, error.c), linked in place of those files:
// allocation does not fail, an error exit ends the execution (and is itself an obligation once the harness said VF_MUST_ACCEPT()).
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
extern int g_must_accept;
static void vf_stop(void) { __CPROVER_assert(!g_must_accept, "vf: the compiler must accept this input (no error exit)"); __CPROVER_assume(0); }
void *wmalloc(size_t n) { return n ? malloc(n) : 0; }
void *wcalloc(size_t n, size_t m) { return n * m ? calloc(n, m) : 0; }
void *wrealloc(void *p, size_t n) { return realloc(p, n); }
char *wstrdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
void wfree(void *p) { }
void exit(int c) { vf_stop(); }
void panic_with_line_number(char *f, ...) { vf_stop(); }
void simple_error(char *f, ...) { vf_stop(); }
void _error(char *f, va_list ap) { vf_stop(); }
void error(char *f, ...) { vf_stop(); }
void warning(char *f, ...) { }
