/* Contracts over C functions, every argument value.  With CBMC the arguments are symbolic; compiled, they are the replayed ones. */
#ifdef __CPROVER
#define CHECK(c, msg) __CPROVER_assert(c, msg)
#define ASSUME(c) __CPROVER_assume(c)
#define IN(T, x) T x; __CPROVER_input("kc", x)
#else
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const char *kc_args[16]; static int kc_n = 0, kc_bad = 0;
static void kc_in(void *p, unsigned n) { const char *s = kc_args[kc_n++]; unsigned char *b = p; unsigned k = (unsigned)strlen(s) / 8; for (unsigned i = 0; i < n; i++) { unsigned v = 0; for (int j = 0; j < 8; j++) v = v * 2 + (unsigned)(s[(k - 1 - i) * 8 + j] - '0'); b[i] = (unsigned char)v; } }
#define CHECK(c, msg) do { if (!(c)) { printf("FAILS %s\n", msg); kc_bad = 1; } } while (0)
#define ASSUME(c) do { if (!(c)) exit(3); } while (0)
#define IN(T, x) T x; kc_in(&x, sizeof(x))
#endif
