// Shared harness layer. Every harness compiles in two modes from the same text:
//   VF_CBMC   - verification: inputs are nondeterministic, contracts are attached to the real functions
//   otherwise - replay/search: inputs come from a verifier counterexample or from a generator, and the same
//               predicates are evaluated on the real, natively compiled code.
#ifndef VF_H
#define VF_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VF_CBMC
#define VF_LOG_MAX 512
int g_must_accept;
long nondet_vf_long(void);
long vf_log[VF_LOG_MAX];
int vf_n;
static long vf_long(void) { long v = nondet_vf_long(); vf_log[vf_n] = v; vf_n++; return v; }
static long vf_range(long lo, long hi) { long v = nondet_vf_long(); __CPROVER_assume(v >= lo && v <= hi); vf_log[vf_n] = v; vf_n++; return v; }
// First statement of every harness (the contract instrumentation havocs all static state)
void vf_keep(void);
#define VF_BEGIN() (vf_n = 0, g_must_accept = 0, vf_keep())
#define VF_ASSUME(c) __CPROVER_assume(c)
#define VF_CHECK(name, c) __CPROVER_assert(c, "vf: " name)
// Natively evaluated copy of a contract clause; in verification the contract itself decides
#ifdef VF_PLAIN
#define VF_POST(name, c) __CPROVER_assert(c, "vf: " name)
#define VF_PRE(c) __CPROVER_assume(c)
#define VF_CONTRACT(...)
#else
#define VF_POST(name, c) ((void) 0)
#define VF_PRE(c) ((void) 0)
#define VF_CONTRACT(...) __VA_ARGS__
#endif
// Must be reachable: expected to fail, guards against vacuous harnesses and contradictory preconditions
#define VF_REACH() __CPROVER_assert(0, "vf_reach")
#define VF_LOOP_BOUND(x) (x)
// From here on the compiler must accept the input: reaching an error exit is a violation
#define VF_MUST_ACCEPT() (g_must_accept = 1)
#define VF_MAY_REFUSE() (g_must_accept = 0)
#else
long vf_long(void);
long vf_range(long lo, long hi);
void vf_assume(int c);
void vf_check(const char *name, int c);
void vf_expect_no_exit(int on);
#define VF_BEGIN() ((void) 0)
#define VF_MUST_ACCEPT() vf_expect_no_exit(1)
#define VF_MAY_REFUSE() vf_expect_no_exit(0)
#define VF_ASSUME(c) vf_assume(!!(c))
#define VF_CHECK(name, c) vf_check(name, !!(c))
#define VF_POST(name, c) vf_check(name, !!(c))
#define VF_PRE(c) vf_assume(!!(c))
#define VF_REACH() ((void) 0)
#define VF_CONTRACT(...)
#define VF_LOOP_BOUND(x) (x)
#define __CPROVER_assume(c) vf_assume(!!(c))
#endif

// Case split over a finite range of an input v drawn before (draw all inputs before splitting): the body is executed once per value, with the value concrete (complete, and cheap to prove)
#define VF_CASES(var, v, lo, hi, ...) do { for (int var = (lo); var <= (hi); var++) if (var == (v)) { __VA_ARGS__; } } while (0)
#ifdef VF_CBMC
size_t malloc_usable_size(void *p) { return 0; } // only feeds the allocation statistics of memory.c
#endif
static double vf_double(void) { union { long l; double d; } u; u.l = vf_long(); return u.d; }

#endif
