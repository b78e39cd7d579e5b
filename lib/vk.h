/*
 * vk.h - glue between a contract and the tools that decide it.
 *
 * A harness includes the real /repo source text, then states
 *      PRE        predicate assumed on entry
 *      POSTS(X)   list of named predicates that must hold on exit
 * The same text is read in three ways:
 *   VK_DFCC    CBMC code contracts (goto-instrument --dfcc --enforce-contract)
 *   (default)  the same contract checked as assume(PRE); call; assert(POST)
 *              by CBMC (used where no frame / callee contract is needed)
 *   VK_NATIVE  compiled with gcc: replays the verifier's counterexample on the
 *              real code.
 * All nondeterminism is the initial value of objects of static lifetime
 * (goto-instrument --nondet-static), so a trace is a set of initial values.
 */
#ifndef VK_H
#define VK_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

#ifdef VK_NATIVE
#include <stdio.h>
void vk_load(void);
static void vk_done_(int code) { fflush(stdout); fflush(stderr); _Exit(code); }
#define VK_LOAD()        vk_load()
#define VK_ASSUME(c)     do { if (!(c)) { printf("REPLAY-INCONSISTENT %s\n", #c); vk_done_(43); } } while (0)
#define VK_ASSERT(c, n)  do { if (!(c)) { printf("REPLAY-VIOLATED %s\n", n); vk_done_(42); } } while (0)
#define VK_COVER(c, n)   ((void)0)
#define VK_REACHED(n)    ((void)0)
/* an element of a large array: named so that its value appears in the trace */
#define VK_PIN(lv, in)   ((lv) = (in))
#define __CPROVER_assert(c, n) VK_ASSERT(c, n)
#define __CPROVER_assume(c)    VK_ASSUME(c)
#else
#define VK_LOAD()        ((void)0)
#define VK_ASSUME(c)     __CPROVER_assume(c)
#define VK_ASSERT(c, n)  __CPROVER_assert(c, "VK:" n)
#define VK_PIN(lv, in)   __CPROVER_assume((lv) == (in))
#define VK_COVER(c, n)   __CPROVER_assert(!(c), "VKREACH:" n)
#define VK_REACHED(n)    __CPROVER_assert(0, "VKREACH:" n)
#endif

#define VK_CHK(p)        VK_ASSERT(p, #p);
#ifdef VK_DFCC
#define VK_ENS(p)        __CPROVER_ensures(p)
#define RET              __CPROVER_return_value
/* enforce: contract clauses are on the declaration, the call is checked there */
#define VK_RUN(call)         do { call; } while (0)
#define VK_RUNV(type, call)  do { (void)(call); } while (0)
#define VK_CONTRACT(decl, ...) decl __CPROVER_requires(PRE) POSTS(VK_ENS) __CPROVER_assigns(__VA_ARGS__);
#else
#define RET              vk_ret
#define VK_RUN(call)         do { VK_ASSUME(PRE); call; POSTS(VK_CHK) } while (0)
#define VK_RUNV(type, call)  do { VK_ASSUME(PRE); type vk_ret = (call); POSTS(VK_CHK) } while (0)
#define VK_CONTRACT(decl, ...)
#endif

/* implication */
#define IMP(a, b)  (!(a) || (b))
#define IFF(a, b)  (!(a) == !(b))
#endif
