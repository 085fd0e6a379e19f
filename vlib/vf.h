/* Shared vocabulary of every unit.
 *
 * One text, two readings.  Under CBMC (the verifier) inputs are arbitrary, V_ASSUME is the contract's
 * precondition and V_CHECK an obligation.  With -DV_NATIVE the same text is an ordinary program that
 * takes its inputs from the verifier's counterexample (file named by VF_REPLAY) and runs the real,
 * natively compiled code: that is how a failed obligation is replayed. */
#ifndef VF_H
#define VF_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <assert.h>

#ifdef V_NATIVE
#include <inttypes.h>
#include <unistd.h>
static FILE* vf_file_;
static uint64_t vf_u64(void)
{
  unsigned long long v = 0;
  if(!vf_file_) { const char* n = getenv("VF_REPLAY"); if(n) vf_file_ = fopen(n, "r"); }
  if(!vf_file_ || fscanf(vf_file_, "%llx", &v) != 1) v = 0;
  return v;
}
static void vf_fail_(const char* m) { fprintf(stderr, "OBLIGATION FAILED: %s\n", m); fflush(NULL); _exit(1); }
static void vf_skip_(const char* m) { fprintf(stderr, "PRECONDITION NOT MET: %s\n", m); fflush(NULL); _exit(77); }
#define V_ASSUME(c)     do { if(!(c)) vf_skip_(#c); } while(0)
#define V_CHECK(c, msg) do { if(!(c)) vf_fail_(msg); } while(0)
#define V_REACH(msg)    do { } while(0)
#define V_REQUIRES(c)
#define V_ENSURES(c)
#define V_ASSIGNS(...)
#define V_FREES(...)
#define V_HARNESS       int main(void)
#define V_END           return 0
#define V_UNUSED __attribute__((unused))
#else
uint64_t nondet_vf_u64(void);
static uint64_t vf_u64(void)
{ uint64_t vf_input;
  vf_input = nondet_vf_u64(); /* the trace step of this line is a recorded input */
  return vf_input; }
#define V_ASSUME(c)     __CPROVER_assume(c)
#define V_CHECK(c, msg) __CPROVER_assert((c), msg)
#define V_REACH(msg)    __CPROVER_assert(0, "REACH " msg)   /* must FAIL: proves this point is reachable */
#define V_REQUIRES(c)   __CPROVER_requires(c)
#define V_ENSURES(c)    __CPROVER_ensures(c)
#define V_ASSIGNS(...)  __CPROVER_assigns(__VA_ARGS__)
#define V_FREES(...)    __CPROVER_frees(__VA_ARGS__)
#define V_HARNESS       void vf_harness(void)
#define V_END           return
#define V_UNUSED
#endif
#define vf_u8()   ((uint8_t)vf_u64())
#define vf_u16()  ((uint16_t)vf_u64())
#define vf_u32()  ((uint32_t)vf_u64())
#define vf_i32()  ((int32_t)vf_u64())
#define vf_i64()  ((int64_t)vf_u64())
#define vf_bool() ((bool)(vf_u64() & 1))
V_UNUSED static uint32_t vf_range(uint32_t lo, uint32_t hi) /* inclusive */
{ uint32_t v = vf_u32(); V_ASSUME(v >= lo && v <= hi); return v; }
/* n known small bytes, all recorded for replay */
V_UNUSED static void vf_fill(void* p, size_t n)
{ for(size_t vf_i = 0; vf_i < n; ++vf_i) ((uint8_t*)p)[vf_i] = vf_u8(); }
/* arbitrary NUL-terminated string of length <= cap-1 in p[cap] */
V_UNUSED static size_t vf_string(char* p, size_t cap)
{
  size_t n = vf_u8(); V_ASSUME(n < cap);
  for(size_t vf_i = 0; vf_i + 1 < cap; ++vf_i) { uint8_t c = vf_u8(); if(vf_i < n) { V_ASSUME(c != 0); p[vf_i] = (char)c; } else p[vf_i] = 0; }
  p[cap-1] = 0;
  return n;
}
#endif
