// Harness interface.  Under the symbolic executor these are engine intrinsics;
// in a replay they read the recorded assignment (harness/replay.cpp).
#pragma once
#include <stdint.h>
extern "C" {
  int64_t vs_int(const char* name, int64_t lo, int64_t hi);      // any value in [lo,hi]
  int     vs_bool(const char* name);                             // any truth value
  int     vs_pick(const char* name, int n);                      // 0..n-1, one path per value
  void    vs_assume(int c);
  void    vs_check(int c, const char* msg);                      // the assertion
  void    vs_reach(const char* msg);                             // must be reached on some path
  const char* vs_bigint(const char* name, int64_t lo, int64_t hi, int nonzero); // decimal string of an integer
  const char* vs_zlimbs(const char* name, int limbs, int sign);  // exactly `limbs` 64-bit limbs
  const char* vs_zstr(int64_t v);                                // decimal string of v
  int64_t vs_zval(const char* decimal);
  int     vs_zeq(const char* a, const char* b);
  int     vs_zcmp(const char* a, const char* b);
  const char* vs_zop(int op, const char* a, const char* b);      // reference + - * / % g(cd)
  void    vs_coprime(const char* a, const char* b);              // assume gcd 1
  int64_t vs_qtimes(const char* q, int64_t d);                   // q*d, or INT64_MAX when not an integer
  int     vs_qlowest(const char* q);                             // reported in lowest terms
  int64_t vs_concrete(int64_t v);
  int64_t vs_heap();                                             // bytes currently obtained from malloc
  int     vs_inside(const void* p, uint64_t n);                  // inside one live malloc block (replay: 1)
  void    vs_hooks(int on);                                      // engine-side tracking of pool blocks
  int     vs_symbolic();                                         // 1 under the symbolic executor
}
