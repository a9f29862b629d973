// Harness API. The same harness is compiled twice: instrumented (symbolic run) and natively (replay of a counterexample).
#pragma once
#include <cstdint>
extern "C" {
double sy_real(const char* name);                                          // arbitrary real number
long long sy_int(const char* name, long long lo, long long hi);            // arbitrary 64-bit integer in [lo,hi]
int sy_i32(const char* name, int lo, int hi);                              // arbitrary 32-bit
short sy_i16(const char* name, short lo, short hi);                        // arbitrary 16-bit
unsigned char sy_u8(const char* name, unsigned char lo, unsigned char hi); // arbitrary byte
bool sy_bool(const char* name);                                            // arbitrary boolean
void sy_assume(bool c);
void sy_assert(bool c, const char* what);
void sy_eq(double a, double b, const char* what); // a == b (exact over the reals; tolerance in the native replay)
void sy_axiom(bool c);                            // assumption used only when deciding assertions (contracts of external kernels)
long long sy_fork(long long v);                   // split into one path per feasible value
void sy_reach(const char* tag);                   // vacuity witness
void sy_fail(const char* what);                   // unconditional failure on this path
void sy_skip();                                   // end this path quietly
void sy_label(const char* text);                  // describe the current case (evidence samples)
int sy_tier();                                    // 0 quick, 1 thorough
int sy_replaying();                               // 1 in the native replay
void sy_splitselects(int on);                     // selects between reals (maxima, absolute values): one path per side instead of an if-then-else term
void sy_factor(int on);                           // factorisation stand-ins: exact factorisations of a symbolic (1) or fixed (2) family (see kernels.cpp)
void sy_scale(double s);                          // replay tolerance multiplier
}
void harness();
