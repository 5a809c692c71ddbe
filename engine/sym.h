// Harness interface.  In the bitcode build these functions are interpreted by symir (inputs are SMT
// variables); in the native build (symnative.cpp) inputs come from a witness file.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_bits(const char* name, unsigned bits);
uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi); // inclusive
void sym_assume(bool);
void sym_check(bool, const char* label);
void sym_cover(const char* label);
uint64_t sym_pick(uint64_t v);    // fork over all feasible values
bool sym_branch(bool c);          // fork on c
uint64_t sym_summary(uint64_t v); // same value, represented as a decision tree over its feasible values
int sym_param(int i);
void sym_observe(uint64_t v);
void sym_dump(const char* name, uint64_t v);
}
#define ENTRY extern "C" __attribute__((used, noinline)) void
static inline uint64_t sym_pick_range(const char* n, uint64_t lo, uint64_t hi) { return sym_pick(sym_range(n, lo, hi)); }
static inline void sym_observe_f(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); if (d == 0) u = 0; sym_observe(u); }
