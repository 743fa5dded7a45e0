// The interface between harnesses and the symbolic executor. The same
// functions are implemented by ys_native.cpp to run a harness natively on the
// concrete values of a counterexample or a sampled path.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
void ys_sym(void* p, uint64_t n, const char* name);  // n arbitrary bytes
uint64_t ys_u64(const char* name);                   // an arbitrary integer
uint32_t ys_u32(const char* name);
uint8_t ys_u8(const char* name);
bool ys_u1(const char* name);
void ys_assume(bool c);                              // restrict the inputs
void ys_check(bool c, const char* msg);              // the property
void ys_observe(uint64_t v);                         // compared natively
void ys_reach(const char* label);                    // vacuity guard
uint64_t ys_param(const char* name, uint64_t dflt);  // a bound
void ys_part(uint64_t v);                            // divides the work
uint64_t ys_concrete(uint64_t v);                    // fork on the value
void ys_main();
}
