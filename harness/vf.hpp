// Interface between the contract harnesses and the verifier (engine/exec.cpp);
// the same names are implemented by native/vf_native.cpp for replays.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
bool vf_engine();                                   // true inside the verifier
uint64_t vf_sym(const char* name, unsigned bits);   // universally quantified input
uint64_t vf_fresh(unsigned bits);                   // universally quantified, not replayed
uint64_t vf_dom(const char* name, uint64_t n);      // universally quantified over 0..n-1
uint64_t vf_concretize(uint64_t x);                 // case split
bool vf_is_concrete(uint64_t x);
void vf_assume(bool);                               // requires
void vf_assert(bool, const char* name);             // ensures
bool vf_known(bool);                                // entailed on this path?
void vf_cover(const char* name);                    // vacuity witness
[[noreturn]] void vf_stop();
void vf_lazy(void* p, uint64_t size, void (*handler)(void*, uint64_t), uint64_t arg);
void vf_disable_contract(const char* mangled);
void vf_enable_contract(const char* mangled);
void vf_print(const char* name, uint64_t);
uint64_t vf_ite(bool c, uint64_t a, uint64_t b);
uint64_t vf_opaque(uint64_t);
void* vf_lazy_alloc(uint64_t size);                 // memory for an object given to vf_lazy
void vf_restrict(const void* lo, const void* hi);   // follow only symbolic accesses inside [lo, hi); null: all
}
#define VF_ENTRY extern "C" __attribute__((used, noinline))
