// Harness interface. Under the symbolic executor these are primitives; natively rt/replay.cpp implements them.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint64_t sx_sym(const char* name, unsigned bits);                        // any value of that many bits
std::uint64_t sx_range(const char* name, std::uint64_t lo, std::uint64_t hi); // any value in [lo, hi]
void* sx_buf(const char* name, std::uint64_t n, std::uint64_t max, std::uint64_t elemsize); // n (symbolic, <= max) arbitrary elements, read-only
void sx_assume(bool);
void sx_assert(bool, const char* msg);
void sx_cover(const char* label);   // must be reached on some path of the harness
void sx_observe(std::uint64_t);     // compared between the encoding and the real code on witness paths
std::uint64_t sx_fork(std::uint64_t); // make concrete, exploring every value
std::uint64_t sx_heap_live();       // live heap allocations
std::uint64_t sx_allocs();          // heap allocations so far
std::uint64_t sx_alloc_fail(std::uint64_t k); // the k-th operator new from here throws std::bad_alloc (0: none); the number still outstanding from before, 0 if it threw
void sx_readonly(const void*);
void sx_writable(const void*);
}
#ifndef TIER
#define TIER 0
#endif
#define ENTRY(name) extern "C" void t_##name()
