// Interface between harnesses and the symbolic executor.  The same harness is
// compiled natively to replay a counterexample (see native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t symx_u64(const char* name);
uint32_t symx_u32(const char* name);
uint16_t symx_u16(const char* name);
uint8_t symx_u8(const char* name);
uint64_t symx_range(const char* name, uint64_t lo, uint64_t hi);
uint64_t symx_choice(const char* name, uint64_t n);
uint64_t symx_concretize(uint64_t v);
void symx_assume(bool c);
void symx_assert(bool c, const char* msg);
void symx_cover(const char* name);
void symx_observe(uint64_t v);
uint64_t symx_param(const char* name, uint64_t dflt);
uint64_t symx_native();
void symx_fail(const char* msg);
void symx_endpath();
void symx_print(const char* msg, uint64_t v);
void* symx_alloc(uint64_t n);
void symx_free(void* p);
uint64_t symx_thread_create(void (*f)(void*), void* arg);
void symx_thread_join(uint64_t id);
void symx_yield();
uint64_t symx_heapcount();
}
