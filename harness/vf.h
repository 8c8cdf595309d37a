// Interface between analysis harnesses and the abstract interpreter (engine/).
// None of these functions has a body: the engine gives them their meaning.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
bool vf_nd_bool() noexcept;
unsigned char vf_nd_u8() noexcept;
unsigned int vf_nd_u32() noexcept;
unsigned long vf_nd_u64() noexcept;
signed char vf_nd_i8() noexcept;
int vf_nd_i32() noexcept;
long vf_nd_i64() noexcept;
double vf_nd_f64() noexcept;
// an arbitrary number; when the engine re-analyses an entry in bounded mode: each of 0..bound-1 in turn
unsigned long vf_pick(unsigned long bound) noexcept;
unsigned int vf_pick32(unsigned long bound) noexcept;
void vf_assume(bool) noexcept;
void vf_check(bool, const char* tag) noexcept;
[[noreturn]] void vf_fail(const char* tag) noexcept;
void vf_reach(const char* tag) noexcept;
void* vf_alloc(unsigned long) noexcept;
void* vf_alloc_cstr(unsigned long) noexcept;
void vf_track(const void* p, unsigned long size) noexcept;
void vf_autotrack(unsigned long off) noexcept;
void vf_autotrack_add(unsigned long off) noexcept;
void vf_exclude(const void* p, unsigned char c) noexcept;
void vf_ghost_on(unsigned long stride) noexcept;
int vf_gget(const void* p) noexcept;
void vf_gset(const void* p, int v) noexcept;
[[noreturn]] void vf_throw();
void vf_havoc(void* p, unsigned long n) noexcept;
void vf_dump(const char* tag, ...) noexcept;
int vf_live_heap() noexcept;
void vf_tag(const void* p, int tag) noexcept;
void vf_havoc_type(const void* p, const char* type) noexcept;
}
