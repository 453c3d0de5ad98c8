#ifndef STUB_INTRIN_H
#define STUB_INTRIN_H
#include <stddef.h>
#include <stdint.h>
#define _umul128 stub_umul128
#define __umulh stub_umulh
#define _addcarry_u64 stub_addcarry_u64
#define _addcarry_u32 stub_addcarry_u32
#define __emulu stub_emulu
#define _rotr64 stub_rotr64
#define _rotr stub_rotr
#define __cpuid stub_cpuid
#define __cpuidex stub_cpuidex
#define _xgetbv stub_xgetbv
uint64_t stub_umul128(uint64_t, uint64_t, uint64_t *);
uint64_t stub_umulh(uint64_t, uint64_t);
unsigned char stub_addcarry_u64(unsigned char, uint64_t, uint64_t, uint64_t *);
unsigned char stub_addcarry_u32(unsigned char, uint32_t, uint32_t, uint32_t *);
uint64_t stub_emulu(uint32_t, uint32_t);
uint64_t stub_rotr64(uint64_t, int);
uint32_t stub_rotr(uint32_t, int);
uint64_t stub_xgetbv(unsigned);
void stub_cpuid(int *, int);
void stub_cpuidex(int *, int, int);
#if defined(_M_X64) || defined(_M_IX86)
#pragma push_macro("_rotr")
#define __clang__ 1
#pragma push_macro("_MSC_VER")
#undef _MSC_VER
#include <wmmintrin.h>
#include <immintrin.h>
#pragma pop_macro("_MSC_VER")
#undef __clang__
#endif
#undef _xgetbv
#define _xgetbv stub_xgetbv
#define _arm_umull stub_arm_umull
uint64_t stub_arm_umull(uint32_t, uint32_t);
#if defined(_M_ARM64) || defined(_M_ARM)
static __inline void __prefetch(const void *p) { (void)p; }
#endif
#endif
