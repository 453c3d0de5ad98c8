#ifndef STUB_STDLIB_H
#define STUB_STDLIB_H
#include <stddef.h>
#include <stdint.h>
#define _byteswap_uint64 stub_bswap64
#define _byteswap_ulong stub_bswap32
#define _byteswap_ushort stub_bswap16
uint64_t stub_bswap64(uint64_t);
uint32_t stub_bswap32(uint32_t);
uint16_t stub_bswap16(uint16_t);
void abort(void);
#endif
