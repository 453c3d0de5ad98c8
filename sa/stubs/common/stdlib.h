#ifndef STUB_STDLIB_H
#define STUB_STDLIB_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void abort(void) __attribute__((noreturn));
void *malloc(size_t);
void free(void *);
#ifdef __cplusplus
}
#endif
#endif
