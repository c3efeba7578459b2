#ifndef STUB_STDLIB_H
#define STUB_STDLIB_H
#include <stddef.h>
void *malloc(size_t); void *calloc(size_t, size_t); void free(void *); void abort(void) __attribute__((noreturn)); void exit(int) __attribute__((noreturn));
#endif
