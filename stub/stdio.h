#ifndef STUB_STDIO_H
#define STUB_STDIO_H
#include <stddef.h>
typedef struct FILE_ FILE; extern FILE *stderr; int printf(const char *, ...); int fprintf(FILE *, const char *, ...);
#endif
