#ifndef STUB_UNISTD_H
#define STUB_UNISTD_H
#include <stddef.h>
long read(int, void *, size_t); int close(int);
#endif
