#ifndef STUB_FCNTL_H
#define STUB_FCNTL_H
int open(const char *, int, ...);
#define O_RDONLY 0
#endif
