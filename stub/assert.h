#include <stdlib.h>
#undef assert
#define assert(c) ((c) ? (void)0 : abort())
