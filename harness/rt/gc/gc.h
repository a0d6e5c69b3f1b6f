/* allocations of the runtime library become ordinary ones, so that the address sanitizer sees their bounds */
#include <stdlib.h>
#include <string.h>
static inline void *GC_malloc(size_t n) { void *p = malloc(n); if (p) memset(p, 0, n); return p; }
#define GC_malloc_atomic GC_malloc
#define GC_MALLOC GC_malloc
