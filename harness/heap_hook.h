// the general-purpose heap of zpl takes its memory from the harness
#include <stdlib.h>
#ifdef __cplusplus
#include <cstdlib>
extern "C"
#endif
void *pbt_aligned_alloc(size_t alignment, size_t size);
#define aligned_alloc(a, n) pbt_aligned_alloc(a, n)
