// memory the library takes from the system is counted: pbt_main compares what is in use before and after every case
// (no header is included here, so that the library is compiled as always; the macros also rename the declarations)
#if !defined(__cplusplus) && !defined(aligned_alloc)
#define aligned_alloc(a, n) pbt_live_alloc(a, n)
#define free(p) pbt_live_free(p)
#define getaddrinfo(h, s, i, r) pbt_live_getaddrinfo(h, s, i, r)
#define freeaddrinfo(r) pbt_live_freeaddrinfo(r)
#endif
