// Raw-memory functions called on typed objects, compiled together with the library into one optimised file: stores and loads of the
// objects' own type surround the call, so a library access that the compiler may reorder with them shows.
#pragma once
#include <cstdint>
#include <cstddef>
enum { TK_SET, TK_MOVE, TK_COPY, TK_SWAP, TK_ZERO, TK_COMPARE, TK_CHR, TK_RCHR, TK_MEM_OPS, TK_ADLER = TK_MEM_OPS, TK_CRC32, TK_CRC64, TK_FNV32, TK_FNV32A, TK_FNV64, TK_FNV64A, TK_M32, TK_M64, TK_OPS };
// a and b: 2 arrays of n elements of the given size; par[0]: byte value / seed, par[1]: destination, par[2]: source index of a move; par[3]: elements moved, par[4]: bytes
struct TKernel { const char *type; size_t size, n; uint64_t (*run)(int op, const void *a, const void *b, void *outa, void *outb, const unsigned *par); };
struct TApi { int count; const TKernel *k; };
