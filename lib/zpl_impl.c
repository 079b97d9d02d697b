#define ZPL_IMPL
#include "zpl.h"
// the macros that pick a function by the type of their argument exist for C only
#if defined(zpl_adt_append) && defined(zpl_adt_set)
#define PICK(NAME, T) zpl_adt_node *v_append_##NAME(zpl_adt_node *p, const char *n, T v) { return zpl_adt_append(p, n, v); } zpl_u8 v_set_##NAME(zpl_adt_node *p, const char *n, T v) { return (zpl_u8)!!zpl_adt_set(p, n, v); }
PICK(str, char *) PICK(cstr, char const *) PICK(f32, zpl_f32) PICK(f64, zpl_f64) PICK(i8, zpl_i8) PICK(u8, zpl_u8) PICK(i16, zpl_i16) PICK(u16, zpl_u16) PICK(i32, zpl_i32) PICK(u32, zpl_u32) PICK(i64, zpl_i64) PICK(char, char) PICK(long, long)
#endif
