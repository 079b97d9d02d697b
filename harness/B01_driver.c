/* B01: one program, compiled under many configurations of zpl.  W_<MODULE> asks for a section, A_<MODULE> says the module was left out,
   so its names belong to the program.  The sections print what the calls did; the text depends on the seed only. */
#ifdef B01_IMPL
#define ZPL_IMPLEMENTATION
#endif
#include "zpl.h"
#ifdef B01_MAIN
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
#define LINKAGE extern "C"
#else
#define LINKAGE extern
#endif
#ifdef A_HASHING
enum { zpl_crc32 = 1, zpl_base64_encode };
#endif
#ifdef A_REGEX
enum { zpl_re_compile = 1, zpl_re_match };
#endif
#ifdef A_OPTS
enum { zpl_opts_init = 1, zpl_opts_compile };
#endif
#ifdef A_DLL
enum { zpl_dll_load = 1 };
#endif
#ifdef A_PROCESS
enum { zpl_pr_create = 1 };
#endif
#ifdef A_MATH
enum { zpl_vec2f = 1, zpl_sin };
#endif
#ifdef A_THREADING
enum { zpl_mutex_init = 1, zpl_thread_start };
#endif
#ifdef A_JOBS
enum { zpl_jobs_init = 1 };
#endif
#ifdef A_PARSER
enum { zpl_json_parse = 1, zpl_csv_free, zpl_adt_query };
#endif
#ifdef A_SOCKET
enum { zpl_socket_create = 1 };
#endif
#ifdef A_CORE
enum { zpl_string_make_x = 1, zpl_file_open = 2, zpl_sort = 3 };
#endif
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)((rs >> 33) % n); }
static unsigned long long rnd64(void) { unsigned long long a = rnd(1u << 31), b = rnd(1u << 31); return a << 33 ^ b << 11 ^ rnd(2048); }
static unsigned long long fnv(const void *p, size_t n) { const unsigned char *s = (const unsigned char *)p; unsigned long long h = 1469598103934665603ULL; while (n--) h = (h ^ *s++) * 1099511628211ULL; return h; }
static void bin(const char *what, const void *p, size_t n) { printf("%s %016llx\n", what, fnv(p, n)); }
static zpl_u64 plain_hash(int k) { return (zpl_u64)k * 2654435761u; }

ZPL_TABLE(static, table, table_, int)
ZPL_RING_DECLARE(static, ring_, int)
ZPL_RING_DEFINE(ring_, int)
static void essentials(void) {
    unsigned i, n = 20 + rnd(200); int *arr; zpl_isize k; char text[300];
    printf("sizes %d %d %d %d %d %d\n", (int)sizeof(zpl_usize), (int)sizeof(zpl_rune), (int)sizeof(zpl_b32), (int)sizeof(zpl_allocator), (int)sizeof(zpl_intptr), (int)sizeof(zpl_f64));
#ifdef ZPL_EXPOSE_TYPES
    { u8 a = (u8)-1; i16 b = -3; u32 c = (u32)-1; i64 d = -5; usize e = 7; f64 f = 0.5; b32 g = 1; if (a != 255 || b != -3 || c + 1 != 0 || d != -5 || e != 7 || f != 0.5 || g != 1) printf("exposed types are wrong\n"); }
#endif
    zpl_array_init(arr, zpl_heap_allocator());
    for (i = 0; i < n; i++) switch (rnd(6)) {
        case 0: if (zpl_array_count(arr)) zpl_array_pop(arr); break;
        case 1: if (zpl_array_count(arr)) { k = (zpl_isize)rnd((unsigned)zpl_array_count(arr)); zpl_array_remove_at(arr, k); } break;
        case 2: { int v[7]; unsigned j, m = 1 + rnd(7); for (j = 0; j < m; j++) v[j] = (int)rnd(1000); zpl_array_appendv(arr, v, (zpl_isize)m); } break;
        case 3: { int x = (int)rnd(99); zpl_array_append_at(arr, x, (zpl_isize)rnd((unsigned)zpl_array_count(arr) + 1)); } break;
        default: { int x = (int)rnd(99999); zpl_array_append(arr, x); }
    }
    printf("array %d ", (int)zpl_array_count(arr)); bin("", arr, sizeof(int) * (size_t)zpl_array_count(arr)); zpl_array_free(arr);
    { table t; table_init(&t, zpl_heap_allocator()); for (i = 0; i < n; i++) { int key = (int)rnd(64); if (rnd(4)) table_set(&t, plain_hash(key), (int)i); else table_remove(&t, plain_hash(key)); }
      printf("table"); for (i = 0; i < 64; i++) { int *v = table_get(&t, plain_hash((int)i)); if (v) printf(" %u=%d", i, *v); } printf("\n"); table_destroy(&t); }
    { ring_int r; ring_init(&r, zpl_heap_allocator(), 1 + rnd(9)); for (i = 0; i < n; i++) { if (rnd(3)) ring_append(&r, (int)rnd(777)); else { int *v = ring_get(&r); printf("%d,", v ? *v : -1); } } printf(" ring\n"); ring_free(&r); }
    { zpl_list e[9]; zpl_list *h = &e[0], *c = h; zpl_list_init(h, text); for (i = 1; i < 9; i++) { zpl_list_init(&e[i], text + i); c = zpl_list_add(rnd(2) ? h : c, &e[i]); } zpl_list_remove(&e[1 + rnd(8)]); for (c = h; c; c = c->next) printf("%d ", (int)((const char *)c->ptr - text)); printf("list\n"); }
    { zpl_buffer(int) b; zpl_buffer_init(b, zpl_heap_allocator(), 64); for (i = 0; i < 40; i++) zpl_buffer_append(b, (int)rnd(5)); printf("buffer %d ", (int)zpl_buffer_count(b)); bin("", b, 160); zpl_buffer_free(b); }
    { zpl_arena a; void *raw = malloc(4096 + 64), *mem = (char *)raw + (64 - (size_t)raw % 64); char *last = 0; zpl_arena_init_from_memory(&a, mem, 4096); for (i = 0; i < 40; i++) { zpl_isize s = (zpl_isize)rnd(200), al = (zpl_isize)1 << rnd(6); char *p = (char *)zpl_alloc_align(zpl_arena_allocator(&a), s, al); if (!p) { printf("full at %u;", i); continue; } if ((size_t)p % (size_t)al || p < (char *)mem || p + s > (char *)mem + 4096 || (last && p < last)) printf("bad arena block;"); last = p + s; memset(p, 7, (size_t)s); } zpl_arena_free(&a); free(raw); printf(" arena\n"); }
    { zpl_pool p; void *v[16]; zpl_pool_init(&p, zpl_heap_allocator(), 16, 24); for (i = 0; i < 16; i++) { v[i] = zpl_alloc(zpl_pool_allocator(&p), 24); memset(v[i], (int)i, 24); } for (i = 0; i < 16; i++) if (*(unsigned char *)v[i] != i) printf("pool blocks overlap;"); for (i = 0; i < 16; i++) zpl_free(zpl_pool_allocator(&p), v[(i * 7 + 3) % 16]); v[0] = zpl_alloc(zpl_pool_allocator(&p), 24); printf("pool %d\n", v[0] != 0); zpl_pool_free(&p); }
    { zpl_scratch_memory s; char mem[512]; zpl_scratch_memory_init(&s, mem, 512); for (i = 0; i < 30; i++) { zpl_isize sz = 1 + (zpl_isize)rnd(60); char *p = (char *)zpl_alloc(zpl_scratch_allocator(&s), sz); if (p && (p < mem || p + sz > mem + 512)) printf("scratch block outside;"); } printf("scratch\n"); }
    { zpl_stack_memory s; zpl_stack_memory_init(&s, zpl_heap_allocator(), 1024); char *p = (char *)zpl_alloc(zpl_stack_allocator(&s), 100), *q = (char *)zpl_alloc(zpl_stack_allocator(&s), 50); printf("stack %d", p && q && p != q); zpl_free(zpl_stack_allocator(&s), q); printf(" %d\n", zpl_alloc(zpl_stack_allocator(&s), 50) == (void *)q); zpl_stack_memory_free(&s); }
    { char *p = (char *)zpl_alloc(zpl_heap_allocator(), 10 + rnd(90)); char *q; memset(p, 0x5a, 10); q = (char *)zpl_resize(zpl_heap_allocator(), p, 10, 5000); printf("resize %d %d\n", q[0], q[9]); zpl_free(zpl_heap_allocator(), q);
      q = (char *)zpl_alloc_align(zpl_heap_allocator(), 1 + rnd(100), 64); printf("aligned %d\n", (int)((size_t)q % 64)); zpl_free(zpl_heap_allocator(), q); p = zpl_alloc_str(zpl_heap_allocator(), "copied text"); printf("%s\n", p); zpl_free(zpl_heap_allocator(), p); }
    for (i = 0; i < 300; i++) text[i] = (char)rnd(256);
    { char b[300]; unsigned o = rnd(50), l = rnd(200), q = rnd(50); zpl_memcopy(b, text, 300); bin("memcopy", b, 300); zpl_memmove(b + o, b + q, l); bin("memmove", b, 300); zpl_memset(b + o, (zpl_u8)rnd(256), l); bin("memset", b, 300); zpl_memswap(b, b + 150, (zpl_isize)rnd(150)); bin("memswap", b, 300);
      { int bt = (int)rnd(256); const char *f = (const char *)zpl_memchr(text, (zpl_u8)bt, 300), *r = (const char *)zpl_memrchr(text, (zpl_u8)bt, 300); printf("memchr %d %d\n", f ? (int)(f - text) : -1, r ? (int)(r - text) : -1); } printf("power %d ", (int)zpl_is_power_of_two((zpl_isize)rnd(70))); printf("%d\n", (int)zpl_align_forward_i64((zpl_i64)rnd(5000), 64)); }
}
#ifdef W_CORE
static void core(void) {
    unsigned i, n = 5 + rnd(60); char b[2000]; zpl_string s = zpl_string_make(zpl_heap_allocator(), "");
    for (i = 0; i < n; i++) switch (rnd(6)) { case 0: s = zpl_string_appendc(s, "plain "); break; case 1: { int x = (int)rnd(100000) - 50000; unsigned y = rnd(99999); s = zpl_string_append_fmt(s, "%d/%5u|%-6s|", x, y, "ab"); } break; case 2: s = zpl_string_append_length(s, "xyzzy", (zpl_isize)rnd(6)); break; case 3: zpl_string_trim(s, " x"); break; case 4: s = zpl_string_append_rune(s, (zpl_rune)(33 + rnd(9000))); break; default: zpl_str_to_upper(s); }
    printf("string %d ", (int)zpl_string_length(s)); bin("", s, (size_t)zpl_string_length(s)); { zpl_string d = zpl_string_duplicate(zpl_heap_allocator(), s); printf("equal %d\n", (int)zpl_string_are_equal(s, d)); zpl_string_free(d); } zpl_string_free(s);
    for (i = 0; i < 12; i++) { zpl_i64 v = (zpl_i64)rnd64(); int base = 2; v >>= rnd(60); base = 2 + (int)rnd(35); zpl_i64_to_str(v, b, base); printf("%s %lld;", b, (long long)zpl_str_to_i64(b, 0, base)); } printf("\n");
    for (i = 0; i < 6; i++) { { int x = (int)rnd(2000) - 1000; unsigned y = rnd(1000); snprintf(b, sizeof b, "%d.%03u", x, y); } printf("%.9g ", zpl_str_to_f64(b, 0)); } printf("\n");
    for (i = 0; i < 6; i++) { int w = 1 + (int)rnd(12), d = (int)rnd(100000), c = 'a' + (int)rnd(26); unsigned x = rnd(1u << 30), o = rnd(9999); double r = (int)rnd(1000) / 8.0; long long q = (long long)rnd64(); zpl_snprintf(b, sizeof b, "[%*d|%-10x|%s|%.3s|%c|%5.2f|%lld|%08o]", w, d, x, "text", "abcdef", c, r, q, o); printf("%s\n", b); }
    { int v[200]; zpl_u32 r[200], tmp[200]; unsigned m = rnd(200); for (i = 0; i < 200; i++) { v[i] = (int)rnd(1000) - 500; r[i] = rnd(1u << 31); } zpl_sort_array(v, m, zpl_i32_cmp(0)); bin("sort", v, sizeof v); zpl_radix_sort_u32(r, tmp, m); bin("radix", r, sizeof r); { int key = v[0]; printf("search %d\n", (int)(zpl_binary_search_array(v, m, &key, zpl_i32_cmp(0)) >= 0)); } zpl_reverse(v, m, 4); bin("reverse", v, sizeof v); }
    { zpl_random r; for (i = 0; i < 8; i++) r.offsets[i] = rnd(1u << 31); r.value = rnd(1u << 31); for (i = 0; i < 5; i++) { printf("%u ", zpl_random_gen_u32(&r)); printf("%lld ", (long long)zpl_random_range_i64(&r, -50, 50)); } printf("random\n"); }
    { zpl_file f; zpl_u8 *p; zpl_isize sz; zpl_file_stream_new(&f, zpl_heap_allocator()); for (i = 0; i < 20; i++) { if (rnd(4) == 0) zpl_file_seek(&f, (zpl_i64)rnd((unsigned)zpl_file_size(&f) + 1)); zpl_fprintf(&f, "%d,", (int)rnd(1000)); } p = zpl_file_stream_buf(&f, &sz); printf("stream %d ", (int)zpl_file_size(&f)); bin("", p, (size_t)zpl_file_size(&f)); zpl_file_close(&f); }
    { zpl_file f; char name[40]; snprintf(name, sizeof name, "f%u", rnd(1u << 30)); if (zpl_file_create(&f, name) == ZPL_FILE_ERROR_NONE) { char body[500]; zpl_file_contents c; for (i = 0; i < 500; i++) body[i] = (char)rnd(256); zpl_file_write(&f, body, 500); zpl_file_write_at(&f, "here", 4, (zpl_i64)rnd(496)); zpl_file_close(&f); c = zpl_file_read_contents(zpl_heap_allocator(), 1, name); printf("file %d ", (int)c.size); bin("", c.data, (size_t)c.size); zpl_file_free_contents(&c); zpl_fs_remove(name); printf("exists %d\n", (int)zpl_fs_exists(name)); } else printf("cannot create a file\n"); }
    { zpl_u16 u[100]; zpl_u8 o[300]; const char *t = "gr\xc3\xbc\xc3\x9f \xe2\x82\xac"; if (zpl_utf8_to_ucs2(u, 100, (zpl_u8 const *)t)) { bin("ucs2", u, 12); zpl_ucs2_to_utf8(o, 300, u); printf("utf8 %s\n", (char *)o); } }
    { unsigned long long x = rnd64(); printf("%d %d %d endian %04x %llx\n", zpl_char_is_alpha('x') != 0, zpl_char_is_hex_digit('G') != 0, (int)zpl_count_set_bits(x), zpl_endian_swap16((zpl_u16)x), (unsigned long long)zpl_endian_swap64(x)); printf("ext %s base %s\n", zpl_path_extension("a/b.tar.gz"), zpl_path_base_name("a/b/c.x")); }
    { zpl_virtual_memory vm = zpl_vm_alloc(0, 8192); memset(vm.data, 3, 8192); printf("vm %d %d\n", (int)vm.size, ((char *)vm.data)[8191]); zpl_vm_free(vm); }
    { zpl_f64 t = zpl_time_rel(); printf("clock %d\n", zpl_time_rel() >= t); }
}
#endif
#ifdef W_HASHING
static void hashing(void) {
    unsigned char d[400]; unsigned i, n = rnd(400), k; zpl_u8 *e, *f; for (i = 0; i < 400; i++) d[i] = (unsigned char)rnd(256);
    for (k = 0; k < 3; k++) { printf("%u %u %llu %u %llu %u %llu %u\n", zpl_adler32(d, n), zpl_crc32(d, n), (unsigned long long)zpl_crc64(d, n), zpl_fnv32(d, n), (unsigned long long)zpl_fnv64(d, n), zpl_fnv32a(d, n), (unsigned long long)zpl_fnv64a(d, n), zpl_murmur32_seed(d, n, 77)); printf("%llu\n", (unsigned long long)zpl_murmur64_seed(d, n & ~7u, 99)); n = rnd(400); }
    n = 1 + rnd(300); e = zpl_base64_encode(zpl_heap_allocator(), d, n); printf("%s\n", (char *)e); f = zpl_base64_decode(zpl_heap_allocator(), e, (zpl_isize)strlen((char *)e)); printf("same %d\n", !memcmp(f, d, n)); zpl_free(zpl_heap_allocator(), e); zpl_free(zpl_heap_allocator(), f);
}
#endif
#ifdef W_REGEX
static void regex(void) {
    static const char *pats[] = {"a+b*", "(ab|cd)x", "[0-9]+", "^[^,]*$", "c.?d", "\\d\\w+", "x?(a|b9)c*"}; unsigned i, j;
    for (i = 0; i < 7; i++) { zpl_re re; char t[24]; zpl_re_capture c[4]; zpl_isize off = -1; if (zpl_re_compile(&re, zpl_heap_allocator(), pats[i], (zpl_isize)strlen(pats[i])) != 0) { printf("no compile\n"); continue; }
        for (j = 0; j < 6; j++) { unsigned k, n = rnd(20); zpl_b32 m; for (k = 0; k < n; k++) t[k] = "abcdx019,"[rnd(9)]; t[n] = 0; memset(c, 0, sizeof c); m = zpl_re_match(&re, t, n, c, 4, &off); printf("%d", m != 0); if (m) { printf("@%d", (int)off); for (k = 0; k < (unsigned)zpl_re_capture_count(&re) && k < 4; k++) printf("(%.*s)", (int)c[k].len, c[k].str ? c[k].str : ""); } printf(" "); }
        printf("%d\n", (int)zpl_re_capture_count(&re)); zpl_re_destroy(&re); }
}
#endif
#ifdef W_OPTS
static void opts(void) {
    zpl_opts o; char n[20], r[20]; char *av[8]; int ac = 0; zpl_b32 ok; static char a0[] = "app", a1[] = "--name=value", a2[] = "-v", a3[] = "pos";
    snprintf(n, sizeof n, "--num=%d", (int)rnd(1000) - 500); snprintf(r, sizeof r, "-r=%u.5", rnd(100)); av[ac++] = a0; if (rnd(2)) av[ac++] = a1; if (rnd(2)) av[ac++] = a2; av[ac++] = n; if (rnd(2)) av[ac++] = r; if (rnd(2)) av[ac++] = a3; av[ac] = 0;
    zpl_opts_init(&o, zpl_heap_allocator(), "app"); zpl_opts_add(&o, "n", "name", "a name", ZPL_OPTS_STRING); zpl_opts_add(&o, "v", "verbose", "flag", ZPL_OPTS_FLAG); zpl_opts_add(&o, "i", "num", "number", ZPL_OPTS_INT); zpl_opts_add(&o, "r", "real", "real", ZPL_OPTS_FLOAT); zpl_opts_add(&o, "p", "pos", "positional", ZPL_OPTS_STRING); zpl_opts_positional_add(&o, "pos");
    ok = zpl_opts_compile(&o, ac, av); printf("%d %s %d %lld %.6g %s\n", ok, zpl_opts_string(&o, "name", "none"), (int)zpl_opts_has_arg(&o, "verbose"), (long long)zpl_opts_integer(&o, "num", 7), zpl_opts_real(&o, "real", 2.5), zpl_opts_string(&o, "pos", "nothing")); zpl_opts_free(&o);
}
#endif
#ifdef W_DLL
LINKAGE int B01_exported(int x);
static void dll(void) { zpl_dll_handle h = zpl_dll_load("libm.so.6"); printf("load %d", h != 0); if (h) { zpl_dll_proc p = zpl_dll_proc_address(h, "floor"); double (*fl)(double) = (double (*)(double))p; printf(" %g %d", fl ? fl(3.5) : -1, zpl_dll_proc_address(h, "no_such_function") != 0); zpl_dll_unload(h); } printf("\n"); }
#endif
#ifdef W_MATH
#define R(x) printf("r %.9g\n", (double)(x))
static float rf(void) { return (float)((int)rnd(20000) - 10000) / 1000.0f; }
static void math(void) {
    unsigned i; for (i = 0; i < 4; i++) { float a = rf(), b = rf(), u = (float)rnd(2000) / 1000.0f - 1.0f, p = (float)rnd(100000) / 1000.0f + 0.001f; R(zpl_sin(a)); R(zpl_cos(a)); R(zpl_tan(a / 10)); R(zpl_arcsin(u)); R(zpl_arccos(u)); R(zpl_arctan(a)); R(zpl_arctan2(a, b)); R(zpl_exp(a)); R(zpl_log(p)); R(zpl_pow(p, u)); R(zpl_sqrt(p)); R(zpl_rsqrt(p)); R(zpl_hypot(a, b)); R(zpl_exp2(u)); R(zpl_log2(p)); R(zpl_floor(a)); R(zpl_ceil(a)); R(zpl_round(a)); R(zpl_mod(a, p)); R(zpl_quake_rsqrt(p)); R(zpl_half_to_float(zpl_float_to_half(a))); R(zpl_to_degrees(a)); R(zpl_abs(a)); R(zpl_sign(a)); R(zpl_fast_exp(u)); }
    { float x = rf(), y = rf(), z = rf(); zpl_vec3 v = zpl_vec3f(x, y, z), w = zpl_vec3f(z, rf(), 1.5f), c; zpl_vec3_cross(&c, v, w); R(c.x); R(c.y); R(c.z); R(zpl_vec3_dot(v, w)); R(zpl_vec3_mag(v)); zpl_vec3_norm(&c, v); R(c.x); R(c.y); }
    { zpl_quat q = zpl_quat_axis_angle(zpl_vec3f(0, 0, 1), rf()); zpl_mat4 m, t, o; zpl_mat4_from_quat(&m, q); R(m.e[0]); R(m.e[1]); R(m.e[5]); zpl_mat4_to_translate(&t, zpl_vec3f(1, 2, rf())); zpl_mat4_mul(&o, &t, &m); R(o.e[12]); R(o.e[14]); zpl_mat4_perspective(&m, 1.0f, 1.5f, 0.1f, 100.0f); R(m.e[0]); R(m.e[10]); R(zpl_quat_mag(q)); }
    { float x = rf(), y = rf(), z = rf(), l; zpl_rect2 a = zpl_rect2f(zpl_vec2f(x, y), zpl_vec2f(5, 5)); R(zpl_rect2_contains_vec2(a, zpl_vec2f(y, z))); l = zpl_lerp(x, y, 0.25f); R(l); R(zpl_clamp(z, -1.0f, 1.0f)); }
}
#endif
#ifdef W_THREADING
static zpl_mutex mx; static zpl_atomic32 at; static int plain; static zpl_semaphore se;
static zpl_isize body(zpl_thread *t) { int i; (void)t; for (i = 0; i < 500; i++) { zpl_atomic32_fetch_add(&at, 2); zpl_mutex_lock(&mx); plain++; zpl_mutex_unlock(&mx); } zpl_semaphore_post(&se, 1); return 4; }
static void threading(void) { zpl_thread t[3]; int i; zpl_mutex_init(&mx); zpl_semaphore_init(&se); zpl_atomic32_store(&at, 0); plain = 0; for (i = 0; i < 3; i++) { zpl_thread_init(&t[i]); zpl_thread_start(&t[i], body, 0); } for (i = 0; i < 3; i++) zpl_semaphore_wait(&se); for (i = 0; i < 3; i++) { zpl_thread_join(&t[i]); zpl_thread_destroy(&t[i]); } printf("threads %d %d ", zpl_atomic32_load(&at), plain); printf("%d\n", (int)zpl_atomic32_compare_exchange(&at, 3000, 1)); zpl_mutex_destroy(&mx); zpl_semaphore_destroy(&se); }
#endif
#ifdef W_JOBS
static zpl_atomic32 ran; static void job(void *d) { zpl_atomic32_fetch_add(&ran, *(int *)d); }
static void jobs(void) { zpl_jobs_system s; int v[40]; int i, sum = 0; zpl_atomic32_store(&ran, 0); zpl_jobs_init(&s, zpl_heap_allocator(), 3); for (i = 0; i < 40; i++) { v[i] = (int)rnd(100); sum += v[i]; zpl_jobs_enqueue_with_priority(&s, job, &v[i], (zpl_jobs_priority)rnd(5)); } while (!zpl_jobs_empty_all(&s)) zpl_jobs_process(&s); while (!zpl_jobs_done(&s)) zpl_sleep_ms(1); zpl_jobs_free(&s); printf("jobs %d\n", zpl_atomic32_load(&ran) == sum); }
#endif
#ifdef W_PARSER
static void show(zpl_adt_node *n, int d) { zpl_isize i; printf("%*s%d %s", d, "", n->type, n->name ? n->name : "-"); if (n->type == ZPL_ADT_TYPE_STRING || n->type == ZPL_ADT_TYPE_MULTISTRING) printf(" '%s'\n", n->string); else if (n->type == ZPL_ADT_TYPE_INTEGER) printf(" %lld\n", (long long)n->integer); else if (n->type == ZPL_ADT_TYPE_REAL) printf(" %.9g %d\n", n->real, n->props >= ZPL_ADT_PROPS_NAN && n->props <= ZPL_ADT_PROPS_NULL ? n->props : 0); else { printf(" {\n"); if (n->nodes) for (i = 0; i < zpl_array_count(n->nodes); i++) show(n->nodes + i, d + 1); } }
static size_t value(char *b, int d) { size_t n = 0; unsigned i, m; static const char *words[] = {"true", "false", "null", "Infinity", "-12.50", "1e3", "0x1F", "-0", "0.001", "\"te\\\"xt\"", "\"\"", "`multi\nline`"}; switch (d > 3 ? 0 : rnd(4)) { case 0: case 1: if (rnd(2)) return (size_t)sprintf(b, "%s", words[rnd(12)]); return (size_t)sprintf(b, "%d", (int)rnd(100000) - 50000);
    case 2: b[n++] = '['; m = rnd(5); for (i = 0; i < m; i++) { if (i) b[n++] = ','; n += value(b + n, d + 1); } b[n++] = ']'; break;
    default: b[n++] = '{'; m = rnd(5); for (i = 0; i < m; i++) { if (i) n += (size_t)sprintf(b + n, ", "); n += (size_t)sprintf(b + n, rnd(2) ? "\"k%u\" : " : "k%u = ", i); n += value(b + n, d + 1); } b[n++] = '}'; } b[n] = 0; return n; }
static void parser(void) {
    unsigned k; zpl_adt_node root; static char t[200000];
    for (k = 0; k < 6; k++) { size_t n; unsigned i, m = 1 + rnd(4); int e; n = 0; t[n++] = '{'; for (i = 0; i < m; i++) { n += (size_t)sprintf(t + n, "%s\"top%u\": ", i ? ",\n" : "", i); n += value(t + n, 0); } t[n++] = '}'; t[n] = 0; if (rnd(4) == 0) { unsigned at = rnd((unsigned)n); t[at] = "]}\"x,:"[rnd(6)]; } e = zpl_json_parse(&root, t, zpl_heap_allocator()); printf("json %d\n", e); if (!e) show(&root, 0); zpl_json_free(&root); }
    strcpy(t, rnd(2) ? "a = 1\nb : two words\nlist: [1,2,3]\n" : "x = { y = 3 }\nz = \"s\"\n"); printf("cfg %d\n", (int)zpl_json_parse(&root, t, zpl_heap_allocator())); show(&root, 0); zpl_json_free(&root);
    for (k = 0; k < 6; k++) { size_t n = 0; unsigned i, m = 1 + rnd(4); memset(t, 0, 1000); for (i = 0; i < m; i++) { const char *sep, *key, *as; sep = i ? rnd(2) ? "\n" : rnd(2) ? ",\n" : " , " : rnd(3) ? "" : "\n"; key = rnd(2) ? "key" : "k_"; as = rnd(2) ? ": " : " = "; n += (size_t)sprintf(t + n, "%s%s%u%s", sep, key, i, as); n += value(t + n, 2); } if (rnd(3) == 0) n += (size_t)sprintf(t + n, "%s", rnd(2) ? "\n" : " // end"); t[n + 1] = "z\n,|"[rnd(4)]; strcpy(t + n + 2, "more: [1"); { int e = zpl_json_parse(&root, t, zpl_heap_allocator()); printf("bare %d\n", e); if (!e) show(&root, 0); zpl_json_free(&root); } }
    { size_t n = 0; unsigned r, c, w = 1 + rnd(4), h = 1 + rnd(5); for (r = 0; r < h; r++) for (c = 0; c < w; c++) { n += (size_t)(rnd(3) ? sprintf(t + n, "%d", (int)rnd(1000) - 500) : rnd(2) ? sprintf(t + n, "\"q,%u\"", rnd(9)) : sprintf(t + n, "w%u", rnd(9))); t[n++] = c + 1 < w ? ',' : '\n'; } t[n] = 0; printf("csv %d\n", (int)zpl_csv_parse(&root, t, zpl_heap_allocator(), (zpl_b32)rnd(2))); show(&root, 0); zpl_csv_free(&root); }
    { snprintf(t, 200, "http://host/?a=%u&b=x%%20y&c=d", rnd(100)); printf("uri %d\n", (int)zpl_uri_parse(&root, t, zpl_heap_allocator())); show(&root, 0); zpl_uri_free(&root); }
    { zpl_adt_node *n; zpl_string s; zpl_adt_make_branch(&root, zpl_heap_allocator(), NULL, 0); zpl_adt_append_int(&root, "i", (zpl_i64)rnd(100)); zpl_adt_append_str(&root, "s", "text"); zpl_adt_append_arr(&root, "arr"); n = zpl_adt_query(&root, "arr"); zpl_adt_append_int(n, NULL, 5); zpl_adt_append_flt(n, NULL, 2.5); zpl_adt_append_obj(n, NULL); n = zpl_adt_query(&root, "arr/1"); printf("query %g\n", n ? n->real : -1.0); zpl_adt_swap_nodes(zpl_adt_query(&root, "i"), zpl_adt_query(&root, "s")); show(&root, 0); n = zpl_adt_find(&root, "s", 1); if (n) zpl_adt_remove_node(n); show(&root, 0); s = zpl_json_write_string(zpl_heap_allocator(), &root, 0); { zpl_adt_node again; printf("again %d\n", (int)zpl_json_parse(&again, s, zpl_heap_allocator())); show(&again, 0); zpl_json_free(&again); } zpl_string_free(s); zpl_adt_destroy_branch(&root); }
}
#endif
#ifdef W_SOCKET
/* two sockets bound to "any port" may be given the same one (both may reuse addresses): the datagram then goes elsewhere, and another attempt is made */
static void sock(void) { zpl_socket a, b; zpl_socket_addr ad, from; char host[64], port[16], buf[64]; int k, ready = 0; printf("init %d", (int)zpl_socket_init()); for (k = 0; k < 20 && !ready; k++) { int made, sent; a = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_BIND, 0, "127.0.0.1", "0"); made = a >= 0; zpl_socket_get_address(a, &ad); zpl_socket_get_address_info(&ad, host, 64, port, 16); b = zpl_socket_create(ZPL_SOCKET_UDP, ZPL_SOCKET_CONNECT, 0, "127.0.0.1", port); sent = (int)zpl_socket_send(b, "hello", 5); ready = (int)zpl_socket_select(a, 2.0); if (ready) { memset(buf, 0, sizeof buf); ready = (int)zpl_socket_receive_from(a, &from, buf, 60); printf(" %d %s sent %d got %d %s\n", made, host, sent, ready, buf); } zpl_socket_close(a); zpl_socket_close(b); } if (!ready) printf(" nothing arrives\n"); zpl_socket_terminate(); }
#endif
#ifdef SECOND_UNIT
LINKAGE unsigned long long B01_second(void);
#endif
int main(int argc, char **argv) {
    unsigned long long s = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    setvbuf(stdout, 0, _IONBF, 0);
#define SECTION(name, f) rs = s; printf("== " name "\n"); f();
#ifdef ZPL_HEAP_ANALYSIS
    zpl_heap_stats_init();
#endif
    SECTION("ESSENTIALS", essentials)
#ifdef ZPL_HEAP_ANALYSIS
    { int before = (int)zpl_heap_stats_alloc_count(); void *p = zpl_alloc(zpl_heap_allocator(), 100); if ((int)zpl_heap_stats_alloc_count() != before + 1) printf("heap statistics miss an allocation\n"); zpl_free(zpl_heap_allocator(), p); if (zpl_heap_stats_used_memory() != 0 || zpl_heap_stats_alloc_count() != 0) printf("heap statistics: %d bytes in %d blocks left\n", (int)zpl_heap_stats_used_memory(), (int)zpl_heap_stats_alloc_count()); }
#endif
#ifdef W_CORE
    SECTION("CORE", core)
#endif
#ifdef W_HASHING
    SECTION("HASHING", hashing)
#endif
#ifdef W_REGEX
    SECTION("REGEX", regex)
#endif
#ifdef W_OPTS
    SECTION("OPTS", opts)
#endif
#ifdef W_DLL
    SECTION("DLL", dll)
#endif
#ifdef W_MATH
    SECTION("MATH", math)
#endif
#ifdef W_THREADING
    SECTION("THREADING", threading)
#endif
#ifdef W_JOBS
    SECTION("JOBS", jobs)
#endif
#ifdef W_PARSER
    SECTION("PARSER", parser)
#endif
#ifdef W_SOCKET
    SECTION("SOCKET", sock)
#endif
    printf("== END\n");
#ifdef SECOND_UNIT
    if (B01_second() != 0) printf("the second unit disagrees\n");
#endif
    return 0;
}
#endif
#ifdef B01_OTHER
#ifdef __cplusplus
extern "C"
#endif
unsigned long long B01_second(void); 
unsigned long long B01_second(void) { char a[8] = "abcdefg", b[8]; int *arr; unsigned long long bad = 0; zpl_memcopy(b, a, 8); bad += (unsigned long long)(b[3] != 'd'); zpl_array_init(arr, zpl_heap_allocator()); zpl_array_append(arr, 5); bad += (unsigned long long)(arr[0] != 5); zpl_array_free(arr);
#ifdef W_CORE
    bad += (unsigned long long)(zpl_strlen(a) != 7); bad += (unsigned long long)(zpl_char_to_upper('a') != 'A');
#endif
    return bad; }
#endif
