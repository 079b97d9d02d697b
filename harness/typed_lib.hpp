// harness side of typed_kernel.hpp: load the unit and run one operation
#pragma once
#include "typed_kernel.hpp"
#include <dlfcn.h>
static const TApi *typed_api() { static const TApi *u; if (!u) { const char *p = getenv("PBT_SO"); void *h = p ? dlopen(p, RTLD_NOW | RTLD_LOCAL) : 0; if (!h) { fprintf(stderr, "cannot load %s: %s\n", p ? p : "(unset)", dlerror()); _exit(3); } u = ((const TApi *(*)())dlsym(h, "typed_unity"))(); } return u; }
struct TCase { const TKernel *k; std::string a, b, oa, ob; unsigned par[5]; int op; uint64_t r; size_t bytes() const { return a.size(); } std::string name() const { char t[96]; snprintf(t, sizeof t, "%zu values of type %s, %s", k->n, k->type, par[4] ? "length known when run" : "constant length"); return t; } };
static TCase typed_case(Gen &g, int first, int past) {
    TCase c; const TApi *api = typed_api(); c.k = &api->k[g.u((u64)api->count)]; c.op = first + (int)g.u((u64)(past - first)); size_t n = c.k->n * c.k->size; bool few = g.boolean();
    auto data = [&] { std::string s; for (size_t i = 0; i < n; i++) s += few ? (char)(g.u(3) ? 0 : 1 + g.u(2)) : (char)g.u(256); return s; };
    c.a = data(); c.b = g.u(3) ? data() : c.a; c.oa.assign(n, 'x'); c.ob.assign(n, 'y'); c.par[0] = few ? (unsigned)g.u(3) : (unsigned)g.u(256); c.par[1] = (unsigned)g.u(c.k->n); c.par[2] = (unsigned)g.u(c.k->n); c.par[3] = (unsigned)g.u(c.k->n - std::max(c.par[1], c.par[2]) + 1); c.par[4] = (unsigned)g.boolean();
    c.r = c.k->run(c.op, c.a.data(), c.b.data(), &c.oa[0], &c.ob[0], c.par); return c;
}
