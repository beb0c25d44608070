#include "rtype.h"
#include <stdio.h>
#include <algorithm>
using namespace mc;

#ifndef FREAL
#define FREAL 4
#define FDOUBLE 8
#endif
struct FI { float a; int b; }; struct DI { double a; int b; }; struct LI { long a; int b; }; struct II { int a; int b; };
struct SI { short a; int b; }; struct LDI { long double a; int b; };
const std::vector<Basic> &basics()
{
    static std::vector<Basic> v;
    if (!v.empty()) return v;
    int k = 1;
    auto one = [&](const char *n, int h, int size) { v.push_back(Basic{n, h, size, k++, 0, 0, 0, size}); };
    auto kind = [&](int h) { for (auto &b : v) if (b.handle == h) return b; throw Violation{"", "basics"}; };
    auto two = [&](const char *n, int h, int h1, int h2, int d2, int ext) { Basic a = kind(h1), b = kind(h2); v.push_back(Basic{n, h, a.size, a.kind, b.kind, b.size, d2, ext}); };
#define C1(h, T) one(#h, h, sizeof(T))
    C1(MPI_CHAR, char); C1(MPI_SIGNED_CHAR, signed char); C1(MPI_WCHAR, wchar_t); C1(MPI_SHORT, short); C1(MPI_INT, int); C1(MPI_LONG, long);
    C1(MPI_UNSIGNED_CHAR, unsigned char); C1(MPI_UNSIGNED_SHORT, unsigned short); C1(MPI_UNSIGNED, unsigned); C1(MPI_UNSIGNED_LONG, unsigned long);
    C1(MPI_FLOAT, float); C1(MPI_DOUBLE, double); C1(MPI_LONG_DOUBLE, long double); C1(MPI_BYTE, char); C1(MPI_PACKED, char);
    C1(MPI_LONG_LONG_INT, long long); C1(MPI_UNSIGNED_LONG_LONG, unsigned long long); C1(MPI_OFFSET, MPI_Offset);
#define F1(h, n) one(#h, h, n)
    F1(MPI_INTEGER, 4); F1(MPI_REAL, FREAL); F1(MPI_DOUBLE_PRECISION, FDOUBLE); F1(MPI_COMPLEX, 2 * FREAL); F1(MPI_DOUBLE_COMPLEX, 2 * FDOUBLE);
    F1(MPI_LOGICAL, 4); F1(MPI_CHARACTER, 1);
    F1(MPI_INTEGER1, 1); F1(MPI_INTEGER2, 2); F1(MPI_INTEGER4, 4); F1(MPI_INTEGER8, 8); F1(MPI_INTEGER16, 16);
    F1(MPI_REAL4, 4); F1(MPI_REAL8, 8); F1(MPI_REAL16, 16); F1(MPI_COMPLEX8, 8); F1(MPI_COMPLEX16, 16); F1(MPI_COMPLEX32, 32);
#define P2(h, h1, S) two(#h, h, h1, MPI_INT, offsetof(S, b), sizeof(S))
    P2(MPI_FLOAT_INT, MPI_FLOAT, FI); P2(MPI_DOUBLE_INT, MPI_DOUBLE, DI); P2(MPI_LONG_INT, MPI_LONG, LI); P2(MPI_2INT, MPI_INT, II);
    P2(MPI_SHORT_INT, MPI_SHORT, SI); P2(MPI_LONG_DOUBLE_INT, MPI_LONG_DOUBLE, LDI);
    two("MPI_2REAL", MPI_2REAL, MPI_REAL, MPI_REAL, FREAL, 2 * FREAL);
    two("MPI_2DOUBLE_PRECISION", MPI_2DOUBLE_PRECISION, MPI_DOUBLE_PRECISION, MPI_DOUBLE_PRECISION, FDOUBLE, 2 * FDOUBLE);
    two("MPI_2INTEGER", MPI_2INTEGER, MPI_INTEGER, MPI_INTEGER, 4, 8);
    return v;
}
const char *basic_name(int h)
{
    if (h == MPI_LB) return "MPI_LB";
    if (h == MPI_UB) return "MPI_UB";
    for (auto &b : basics()) if (b.handle == h) return b.name;
    return "?";
}
RType r_basic(int h)
{
    RType t; t.h = h; t.committed = true;
    if (h == MPI_LB) { t.marker = 1; return t; }
    if (h == MPI_UB) { t.marker = 2; return t; }
    for (auto &b : basics()) if (b.handle == h) {
        t.map.push_back(Elem{0, (short)b.kind, (short)b.size});
        if (b.kind2) t.map.push_back(Elem{b.disp2, (short)b.kind2, (short)b.size2});
        t.lb = 0; t.ub = b.ext;
        return t;
    }
    fail("harness: unknown predefined handle %d", h);
}
long RType::extent() const
{
    long e = ub - lb;
    if (olb || oub) return e;
    long m = 1;
    for (auto &x : map) m = std::max<long>(m, x.len);
    long r = e % m;
    return r ? e + (m - r) : e;
}
std::string RType::str() const
{
    std::string s = "{";
    for (size_t i = 0; i < map.size() && i < 12; i++) s += (i ? " " : "") + std::to_string(map[i].disp) + ":" + std::to_string(map[i].kind) + "/" + std::to_string(map[i].len);
    if (map.size() > 12) s += " ... " + std::to_string(map.size());
    return s + "} lb=" + std::to_string(lb) + " ub=" + std::to_string(ub) + (olb ? " LB!" : "") + (oub ? " UB!" : "") + " ext=" + std::to_string(extent());
}

void r_struct(RType &out, int n, const int *bl, const long *disp, const RType *const *old)
{
    RType t;
    bool hl = false, hu = false; long l = 0, u = 0;
    auto low = [&](long x) { l = hl ? std::min(l, x) : x; hl = true; };
    auto high = [&](long x) { u = hu ? std::max(u, x) : x; hu = true; };
    for (int i = 0; i < n; i++) {
        const RType &o = *old[i];
        if (bl[i] <= 0) continue;
        if (o.marker == 1) { low(disp[i]); continue; }
        if (o.marker == 2) { high(disp[i]); continue; }
        long ext = o.extent();
        for (long j = 0; j < bl[i]; j++) {
            long at = disp[i] + j * ext;
            if (o.olb) low(o.lb + at);
            if (o.oub) high(o.ub + at);
            for (auto &e : o.map) t.map.push_back(Elem{e.disp + at, e.kind, e.len});
        }
    }
    long ml = 0, mu = 0;
    for (size_t i = 0; i < t.map.size(); i++) {
        long a = t.map[i].disp, b = a + t.map[i].len;
        ml = i ? std::min(ml, a) : a; mu = i ? std::max(mu, b) : b;
    }
    t.olb = hl; t.oub = hu;
    t.lb = hl ? l : ml;
    t.ub = hu ? u : mu;
    t.h = out.h;
    out = t;
}
void r_hindexed(RType &out, int n, const int *bl, const long *disp, const RType &old)
{
    std::vector<const RType *> o(n, &old);
    r_struct(out, n, bl, disp, o.data());
}
void r_contig(RType &out, int n, const RType &old)
{
    std::vector<int> bl(n, 1); std::vector<long> d(n);
    for (int i = 0; i < n; i++) d[i] = i * old.extent();
    r_hindexed(out, n, bl.data(), d.data(), old);
}
void r_hvector(RType &out, int n, int b, long stride, const RType &old)
{
    std::vector<int> bl(n, b); std::vector<long> d(n);
    for (int i = 0; i < n; i++) d[i] = i * stride;
    r_hindexed(out, n, bl.data(), d.data(), old);
}
void r_vector(RType &out, int n, int b, int stride, const RType &old) { r_hvector(out, n, b, (long)stride * old.extent(), old); }
void r_indexed(RType &out, int n, const int *bl, const int *disp, const RType &old)
{
    std::vector<long> d(n);
    for (int i = 0; i < n; i++) d[i] = (long)disp[i] * old.extent();
    r_hindexed(out, n, bl, d.data(), old);
}
void r_iblock(RType &out, int n, int b, const int *disp, const RType &old)
{
    std::vector<int> bl(n, b);
    r_indexed(out, n, bl.data(), disp, old);
}

std::vector<int> made_types;
static void named(const char *what, int h)
{
    if (made_types.size() < 4096) made_types.push_back(h);
    if (h == MPI_DATATYPE_NULL) fail("%s returned MPI_DATATYPE_NULL", what);
    if (h < 0) fail("%s returned %d, the handle of a predefined datatype", what, h);
}
// constructor arguments are handed over in scratch arrays that are overwritten right after the call
template <class T> struct Tmp {
    std::vector<T> v;
    Tmp(const T *p, int n) : v(p, p + n) { v.push_back((T)0x7b7b7b7b); }
    T *p() { return v.data(); }
    void done(const char *what, const T *orig, int n)
    {
        for (int i = 0; i < n; i++) if (v[i] != orig[i]) fail("%s changed its argument array", what);
        if (v[n] != (T)0x7b7b7b7b) fail("%s wrote past its argument array", what);
        for (auto &x : v) x = (T)0x0101010101010101L;
    }
};
void mk_struct(Api *a, RType &out, int n, const int *bl, const long *disp, const RType *const *old)
{
    Tmp<int> b(bl, n); Tmp<long> d(disp, n);
    std::vector<int> hs(n); for (int i = 0; i < n; i++) hs[i] = old[i]->h;
    Tmp<int> h(hs.data(), n);
    int nt = -999;
    if (tracing) { std::string s; for (int i = 0; i < n; i++) s += " (" + std::to_string(bl[i]) + "x" + std::to_string(old[i]->h) + "@" + std::to_string(disp[i]) + ")"; note("Type_struct%s", s.c_str()); }
    ok("Type_struct", [&] { return a->Type_struct(n, b.p(), d.p(), h.p(), &nt); });
    RType t; r_struct(t, n, bl, disp, old); out = t;
    b.done("Type_struct", bl, n); d.done("Type_struct", disp, n); h.done("Type_struct", hs.data(), n);
    named("Type_struct", nt); out.h = nt;
}
void mk_contig(Api *a, RType &out, int n, const RType &old)
{
    int nt = -999; note("Type_contiguous(%d, %d)", n, old.h);
    ok("Type_contiguous", [&] { return a->Type_contiguous(n, old.h, &nt); });
    RType t; r_contig(t, n, old); out = t; named("Type_contiguous", nt); out.h = nt;
}
void mk_vector(Api *a, RType &out, int n, int bl, int stride, const RType &old)
{
    int nt = -999; note("Type_vector(%d, %d, %d, %d)", n, bl, stride, old.h);
    ok("Type_vector", [&] { return a->Type_vector(n, bl, stride, old.h, &nt); });
    RType t; r_vector(t, n, bl, stride, old); out = t; named("Type_vector", nt); out.h = nt;
}
void mk_hvector(Api *a, RType &out, int n, int bl, long stride, const RType &old, bool create)
{
    int nt = -999; note("Type_%shvector(%d, %d, %ld, %d)", create ? "create_" : "", n, bl, stride, old.h);
    if (create) ok("Type_create_hvector", [&] { return a->Type_create_hvector(n, bl, stride, old.h, &nt); });
    else ok("Type_hvector", [&] { return a->Type_hvector(n, bl, stride, old.h, &nt); });
    RType t; r_hvector(t, n, bl, stride, old); out = t; named("Type_hvector", nt); out.h = nt;
}
void mk_indexed(Api *a, RType &out, int n, const int *bl, const int *disp, const RType &old)
{
    Tmp<int> b(bl, n), d(disp, n); int nt = -999;
    if (tracing) { std::string s; for (int i = 0; i < n; i++) s += " " + std::to_string(bl[i]) + "@" + std::to_string(disp[i]); note("Type_indexed(%s of %d)", s.c_str(), old.h); }
    ok("Type_indexed", [&] { return a->Type_indexed(n, b.p(), d.p(), old.h, &nt); });
    RType t; r_indexed(t, n, bl, disp, old); out = t;
    b.done("Type_indexed", bl, n); d.done("Type_indexed", disp, n); named("Type_indexed", nt); out.h = nt;
}
void mk_hindexed(Api *a, RType &out, int n, const int *bl, const long *disp, const RType &old)
{
    Tmp<int> b(bl, n); Tmp<long> d(disp, n); int nt = -999;
    if (tracing) { std::string s; for (int i = 0; i < n; i++) s += " " + std::to_string(bl[i]) + "@" + std::to_string(disp[i]); note("Type_hindexed(%s of %d)", s.c_str(), old.h); }
    ok("Type_hindexed", [&] { return a->Type_hindexed(n, b.p(), d.p(), old.h, &nt); });
    RType t; r_hindexed(t, n, bl, disp, old); out = t;
    b.done("Type_hindexed", bl, n); d.done("Type_hindexed", disp, n); named("Type_hindexed", nt); out.h = nt;
}
void mk_iblock(Api *a, RType &out, int n, int bl, const int *disp, const RType &old)
{
    Tmp<int> d(disp, n); int nt = -999;
    if (tracing) { std::string s; for (int i = 0; i < n; i++) s += " " + std::to_string(disp[i]); note("Type_create_indexed_block(len %d at%s of %d)", bl, s.c_str(), old.h); }
    ok("Type_create_indexed_block", [&] { return a->Type_create_indexed_block(n, bl, d.p(), old.h, &nt); });
    RType t; r_iblock(t, n, bl, disp, old); out = t;
    d.done("Type_create_indexed_block", disp, n); named("Type_create_indexed_block", nt); out.h = nt;
}
void mk_dup(Api *a, RType &out, const RType &old)
{
    int nt = -999; note("Type_dup(%d)", old.h);
    ok("Type_dup", [&] { return a->Type_dup(old.h, &nt); });
    RType t = old; named("Type_dup", nt); t.h = nt; out = t;
}
void mk_commit(Api *a, RType &t)
{
    int h = t.h; note("Type_commit(%d)", h);
    ok("Type_commit", [&] { return a->Type_commit(&h); });
    if (h != t.h) fail("Type_commit changed the handle %d to %d", t.h, h);
    t.committed = true;
}
void mk_free(Api *a, RType &t)
{
    int h = t.h; note("Type_free(%d)", h);
    ok("Type_free", [&] { return a->Type_free(&h); });
    if (h != MPI_DATATYPE_NULL) fail("Type_free left the handle at %d", h);
    t.h = 0;
}
void check_type(Api *a, const RType &t, const char *when)
{
    int size = -1; long ext = -1, lb = -1, ub = -1;
    ok("Type_size", [&] { return a->Type_size(t.h, &size); });
    ok("Type_extent", [&] { return a->Type_extent(t.h, &ext); });
    ok("Type_lb", [&] { return a->Type_lb(t.h, &lb); });
    ok("Type_ub", [&] { return a->Type_ub(t.h, &ub); });
    if (size != t.size()) fail("%s: Type_size of %s gives %d, expected %ld", when, t.str().c_str(), size, t.size());
    if (ext != t.extent()) fail("%s: Type_extent of %s gives %ld, expected %ld", when, t.str().c_str(), ext, t.extent());
    if (lb != t.lb) fail("%s: Type_lb of %s gives %ld, expected %ld", when, t.str().c_str(), lb, t.lb);
    if (ub != t.upper()) fail("%s: Type_ub of %s gives %ld, expected %ld", when, t.str().c_str(), ub, t.upper());
}

bool r_types_agree(long sc, const RType &st, long dc, const RType &dt, bool upto_shorter)
{
    long ns = sc * st.count(), nd = dc * dt.count(), n = upto_shorter ? std::min(ns, nd) : nd;
    for (long i = 0; i < n; i++) if (st.map[i % st.count()].kind != dt.map[i % dt.count()].kind) return false;
    return true;
}
long r_copy(const char *src, long sc, const RType &st, char *dst, long dc, const RType &dt, bool truncate)
{
    long ns = sc * st.count(), nd = dc * dt.count(), n = truncate ? std::min(ns, nd) : nd;
    long se = st.extent(), de = dt.extent(), sn = st.count(), dn = dt.count();
    for (long i = 0; i < n; i++) {
        const Elem &a = st.map[i % sn], &b = dt.map[i % dn];
        memcpy(dst + b.disp + (i / dn) * de, src + a.disp + (i / sn) * se, b.len);
    }
    return n;
}

// ------------------------------------------------------------------ user memory
UMem um;
static const size_t UCAP = 1 << 24;
static uint64_t lcg(uint64_t &x) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; return x >> 32; }
void UMem::reset(uint64_t)
{
    if (!m) { m = (char *)pages(UCAP); s = (char *)pages(UCAP); cap = UCAP; }
    used = 0;
}
void UMem::refill(char *p, size_t n, uint64_t salt)
{
    uint64_t x = salt * 0x9e3779b97f4a7c15ULL + (uint64_t)(p - m) * 0x100000001b3ULL;
    char *r = ref(p);
    for (size_t i = 0; i < n; i++) { if (i % 4 == 0) lcg(x); p[i] = r[i] = (char)(x >> (32 + 8 * (i % 4))); }
}
char *UMem::alloc(size_t bytes, size_t align, size_t gap)
{
    size_t at = (used + gap + align - 1) / align * align;
    size_t end = at + bytes + gap;
    if (end > cap) fail("harness: user memory exhausted");
    refill(m + used, end - used, 0x51ed + used);
    used = end;
    return m + at;
}
void UMem::check(const char *when)
{
    if (memcmp(m, s, used) == 0) return;
    for (size_t i = 0; i < used; i++) if (m[i] != s[i]) {
        size_t j = i; while (j < used && j < i + 8) j++;
        std::string a, b; char t[8];
        for (size_t k = i; k < j; k++) { snprintf(t, 8, "%02x", (unsigned char)m[k]); a += t; snprintf(t, 8, "%02x", (unsigned char)s[k]); b += t; }
        fail("%s: user memory at offset %zu is %s, expected %s", when, i, a.c_str(), b.c_str());
    }
}
#include "p2p.h"
P2P pp;
