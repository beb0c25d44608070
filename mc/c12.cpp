// C12: the layout a constructor gives.  With C13 defined: size, extent and bounds of the same datatypes.
#include "p2p.h"
#include "zoo.h"
#include "far.h"
#include "replaced.h"
#include "aged_ways.h"
using namespace mc;
#ifdef C13
const char *mc_property = "C13";
#else
const char *mc_property = "C12";
#endif
static Api *A;
static std::vector<RType> pool;       // what constructors may use
static void begin()
{
    A = pick_api();
    static const int F[3] = {0xA5, 0, 0xFF};
    int m = choose(4, "memory contents");       // fresh memory of three kinds, or recycled memory with old contents
    fill = F[m % 3];
    um.reset(); um.alloc(64);
    ok("Init", [&] { return A->Init(); });
    if (m == 3) {
        // leave behind datatypes' worth of stale memory
        env::reuse = true;
        RType b = r_basic(MPI_DOUBLE), LB = r_basic(MPI_LB), UB = r_basic(MPI_UB), t[6];
        int bl[3] = {1, 2, 1}; long d[3] = {-64, 3, 777}; const RType *o[3] = {&LB, &b, &UB};
        for (int i = 0; i < 6; i++) { if (i % 2) mk_struct(A, t[i], 3, bl, d, o); else mk_contig(A, t[i], i + 1, b); }
        for (int i = 0; i < 6; i++) mk_free(A, t[i]);
    }
}
static void observe(RType &t, const char *when)
{
#ifdef C13
    check_type(A, t, when);
#else
    if (!t.committed) mk_commit(A, t);
    for (int n = 1; n <= 2; n++) {
        char *src = room(n, t); long bytes = n * t.size();
        char *out = um.alloc(std::max<long>(1, bytes)); int pos = 0;
        ok("Pack", [&] { return A->Pack(src, n, t.h, out, (int)bytes, &pos, MPI_COMM_WORLD); });
        if (pos != bytes) fail("%s: packing %d x %s gives %d bytes, expected %ld", when, n, t.str().c_str(), pos, bytes);
        char *r = um.ref(out), *sr = um.ref(src); long ext = t.extent();
        for (int k = 0; k < n; k++) for (auto &e : t.map) { memcpy(r, sr + k * ext + e.disp, e.len); r += e.len; }
        um.check(when);
        if (overlaps(t, n)) continue;
        char *dst = room(n, t); pos = 0;
        ok("Unpack", [&] { return A->Unpack(out, (int)bytes, &pos, dst, n, t.h, MPI_COMM_WORLD); });
        char *dr = um.ref(dst); r = um.ref(out);
        for (int k = 0; k < n; k++) for (auto &e : t.map) { memcpy(dr + k * ext + e.disp, r, e.len); r += e.len; }
        um.check(when);
    }
#endif
    uint64_t h = mix(t.lb * 4 + t.olb * 2 + t.oub, t.ub);
    for (auto &e : t.map) h = mix(h, e.disp * 64 + e.len);
    state(h);
}
static void parts(bool small)
{
    RType C = r_basic(MPI_CHAR), I = r_basic(MPI_INT), D = r_basic(MPI_DOUBLE), t;
    pool.clear();
    pool.push_back(C); pool.push_back(I); pool.push_back(D);
    if (small) return;
    pool.push_back(r_basic(MPI_SHORT)); pool.push_back(r_basic(MPI_DOUBLE_INT)); pool.push_back(r_basic(MPI_LONG_DOUBLE));
    int bl[3] = {1, 1, 1};
    { long d[2] = {0, 4}; const RType *o[2] = {&I, &C}; mk_struct(A, t, 2, bl, d, o); pool.push_back(t); }                       // padded
    { RType LB = r_basic(MPI_LB), UB = r_basic(MPI_UB); long d[3] = {-3, 0, 9}; const RType *o[3] = {&LB, &I, &UB}; mk_struct(A, t, 3, bl, d, o); pool.push_back(t); }
    mk_contig(A, t, 0, I); pool.push_back(t);                                                                                    // empty
    { long d[2] = {-8, 5}; mk_hindexed(A, t, 2, bl, d, C); pool.push_back(t); }
    { RType UB = r_basic(MPI_UB); long d[2] = {0, 3}; const RType *o[2] = {&D, &UB}; mk_struct(A, t, 2, bl, d, o); pool.push_back(t); }   // extent below the size
}
static void con(int kind, RType &o, const RType &b)      // one constructor, all small arguments
{
    static const long HS[] = {-17, -8, -3, 0, 1, 4, 5, 16, 24};
    static const int DS[] = {-3, -1, 0, 1, 4};
    static const long HD[] = {-16, -5, 0, 3, 8};
    int bl[4], di[4]; long hd[4];
    switch (kind) {
    case 0: mk_contig(A, o, choose(5, "count"), b); break;
    case 1: { int n = choose(4, "count"), l = choose(4, "blocklength"), s = choose(9, "stride") - 4; mk_vector(A, o, n, l, s, b); } break;
    case 2: case 3: { int n = choose(4, "count"), l = choose(3, "blocklength"); long s = HS[choose(9, "stride")]; mk_hvector(A, o, n, l, s, b, kind == 3); } break;
    case 4: { int n = choose(4, "count"); for (int i = 0; i < n; i++) { bl[i] = choose(3, "blocklength"); di[i] = DS[choose(5, "displacement")]; } mk_indexed(A, o, n, bl, di, b); } break;
    case 5: { int n = choose(4, "count"); for (int i = 0; i < n; i++) { bl[i] = choose(3, "blocklength"); hd[i] = HD[choose(5, "displacement")]; } mk_hindexed(A, o, n, bl, hd, b); } break;
    case 6: { int n = choose(4, "count"), l = choose(3, "blocklength"); for (int i = 0; i < n; i++) di[i] = DS[choose(5, "displacement")]; mk_iblock(A, o, n, l, di, b); } break;
    case 7: mk_dup(A, o, b); break;
    }
}
static const int CONS = 8;
// every constructor with all small arguments over every kind of base
static void single()
{
    begin(); parts(false);
    RType o; int kind = choose(CONS, "constructor");
    const RType &b = pool[choose((int)pool.size(), "base")];
    con(kind, o, b);
    observe(o, "a datatype");
}
static void structs_body(int n, bool few)
{
    begin(); parts(few);
    if (few) { pool.push_back(r_basic(MPI_LB)); pool.push_back(r_basic(MPI_UB)); }
    else { pool.push_back(r_basic(MPI_LB)); pool.push_back(r_basic(MPI_UB)); }
    static const long HD[] = {0, 8, -5, 3, 20};
    int bl[4]; long d[4]; const RType *o[4];
    for (int i = 0; i < n; i++) {
        o[i] = &pool[choose((int)pool.size(), "type")];
        bl[i] = few ? choose(2, "blocklength") * 2 : choose(3, "blocklength");
        d[i] = HD[choose(few ? 4 : 5, "displacement")];
    }
    RType t; mk_struct(A, t, n, bl, d, o);
    observe(t, "a structure");
}
static void structs() { structs_body(choose(3, "count"), false); }
static void structs3() { structs_body(3, true); }
// constructors over constructed types
static void shape(RType &o, const RType &b, bool more)
{
    RType LB = r_basic(MPI_LB), UB = r_basic(MPI_UB), I = r_basic(MPI_INT);
    long e = b.extent();
    switch (choose(more ? 18 : 13, "shape")) {
    case 0: mk_contig(A, o, 2, b); break;
    case 1: mk_vector(A, o, 2, 2, 3, b); break;
    case 2: mk_vector(A, o, 3, 1, -2, b); break;
    case 3: mk_hvector(A, o, 2, 1, 3 * e + 5, b); break;
    case 4: { int bl[] = {1, 2}, d[] = {3, 0}; mk_indexed(A, o, 2, bl, d, b); } break;
    case 5: { int bl[] = {2, 0, 1}; long d[] = {e + 3, 100, -2 * e - 1}; mk_hindexed(A, o, 3, bl, d, b); } break;
    case 6: { int d[] = {2, -1}; mk_iblock(A, o, 2, 2, d, b); } break;
    case 7: { int bl[] = {1, 1}; long d[] = {1, -40}; const RType *t[] = {&b, &I}; mk_struct(A, o, 2, bl, d, t); } break;
    case 8: { int bl[] = {1, 1}; long d[] = {0, 33}; const RType *t[] = {&b, &UB}; mk_struct(A, o, 2, bl, d, t); } break;
    case 9: { int bl[] = {1, 1}; long d[] = {-7, 0}; const RType *t[] = {&LB, &b}; mk_struct(A, o, 2, bl, d, t); } break;
    case 10: mk_dup(A, o, b); break;
    case 11: { int bl[] = {1, 2}; long d[] = {50, 0}; const RType *t[] = {&I, &b}; mk_struct(A, o, 2, bl, d, t); } break;
    case 12: mk_contig(A, o, 0, b); break;
    case 13: mk_vector(A, o, 2, 1, 1, b); break;
    case 14: mk_hvector(A, o, 2, 2, -e, b, true); break;
    case 15: { int bl[] = {1, 1, 1}; long d[] = {10, 0, 2}; const RType *t[] = {&b, &LB, &UB}; mk_struct(A, o, 3, bl, d, t); } break;
    case 16: { int bl[] = {0, 1}, d[] = {9, 1}; mk_indexed(A, o, 2, bl, d, b); } break;
    case 17: { int bl[] = {2, 1, 1}; long d[] = {0, 3, -9}; const RType *t[] = {&b, &b, &I}; mk_struct(A, o, 3, bl, d, t); } break;
    }
}
static void nested()
{
    begin();
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE_INT, MPI_SHORT};
    RType t = r_basic(B[choose(4, "base")]);
    int depth = tier ? 4 : 3; if (depth == 4) depth = 3 + choose(2, "depth");
    for (int i = 0; i < depth; i++) { RType o; shape(o, t, i < 3); t = o; if (t.count() > 300) throw Skip(); }
    observe(t, "a nested datatype");
}
// a full constructor over a shape, and a shape over it
static void sandwich()
{
    begin();
    static const int B[] = {MPI_CHAR, MPI_DOUBLE};
    RType t = r_basic(B[choose(2, "base")]), u, v;
    shape(u, t, true); con(choose(CONS - 1, "constructor"), v, u);
    observe(v, "a datatype over a derived datatype");
}
// large counts
static void large()
{
    begin();
    static const int N[] = {255, 256, 257, 1000, 4096, 5000, 32768, 40000, 65536, 70001};
    int n = N[choose(10, "count")], bl = 1 + 2 * choose(2, "blocklength"), k = choose(7, "constructor");
    RType b = r_basic(choose(2, "base") ? MPI_INT : MPI_CHAR), o;
    std::vector<int> bls(n), di(n); std::vector<long> hd(n); std::vector<const RType *> ts(n);
    RType C = r_basic(MPI_CHAR);
    for (int i = 0; i < n; i++) { bls[i] = i % 3 == 2 ? 0 : bl; di[i] = (n - i) * 4; hd[i] = (n - i) * 16 + i % 2; ts[i] = i % 2 ? &b : &C; }
    switch (k) {
    case 0: mk_contig(A, o, n * bl, b); break;
    case 1: mk_vector(A, o, n, bl, 4, b); break;
    case 2: mk_hvector(A, o, n, bl, -13, b); break;
    case 3: mk_indexed(A, o, n, bls.data(), di.data(), b); break;
    case 4: mk_hindexed(A, o, n, bls.data(), hd.data(), b); break;
    case 5: mk_iblock(A, o, n, bl, di.data(), b); break;
    case 6: mk_struct(A, o, n, bls.data(), hd.data(), ts.data()); break;
    }
    observe(o, "a datatype with many blocks");
}
// every number of blocks and every block length up to forty
static void medium()
{
    begin(); parts(false);
    int n = 1 + choose(40, "count"), k = choose(8, "constructor"), form = choose(4, "form");
    static const int B[] = {0, 2, 6, 7, 9}; const RType &b = pool[B[choose(5, "base")]];
    RType o, LB = r_basic(MPI_LB), UB = r_basic(MPI_UB), C = r_basic(MPI_CHAR), I = r_basic(MPI_INT); long e = b.extent();
    std::vector<int> bls(n), di(n); std::vector<long> hd(n); std::vector<const RType *> ts(n);
    for (int i = 0; i < n; i++) { bls[i] = form == 0 ? 1 : form == 1 ? i % 3 : form == 2 ? (i == n - 1 ? n : 1) : (i == 0 ? n : 0); di[i] = form & 1 ? (n - i) * 3 : i * (n + 1) - 20; hd[i] = di[i] * e + i % 2; ts[i] = i % 2 ? &b : &C; }
    switch (k) {
    case 0: if (form) throw Skip(); mk_contig(A, o, n, b); break;
    case 1: mk_vector(A, o, form < 2 ? n : 2, form < 2 ? 2 : n, form & 1 ? -3 : n + 1, b); break;
    case 2: mk_hvector(A, o, form < 2 ? n : 3, form < 2 ? 1 : n, form & 1 ? -5 : e * n + 3, b); break;
    case 3: mk_indexed(A, o, n, bls.data(), di.data(), b); break;
    case 4: mk_hindexed(A, o, n, bls.data(), hd.data(), b); break;
    case 5: mk_iblock(A, o, n, form < 3 ? form + 1 : n, di.data(), b); break;
    case 6: mk_struct(A, o, n, bls.data(), hd.data(), ts.data()); break;
    case 7: ts[form == 0 ? 0 : form == 1 ? n - 1 : form == 2 ? n / 2 : std::min(1, n - 1)] = &UB; ts[form == 0 ? n - 1 : form == 1 ? n / 2 : form == 2 ? 0 : n - 1] = &LB; mk_struct(A, o, n, bls.data(), hd.data(), ts.data()); break;
    }
    observe(o, "a datatype with some blocks");
}
// chains of constructors, the inner datatypes freed or kept
static void deep()
{
    begin();
    static const int D[] = {4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 33, 64, 128};
    int depth = D[choose(13, "depth")], x = choose(9, "shape"), y = choose(9, "shape"), fr = choose(3, "inner datatypes freed (never, at once, at the end)");
    static std::vector<RType> all; all.clear();
    RType I = r_basic(MPI_INT), UB = r_basic(MPI_UB), t = r_basic(choose(2, "base") ? MPI_DOUBLE_INT : MPI_CHAR);
    for (int i = 0; i < depth; i++) {
        RType o; long e = t.extent(); int sh = i % 2 ? y : x;
        if (t.count() > 40 && sh == 8) sh = 0;
        switch (sh) {
        case 0: mk_contig(A, o, 1, t); break;
        case 1: mk_dup(A, o, t); break;
        case 2: mk_vector(A, o, 1, 1, 7, t); break;
        case 3: { int bl[] = {1}; long d[] = {i % 3 ? 5 : -8}; mk_hindexed(A, o, 1, bl, d, t); } break;
        case 4: { int bl[] = {1, 1}; long d[] = {0, e + 3}; const RType *q[] = {&t, &UB}; mk_struct(A, o, 2, bl, d, q); } break;
        case 5: { int d[] = {i % 2 ? 1 : -1}; mk_iblock(A, o, 1, 1, d, t); } break;
        case 6: { int bl[] = {1}; long d[] = {-3}; const RType *q[] = {&t}; mk_struct(A, o, 1, bl, d, q); } break;
        case 7: mk_hvector(A, o, 1, 1, -e, t, i & 1); break;
        case 8: { int bl[] = {1, 1}; long d[] = {e, 0}; const RType *q[] = {&I, &t}; mk_struct(A, o, 2, bl, d, q); } break;
        }
        long lo, hi; span_of(o, 2, lo, hi); if (hi - lo > 200000 || lo < -200000 || hi > 200000) throw Skip();
        if (fr == 1 && i) mk_free(A, t);
        if (fr == 2) all.push_back(o);
        t = o;
    }
    if (fr == 2) for (size_t i = 0; i + 1 < all.size(); i++) mk_free(A, all[i]);
    observe(t, "a chain of datatypes");
}
// values far beyond 2^31
static void distant(RType &t, const char *when)
{
#ifdef C13
    observe(t, when);
#else
    if (!t.committed) mk_commit(A, t);
    int n = 1 + choose(2, "items"), way = choose(3, "way");
    if (!far_.fits(t, n)) throw Skip();
    far_.begin(); far_.fill(t, n, 1);
    long bytes = n * t.size(), cnt = n * t.count(); if (bytes > 4000) throw Skip();
    static char out[8192]; memset(out, 0x77, sizeof out); int pos = 0;
    bool uni = true; for (auto &e : t.map) if (e.kind != t.map[0].kind) uni = false;
    int el = t.map.empty() ? MPI_CHAR : t.map[0].len == 1 ? MPI_CHAR : t.map[0].len == 8 ? MPI_DOUBLE : MPI_INT;
    if (way && !uni) throw Skip();
    auto go = [&](bool out_) {
        const void *src = out_ ? far_.o : out; void *dst = out_ ? (void *)out : (void *)far_.o; pos = 0;
        int sh = out_ ? t.h : el, sn = out_ ? n : (int)cnt, rh = out_ ? el : t.h, rn = out_ ? (int)cnt : n;
        if (way == 0) { ok(out_ ? "Pack" : "Unpack", [&] { return out_ ? A->Pack((void *)src, n, t.h, out, (int)bytes, &pos, MPI_COMM_WORLD) : A->Unpack(out, (int)bytes, &pos, dst, n, t.h, MPI_COMM_WORLD); }); if (pos != bytes) fail("%s: %d bytes packed, expected %ld", when, pos, bytes); }
        else if (way == 1) { MPI_Status st; ok("Sendrecv", [&] { return A->Sendrecv((void *)src, sn, sh, 0, 1, dst, rn, rh, 0, 1, MPI_COMM_WORLD, &st); }); }
        else ok("Allgather", [&] { return A->Allgather((void *)src, sn, sh, dst, rn, rh, MPI_COMM_WORLD); });
    };
    go(true);
    far_.expect(t, n, out, 1, when);
    for (long i = bytes; i < (long)sizeof out; i++) if (out[i] != 0x77) fail("%s: written past the packed elements", when);
    if (!far_.overlapping(t, n)) {
        far_.fill(t, n, 2);
        for (long i = 0; i < bytes; i++) out[i] = (char)(i * 7 + 3);
        go(false);
        far_.check(t, n, out, 2, when);
    }
    uint64_t h = mix(n, way); for (auto &e : t.map) h = mix(h, e.disp);
    state(h);
#endif
}
static void extreme()
{
    begin();
    static const long V[] = {0, 1, 7, 0x7fffffff, 0x80000000L, 0x100000000L, 0x123456789L, -0x7fffffffL, -0x80000000L, -0x80000001L, -0x100000001L, 1L << 40, -(1L << 40)};
    static const int W[] = {1, 100, 0x10000, 0x7fffffff, -1, -0x10000, -0x7fffffff};
    RType b = r_basic(choose(2, "base") ? MPI_DOUBLE : MPI_CHAR), LB = r_basic(MPI_LB), UB = r_basic(MPI_UB), o, p;
    switch (choose(9, "constructor")) {
    case 0: mk_hvector(A, o, 1 + choose(3, "count"), 1, V[choose(13, "stride")], b); break;
    case 1: { int bl[] = {1, 2}; long d[] = {V[choose(13, "displacement")], V[choose(13, "displacement")]}; mk_hindexed(A, o, 2, bl, d, b); } break;
    case 2: { int bl[] = {1, 1}, d[] = {W[choose(7, "displacement")], W[choose(7, "displacement")]}; mk_indexed(A, o, 2, bl, d, b); } break;
    case 3: mk_vector(A, o, 1 + choose(3, "count"), 1 + choose(2, "blocklength"), W[choose(7, "stride")], b); break;
    case 4: { int d[] = {W[choose(7, "displacement")], W[choose(7, "displacement")], 3}; mk_iblock(A, o, 3, 2, d, b); } break;
    case 5: { int bl[] = {1, 1, 1}; long d[] = {V[choose(13, "displacement")], V[choose(13, "displacement")], 0}; const RType *t[] = {&LB, &UB, &b}; mk_struct(A, o, 3, bl, d, t); } break;
    case 6: { int bl[] = {1, 1}; long d[] = {0, V[choose(13, "displacement")]}; const RType *t[] = {&b, &UB}; mk_struct(A, p, 2, bl, d, t); mk_contig(A, o, 3, p); } break;
    case 7: { int bl[] = {1, 1}; long d[] = {V[choose(13, "displacement")], 0}; const RType *t[] = {&b, &UB}; mk_struct(A, p, 2, bl, d, t); mk_vector(A, o, 2, 2, choose(5, "stride") - 2, p); } break;
    case 8: mk_contig(A, o, 100000, b); break;
    }
#ifdef C13
    observe(o, "a datatype of extreme span");
    mk_contig(A, p, 2, o);
    observe(p, "two such datatypes");
#else
    if (o.count() > 1000) throw Skip();
    switch (choose(7, "what is done with it")) {
    case 0: distant(o, "a datatype of extreme span"); break;
    case 1: mk_contig(A, p, 2, o); distant(p, "two datatypes of extreme span"); break;
    case 2: mk_dup(A, p, o); distant(p, "the duplicate of a datatype of extreme span"); break;
    case 3: mk_hvector(A, p, 2, 1, -24, o); distant(p, "a vector of datatypes of extreme span"); break;
    case 4: { int bl[] = {1, 1}; long d[] = {40, -16}; const RType *t[] = {&b, &o}; mk_struct(A, p, 2, bl, d, t); distant(p, "a structure with a datatype of extreme span"); } break;
    case 5: { int d[] = {1, 0}; mk_iblock(A, p, 2, 1, d, o); distant(p, "indexed blocks of datatypes of extreme span"); } break;
    case 6: { int bl[] = {1, 1}, d[] = {0, -1}; mk_indexed(A, p, 2, bl, d, o); distant(p, "indexed datatypes of extreme span"); } break;
    }
#endif
}
#ifdef C13
// predefined types and the predefined markers themselves
static void predefined()
{
    begin();
    RType t = r_basic(basics()[choose((int)basics().size(), "type")].handle);
    observe(t, "a predefined datatype");
    RType o; con(choose(CONS, "constructor"), o, t);
    observe(o, "a datatype over a predefined one");
}
#else
// addresses taken with MPI_Address / MPI_Get_address, used from MPI_BOTTOM
extern "C" { int mpi_address_(void *, long *, int *); int mpi_get_address_(void *, long *, int *); }
static void addresses()
{
    begin();
    struct S { char a; double b; int c[3]; };
    S *s = (S *)um.alloc(sizeof(S) * 2, 16);
    int how = choose(4, "routine"); int n = 1 + choose(3, "members");
    void *at[3] = {&s[0].c[1], &s[1].b, &s[0].a}; int first = choose(3, "first member");
    RType C = r_basic(MPI_CHAR), I = r_basic(MPI_INT), D = r_basic(MPI_DOUBLE); const RType *ty[3] = {&I, &D, &C};
    int bl[3]; long d[3]; const RType *o[3];
    for (int i = 0; i < n; i++) {
        int k = (first + i) % 3, err = -5; MPI_Aint ad = -1; long fa = -1;
        if (how == 0) ok("Address", [&] { return MPI_Address(at[k], &ad); });
        else if (how == 1) ok("Get_address", [&] { return MPI_Get_address(at[k], &ad); });
        else { call("Fortran address routine", [&] { return how == 2 ? mpi_address_(at[k], &fa, &err) : mpi_get_address_(at[k], &fa, &err); }); ad = fa; if (err) fail("error %d", err); }
        if ((void *)ad != at[k]) fail("the address of %p is reported as %lx", at[k], (long)ad);
        bl[i] = k == 0 ? 2 : 1; d[i] = ad; o[i] = ty[k];
    }
    RType t; mk_struct(A, t, n, bl, d, o); mk_commit(A, t);
    char *out = um.alloc(t.size()); int pos = 0;
    ok("Pack from MPI_BOTTOM", [&] { return MPI_Pack(MPI_BOTTOM, 1, t.h, out, (int)t.size(), &pos, MPI_COMM_WORLD); });
    char *r = um.ref(out);
    for (auto &e : t.map) { memcpy(r, um.ref((char *)e.disp), e.len); r += e.len; }
    um.check("packing absolute addresses");
    state(mix(how, n * 3 + first));
}
#endif
// constructions one after the other do not influence each other
static void history()
{
    begin();
    static std::vector<RType> ts; ts.clear(); ts.reserve(16);
    ts.push_back(r_basic(MPI_INT));
    int depth = tier ? 4 : 3;
    for (int i = 0; i < depth; i++) {
        int k = choose(3, "step");
        if (k == 2 && ts.size() > 1) { int x = 1 + choose((int)ts.size() - 1, "freed"); mk_free(A, ts[x]); ts.erase(ts.begin() + x); }
        RType o; shape(o, ts[k == 1 ? ts.size() - 1 : 0], false); if (o.count() > 200) throw Skip();
        ts.push_back(o);
        for (size_t j = 1; j < ts.size(); j++) observe(ts[j], "a datatype after other constructions");
    }
}
// a datatype in the place of another
static void replaced_sp()
{
    P2P &p = pp; A = pick_api(); p.begin(A);
    static const int B[] = {MPI_INT, MPI_CHAR};
    static RType b; b = r_basic(B[choose(2, "base")]);
    int use = choose(7, "use of the first one");
    RType &t = replaced(A, b, b, [&](const RType &old) { if (use == 6) observe(const_cast<RType &>(old), "the first datatype"); else replaced_use(A, p, use, 6, false, old, b, 1); });
    observe(t, "a datatype in the place of another");
}
std::vector<Space> mc_spaces()
{
    return {
        {"single", "each constructor with every small argument combination (counts 0..3, block lengths 0..2 or 3, strides and displacements of both signs, unaligned ones too) over 11 base types (predefined, padded, marked, empty, negative), with three memory contents or recycled memory, C and Fortran", single},
        {"structs", "structures of 0..2 members from 13 types including MPI_LB and MPI_UB, block lengths 0..2, five displacements", structs},
        {"structs3", "structures of three members from char, int, double, MPI_LB, MPI_UB, block lengths 0 and 2, four displacements", structs3},
        {"nested", "three (thorough also four) nested constructors from 18 shapes over four bases", nested},
        {"sandwich", "each constructor with every small argument combination over 18 derived shapes", sandwich},
        {"medium", "each constructor with every count from 1 to 40 in four forms (even, growing, with one long block of up to 40, markers anywhere) over five bases", medium},
        {"deep", "chains of 4 to 128 constructors alternating between two of nine, inner datatypes freed at once, at the end or never", deep},
        {"large", "255..70001 blocks in every constructor", large},
#ifdef C13
        {"extreme", "displacements, strides and markers up to 2^40 in magnitude", extreme},
        {"predefined", "all predefined datatypes, and every constructor over each", predefined},
#else
        {"extreme", "displacements and strides up to 2^37 and beyond 2^31 (thirteen values, in bytes or in extents) in every constructor, alone or inside seven further constructions, one and two items packed, sent and gathered from and into sparse memory", extreme},
        {"addresses", "members located with the four address routines, packed relative to MPI_BOTTOM", addresses},
#endif
        {"history", "three (thorough four) constructions in a row with frees in between, all live datatypes observed after each", history},
        {"aged", AGED_WAYS_TEXT "each observed and packed", [] { guarded([] { aged_ways(7, 8); }); }},
        {"replaced", REPLACED_TEXT "the new one observed", replaced_sp},
    };
}
