#include "giant.h"
#include <sys/mman.h>
#include <unistd.h>
#include "zoo.h"
#include <map>
#include "replaced.h"
#include "aged_ways.h"
using namespace mc;
const char *mc_property = "C02";

// one transfer in one of the posting patterns
static const int PATTERNS = 8;
static void transfer(P2P &p, int pat, char *sb, int sn, const RType &st, char *rb, int rn, const RType &rt, int tag = 5)
{
    switch (pat) {
    case 0: p.send(SM_ISEND, 0, tag, sb, sn, st); p.recv(0, tag, rb, rn, rt); break;
    case 1: p.irecv(0, tag, rb, rn, rt); p.send(SM_SEND, 0, tag, sb, sn, st); break;
    case 2: p.sendrecv(0, tag, sb, sn, st, tag, rb, rn, rt); break;
    case 3: p.send(SM_ISEND, 0, tag, sb, sn, st); p.irecv(0, MPI_ANY_TAG, rb, rn, rt); break;
    case 4: p.irecv(0, MPI_ANY_TAG, rb, rn, rt); p.send(SM_ISEND, 0, tag, sb, sn, st); break;
    case 5: p.irecv(0, tag, rb, rn, rt); p.send(SM_IRSEND, 0, tag, sb, sn, st); break;
    case 6: p.irecv(0, tag, rb, rn, rt); p.send(SM_SSEND, 0, tag, sb, sn, st); break;
    case 7: p.irecv(0, tag, rb, rn, rt); p.send(SM_RSEND, 0, tag, sb, sn, st); break;
    }
}
// every pair of layouts over one base type
static void pairs_over(const std::vector<int> &bases, int maxn, int npat)
{
    P2P &p = pp; Api *a = pick_api();
    RType b = r_basic(pick(bases, "base type"));
    int si = choose(ZOO, "send type"), ri = choose(ZOO, "receive type");
    int pat = choose(npat, "posting pattern");
    if (npat == 3) pat = pat == 2 ? 2 : pat == 1 ? 4 : 0;
    int sn = choose(maxn + 1, "send count"), rn = choose(maxn + 1, "receive count");
    p.begin(a);
    RType s, r;
    zoo(a, si, b, s); zoo(a, ri, b, r);
    if (overlaps(r, rn)) throw Skip();
    char *sb = room(sn, s), *rb = room(rn, r);
    um.alloc(16);
    transfer(p, pat, sb, sn, s, rb, rn, r);
    state(mix(mix(mix(p.fp(), si * 100 + ri), sn * 10 + rn), pat * 100 + b.h));
    p.finish();
}
static void pairs() { guarded([] { pairs_over({MPI_INT, MPI_DOUBLE}, tier ? 4 : 3, PATTERNS); }); }
static void bases3() { guarded([] { pairs_over({MPI_CHAR, MPI_SHORT, MPI_LONG_DOUBLE, MPI_DOUBLE_INT, MPI_SHORT_INT, MPI_COMPLEX}, tier ? 3 : 2, tier ? PATTERNS : 3); }); }

// sequences of different basic types, laid out in different ways on the two sides
static void hetero()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a);
        RType D = r_basic(MPI_DOUBLE), C = r_basic(MPI_CHAR), I = r_basic(MPI_INT), S = r_basic(MPI_SHORT), L = r_basic(MPI_LONG);
        auto st = [&](RType &o, std::vector<int> bl, std::vector<long> d, std::vector<const RType *> ts) { mk_struct(a, o, (int)bl.size(), bl.data(), d.data(), ts.data()); };
        // element sequence D C I I S L for every layout
        static const int NL = 8;
        auto build = [&](int k, RType &o) {
            RType x, y;
            switch (k) {
            case 0: st(o, {1, 1, 2, 1, 1}, {0, 8, 12, 20, 24}, {&D, &C, &I, &S, &L}); break;
            case 1: st(o, {1, 1, 2, 1, 1}, {0, 8, 9, 17, 19}, {&D, &C, &I, &S, &L}); break;                 // packed tight, unaligned
            case 2: st(o, {1, 1, 2, 1, 1}, {40, 30, 20, 10, 0}, {&D, &C, &I, &S, &L}); break;               // reversed
            case 3: st(x, {1, 1}, {0, 8}, {&D, &C}); st(y, {2, 1, 1}, {0, 8, 16}, {&I, &S, &L}); st(o, {1, 1}, {0, 24}, {&x, &y}); break;
            case 4: st(x, {1, 1, 1}, {-8, 3, 4}, {&D, &C, &I}); st(y, {1, 1, 1}, {-4, 0, 8}, {&I, &S, &L}); st(o, {1, 1}, {16, 64}, {&x, &y}); break;
            case 5: { RType U = r_basic(MPI_UB); st(o, {1, 1, 2, 1, 1, 1}, {0, 8, 12, 20, 24, 100}, {&D, &C, &I, &S, &L, &U}); break; }
            case 6: st(x, {1, 1, 2, 1, 1}, {0, 8, 12, 20, 24}, {&D, &C, &I, &S, &L}); mk_contig(a, o, 2, x); break;
            case 7: st(x, {1, 1, 2, 1, 1}, {0, 8, 12, 20, 24}, {&D, &C, &I, &S, &L}); mk_vector(a, o, 2, 1, -3, x); break;
            }
            mk_commit(a, o);
        };
        RType s, r;
        build(choose(NL, "send layout"), s); build(choose(NL, "receive layout"), r);
        int pat = choose(PATTERNS, "posting pattern"), sn = choose(4, "send count"), rn = choose(4, "receive count");
        char *sb = room(sn, s), *rb = room(rn, r);
        um.alloc(16);
        transfer(p, pat, sb, sn, s, rb, rn, r);
        state(mix(mix(p.fp(), sn * 10 + rn), pat));
        p.finish();
    });
}
// every predefined type
static void predefined()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a);
        RType b = r_basic(basics()[choose((int)basics().size(), "type")].handle);
        int pat = choose(PATTERNS, "posting pattern"), sn = choose(4, "send count"), rn = choose(4, "receive count");
        static const int K[] = {0, 1, 7, 40};
        char *sb = room(K[sn], b), *rb = room(K[rn], b);
        um.alloc(16);
        transfer(p, pat, sb, K[sn], b, rb, K[rn], b);
        state(mix(mix(p.fp(), sn * 10 + rn), pat + b.h * 8));
        p.finish();
    });
}
// several messages under way at once: arguments of different operations must not be mixed up
static void several()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a);
        static const int Z[] = {0, 4, 10, 16};
        RType s[3], r[3]; int sn[3], rn[3];
        RType b = r_basic(MPI_INT);
        int n = 2;
        for (int i = 0; i < n; i++) {
            zoo(a, Z[choose(4, "send type")], b, s[i]); zoo(a, Z[choose(4, "receive type")], b, r[i]);
            sn[i] = choose(3, "send count"); rn[i] = choose(3, "receive count");
        }
        bool sends = choose(2, "receives first") == 0; int cross = choose(2, "second message first");
        char *sb[3], *rb[3];
        for (int i = 0; i < n; i++) { sb[i] = room(sn[i], s[i]); rb[i] = room(rn[i], r[i]); }
        um.alloc(16);
        for (int ph = 0; ph < 2; ph++) for (int k = 0; k < n; k++) {
            int i = ph && cross ? n - 1 - k : k;
            if ((ph == 0) == sends) p.send(SM_ISEND, 0, 5 + i, sb[i], sn[i], s[i]);
            else p.irecv(0, 5 + i, rb[i], rn[i], r[i]);
        }
        state(p.fp());
        p.finish();
    });
}
// buffers that end (or begin) exactly at the edge of accessible memory
static char *gp[2]; static const size_t GPN = 1 << 16;
static char *edge(int which, bool high, long n, const RType &t)
{
    if (!gp[which]) gp[which] = (char *)pages(GPN);
    long lo, hi; span_of(t, n, lo, hi);
    return high ? gp[which] + GPN - hi : gp[which] - lo;
}
static void edges()
{
    guarded([] {
        Api *a = pick_api();
        ok("Init", [&] { return a->Init(); });
        RType b = r_basic(pick(std::vector<int>{MPI_INT, MPI_DOUBLE_INT, MPI_CHAR, MPI_SHORT_INT}, "base type"));
        RType s, r;
        zoo(a, choose(ZOO, "send type"), b, s);
        int same = choose(3, "receive type: contiguous, same, vector");
        if (same == 1) r = s; else zoo(a, same == 0 ? 3 : 4, b, r);
        int sn = choose(3, "send count"), rn = choose(4, "receive count");
        if (overlaps(r, rn)) throw Skip();
        bool sh = choose(2, "send edge"), rh = choose(2, "receive edge");
        int pat = choose(3, "posting pattern");
        char *sb = edge(0, sh, sn, s), *rb = edge(1, rh, rn, r);
        long slo, shi, rlo, rhi; span_of(s, sn, slo, shi); span_of(r, rn, rlo, rhi);
        std::vector<char> src(shi - slo), dst(rhi - rlo);
        for (size_t i = 0; i < src.size(); i++) src[i] = sb[slo + i] = (char)(i * 37 + 11);
        for (size_t i = 0; i < dst.size(); i++) dst[i] = rb[rlo + i] = (char)(i * 91 + 5);
        int rq[2];
        note("%d x %s at the %s edge to %d x %s at the %s edge, pattern %d", sn, s.str().c_str(), sh ? "high" : "low", rn, r.str().c_str(), rh ? "high" : "low", pat);
        switch (pat) {
        case 0: ok("Isend", [&] { return a->Isend(sb, sn, s.h, 0, 5, MPI_COMM_WORLD, rq); }); ok("Recv", [&] { return a->Recv(rb, rn, r.h, 0, 5, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }); break;
        case 1: ok("Irecv", [&] { return a->Irecv(rb, rn, r.h, 0, 5, MPI_COMM_WORLD, rq); }); ok("Send", [&] { return a->Send(sb, sn, s.h, 0, 5, MPI_COMM_WORLD); }); break;
        case 2: ok("Sendrecv", [&] { return a->Sendrecv(sb, sn, s.h, 0, 5, rb, rn, r.h, 0, 5, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }); break;
        }
        r_copy(src.data() - slo, sn, s, dst.data() - rlo, rn, r, true);
        if (src.size() && memcmp(src.data(), sb + slo, src.size())) fail("the send buffer changed");
        if (dst.size() && memcmp(dst.data(), rb + rlo, dst.size())) fail("the receive buffer is not what the message describes");
        state(mix(mix(mix(slo, shi), mix(rlo, rhi)), mix(sn * 4 + rn, sh * 2 + rh + 4 * pat)));
    });
}
// far apart: displacements, strides and extents beyond 2^31 and 2^32
static const long GB = 1L << 30;
struct Far { char *base; };
static char *far_base[2];
static const long FARSPAN = 28 * GB;      // reserved, mapped on demand in small windows
static char *far_at(int which)
{
    if (!far_base[which]) {
        void *p = mmap(NULL, FARSPAN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("reserve"); _exit(3); }
        far_base[which] = (char *)p + FARSPAN / 2;
    }
    return far_base[which];
}
static void open_window(int which, long off, std::map<long, int> &w)   // page index -> opened
{
    long pg = off >= 0 ? off / 4096 : -((-off + 4095) / 4096);
    if (w[pg]++) return;
    mprotect(far_at(which) + pg * 4096, 4096, PROT_READ | PROT_WRITE);
    for (int i = 0; i < 4096; i++) far_at(which)[pg * 4096 + i] = (char)(i * 31 + pg * 7 + which);
}
static const int FARK = 14;
static void far_type(Api *a, int k, const RType &b, RType &o)
{
    RType x, LB = r_basic(MPI_LB), UB = r_basic(MPI_UB);
    long e = b.extent();
    auto hx = [&](RType &o, std::vector<int> bl, std::vector<long> d, const RType &t) { mk_hindexed(a, o, (int)bl.size(), bl.data(), d.data(), t); };
    auto st = [&](RType &o, std::vector<int> bl, std::vector<long> d, std::vector<const RType *> ts) { mk_struct(a, o, (int)bl.size(), bl.data(), d.data(), ts.data()); };
    switch (k) {
    case 0: hx(o, {1, 1}, {0, 2 * GB - e}, b); break;
    case 1: hx(o, {1, 1}, {0, 2 * GB}, b); break;
    case 2: hx(o, {1, 2}, {4 * GB + 16, 0}, b); break;
    case 3: hx(o, {1, 1}, {-2 * GB - 8, 8}, b); break;
    case 4: hx(o, {1, 1}, {-4 * GB - 64, 4 * GB + 64}, b); break;
    case 5: mk_vector(a, o, 2, 1, (int)(2 * GB / e + 3 > 0x7fffffff ? 0x7fffffff : 2 * GB / e + 3), b); break;
    case 6: mk_hvector(a, o, 3, 1, 2 * GB + 32, b); break;
    case 7: mk_hvector(a, o, 2, 1, -3 * GB, b, true); break;
    case 8: { int bl[] = {1, 1}, d[] = {-(int)(GB / e) * 3 / 2, 0x7ffffff0 / (int)e}; mk_indexed(a, o, 2, bl, d, b); break; }
    case 9: { int d[] = {0, 0x40000000 / (int)e * 3 / 2}; mk_iblock(a, o, 2, 1, d, b); break; }
    case 10: st(o, {1, 1, 1}, {0, 8, 3 * GB}, {&b, &b, &UB}); break;                     // extent 3 GB
    case 11: st(x, {1, 1}, {0, 2 * GB}, {&b, &UB}); mk_contig(a, o, 3, x); break;
    case 12: st(x, {1, 1, 1}, {-3 * GB, 0, 64}, {&LB, &b, &UB}); mk_vector(a, o, 2, 1, 1, x); break;
    case 13: hx(x, {1, 1}, {0, 3 * GB}, b); hx(o, {1, 1}, {0, 256}, x); break;
    }
    mk_commit(a, o);
}
static void far()
{
    guarded([] {
        Api *a = api_c;
        ok("Init", [&] { return a->Init(); });
        RType b = r_basic(pick(std::vector<int>{MPI_INT, MPI_DOUBLE, MPI_SHORT_INT}, "base type"));
        RType t, c; far_type(a, choose(FARK, "type"), b, t);
        mk_contig(a, c, 1, b); mk_commit(a, c);
        int n = 1 + choose(3, "items"), dir = choose(3, "direction"), pat = choose(3, "posting pattern");
        RType &s = dir == 1 ? c : t, &r = dir == 0 ? c : t;
        int cn = (int)(n * t.count() / b.count());
        int sn = dir == 1 ? cn : n, rn = dir == 0 ? cn : n;
        std::map<long, int> w[2];
        long lo, hi; span_of(t, n, lo, hi);
        if (hi > FARSPAN / 2 - 8192 || lo < -FARSPAN / 2 + 8192) throw Skip();
        auto openall = [&](int which, const RType &t, int n) {
            for (long k = 0; k < n; k++) for (auto &x : t.map) for (long o : {-4096L, 0L, (long)x.len, 4096L}) open_window(which, x.disp + k * t.extent() + o, w[which]);
        };
        openall(0, s, sn); openall(1, r, rn);
        char *sb = far_at(0), *rb = far_at(1);
        // expected
        std::map<long, std::vector<char>> want[2];
        for (int z = 0; z < 2; z++) for (auto &q : w[z]) want[z][q.first].assign(far_at(z) + q.first * 4096, far_at(z) + q.first * 4096 + 4096);
        auto at = [&](int z, long off) -> char & { long pg = off >= 0 ? off / 4096 : -((-off + 4095) / 4096); return want[z][pg][off - pg * 4096]; };
        long total = std::min(sn * s.count(), rn * r.count());
        for (long i = 0; i < total; i++) {
            const Elem &x = s.map[i % s.count()], &y = r.map[i % r.count()];
            for (int k = 0; k < y.len; k++) at(1, y.disp + (i / r.count()) * r.extent() + k) = at(0, x.disp + (i / s.count()) * s.extent() + k);
        }
        int rq[2];
        note("%d x %s -> %d x %s pattern %d", sn, s.str().c_str(), rn, r.str().c_str(), pat);
        switch (pat) {
        case 0: ok("Isend", [&] { return a->Isend(sb, sn, s.h, 0, 5, MPI_COMM_WORLD, rq); }); ok("Recv", [&] { return a->Recv(rb, rn, r.h, 0, 5, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }); break;
        case 1: ok("Irecv", [&] { return a->Irecv(rb, rn, r.h, 0, 5, MPI_COMM_WORLD, rq); }); ok("Send", [&] { return a->Send(sb, sn, s.h, 0, 5, MPI_COMM_WORLD); }); break;
        case 2: ok("Sendrecv", [&] { return a->Sendrecv(sb, sn, s.h, 0, 5, rb, rn, r.h, 0, 5, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }); break;
        }
        bool bad = false;
        for (int z = 0; z < 2; z++) for (auto &q : want[z]) if (memcmp(q.second.data(), far_at(z) + q.first * 4096, 4096)) bad = true;
        for (int z = 0; z < 2; z++) for (auto &q : w[z]) { madvise(far_at(z) + q.first * 4096, 4096, MADV_DONTNEED); mprotect(far_at(z) + q.first * 4096, 4096, PROT_NONE); }
        if (bad) fail("a transfer over a large span did not give the described result");
        state(mix(mix(lo, hi), mix(n * 4 + dir, pat)));
    });
}
// long messages and datatypes with many elements
static void longmsg()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a);
        RType b = r_basic(pick(std::vector<int>{MPI_CHAR, MPI_INT, MPI_DOUBLE}, "base type"));
        static const int N[] = {255, 256, 1000, 4095, 4096, 16385, 32767, 32768, 65535, 65536, 70001, 131073};
        int n = N[choose(12, "elements")]; if (n > 20000 && b.extent() > (n > 66000 ? 1 : 4)) throw Skip();
        auto side = [&](RType &t, int &cnt) {
            switch (choose(4, "shape")) {
            case 0: t = b; cnt = n; return;
            case 1: mk_contig(a, t, n, b); cnt = 1; break;
            case 2: mk_vector(a, t, n, 1, 2, b); cnt = 1; break;
            case 3: mk_vector(a, t, 5, 1, 2, b); cnt = n / 5; break;
            }
            mk_commit(a, t);
        };
        RType s, r; int sn, rn; side(s, sn); side(r, rn);
        int pat = choose(3, "posting pattern");
        char *sb = room(sn, s), *rb = room(rn, r); um.alloc(16);
        transfer(p, pat, sb, sn, s, rb, rn, r);
        state(mix(mix(p.fp(), n), pat));
        p.finish();
    });
}
// every number of items up to forty, as much, less or more room
static void medium()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a);
        static const int B[] = {MPI_CHAR, MPI_SHORT, MPI_INT, MPI_DOUBLE, MPI_LONG_DOUBLE}, L[] = {0, 3, 4, 10, 16, 5};
        RType b = r_basic(B[choose(5, "base type")]), s, r;
        int si = L[choose(6, "send layout")], ri = L[choose(6, "receive layout")], sn = choose(41, "send count"), how = choose(5, "receive count");
        zoo(a, si, b, s); zoo(a, ri, b, r);
        long e = sn * s.count(), x = e / r.count(); int rn = (int)(how == 0 ? x : how == 1 ? x + 1 : how == 2 ? x - 1 : how == 3 ? x / 2 : x + 17);
        if (rn < 0 || overlaps(r, rn)) throw Skip();
        int pat = choose(4, "posting pattern");
        char *sb = room(sn, s), *rb = room(rn, r); um.alloc(16);
        transfer(p, pat, sb, sn, s, rb, rn, r);
        state(mix(mix(mix(p.fp(), sn), pat), si * 100 + ri));
        p.finish();
    });
}
static void giants()
{
    Api *a = pick_api(); pp.begin(a);
    if (!tier && a == api_f) throw Skip();
    int way = choose(2, "way"), k = choose(tier ? 4 : 1, "items");
    static const int K[][2] = {{2, 3}, {2, 2}, {3, 2}, {8, 1000}};
    giant(a, way, tier && k == 3 ? (1L << 32) + (1 << 20) : (1L << 31) + 100000, K[k][0], K[k][1]);
}
static void bottom() { guarded([] { bottom_space(api_c, pp, 0, 7); }); }
static void replaced_sp() { replaced_moves(pick_api(), pp, 0, 7); }
std::vector<Space> mc_spaces()
{
    return {
        {"pairs", "all pairs of 30 layouts (every constructor, gaps, overlaps on the sending side, negative and descending displacements, markers, nesting) over int and double, counts 0..3 (thorough 4) on both sides, 8 posting patterns, C and Fortran; every byte of user memory compared", pairs},
        {"bases", "the same pairs over six further base types including the pair types", bases3},
        {"hetero", "8 layouts of one sequence of five basic types on either side, counts 0..3, 8 posting patterns", hetero},
        {"predefined", "every predefined datatype, counts 0,1,7,40 on either side, 8 posting patterns", predefined},
        {"several", "two messages under way at once with every combination of 4 layouts and counts 0..2 on each side, both posting orders, delivered in order or crossed", several},
        {"edges", "buffers whose described elements touch an inaccessible page below or above: 30 layouts, counts 0..2 sent and 0..3 received", edges},
        {"far", "layouts spanning more than 2^31 and 2^32 bytes (displacements, strides, extents, item offsets; negative too), as source, destination or both", far},
        {"giant", "2^31+100000 (thorough also 2^32+2^20) bytes really copied, as items of different sizes on the two sides, both posting orders", giants},
        {"bottom", "buffers given as MPI_BOTTOM with three kinds of datatypes of absolute addresses of 30 layouts over three bases at either or both sides, seven ways of sending; empty messages without buffers (C; the Fortran routines in C22)", bottom},
        {"medium", "0..40 items of six layouts over five bases received in six layouts with as much, less or more room, four posting patterns", medium},
        {"amounts", AMOUNTS_TEXT "seven ways of sending", [] { guarded([] { amounts(pick_api(), pp, 0, 7); }); }},
        {"values", VALUES_TEXT "seven ways of sending", [] { guarded([] { values_space(pick_api(), pp, 0, 7); }); }},
        {"offsets", OFFSETS_TEXT "seven ways of sending", [] { guarded([] { offsets_space(pick_api(), pp, 0, 7); }); }},
        {"long", "messages of 255..131073 elements in four shapes on either side", longmsg},
        {"aged", AGED_WAYS_TEXT "each sent and received in seven ways", [] { guarded([] { aged_ways(0, 7); }); }},
        {"replaced", REPLACED_TEXT "seven ways of sending either", replaced_sp},
    };
}
