#include "aged.h"
#include "ways.h"
#include <functional>
#include "replaced.h"
using namespace mc;
const char *mc_property = "C26";
#ifdef TC
static const bool checking = true;
#else
static const bool checking = false;
#endif
static const int RW[] = {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 18, 19, 20};   // ways in which two types meet
static const int NRW = 16;
// the calls of one way of moving data; the last element is how it went
static Term raw(Api *a, int way, char *s, int n, int th, char *r, int m, int uh)
{
    int zero = 0, W = MPI_COMM_WORLD, h1 = -1, h2 = -1; volatile int rc = 0; MPI_Status st;
    std::vector<std::function<int()>> f;
    switch (way) {
    case 0: f = {[&] { return a->Isend(s, n, th, 0, 5, W, &h1); }, [&] { return a->Recv(r, m, uh, 0, 5, W, &st); }, [&] { return a->Wait(&h1, &st); }}; break;
    case 1: f = {[&] { return a->Irecv(r, m, uh, 0, 5, W, &h1); }, [&] { return a->Send(s, n, th, 0, 5, W); }, [&] { return a->Wait(&h1, &st); }}; break;
    case 2: f = {[&] { return a->Irecv(r, m, uh, 0, MPI_ANY_TAG, W, &h1); }, [&] { return a->Ssend(s, n, th, 0, 5, W); }, [&] { return a->Wait(&h1, &st); }}; break;
    case 3: f = {[&] { return a->Irecv(r, m, uh, MPI_ANY_SOURCE, 5, W, &h1); }, [&] { return a->Rsend(s, n, th, 0, 5, W); }, [&] { return a->Wait(&h1, &st); }}; break;
    case 4: f = {[&] { return a->Irecv(r, m, uh, 0, 5, W, &h1); }, [&] { return a->Irsend(s, n, th, 0, 5, W, &h2); }, [&] { return a->Wait(&h1, &st); }, [&] { return a->Wait(&h2, &st); }}; break;
    case 5: f = {[&] { return a->Isend(s, n, th, 0, 5, W, &h2); }, [&] { return a->Irecv(r, m, uh, 0, 5, W, &h1); }, [&] { return a->Wait(&h1, &st); }, [&] { return a->Wait(&h2, &st); }}; break;
    case 6: f = {[&] { return a->Sendrecv(s, n, th, 0, 5, r, m, uh, 0, 5, W, &st); }}; break;
    case 8: f = {[&] { return a->Gather(s, n, th, r, m, uh, 0, W); }}; break;
    case 9: f = {[&] { return a->Gatherv(s, n, th, r, &m, &zero, uh, 0, W); }}; break;
    case 10: f = {[&] { return a->Allgather(s, n, th, r, m, uh, W); }}; break;
    case 11: f = {[&] { return a->Allgatherv(s, n, th, r, &m, &zero, uh, W); }}; break;
    case 12: f = {[&] { return a->Scatter(s, n, th, r, m, uh, 0, W); }}; break;
    case 13: f = {[&] { return a->Scatterv(s, &n, &zero, th, r, m, uh, 0, W); }}; break;
    case 18: f = {[&] { return a->Alltoall(s, n, th, r, m, uh, W); }}; break;
    case 19: f = {[&] { return a->Alltoallv(s, &n, &zero, th, r, &m, &zero, uh, W); }}; break;
    case 20: f = {[&] { return a->Alltoallw(s, &n, &zero, &th, r, &m, &zero, &uh, W); }}; break;
    }
    for (auto &g : f) {
        Term t = run([&] { rc = g(); });
        if (t.kind != RETURNED) return t;
        if (rc != MPI_SUCCESS) fail("%s returned %d", WAY[way], (int)rc);
    }
    return Term{RETURNED, 0, ""};
}
// the bytes of the received elements of the reference image are what the library left there
static void dontcare(char *r, long elems, const RType &u)
{
    long e = u.extent(), c = u.count();
    for (long i = 0; i < elems; i++) { const Elem &x = u.map[i % c]; char *q = r + x.disp + (i / c) * e; memcpy(um.ref(q), q, x.len); }
}
static void transfer(P2P &p, int way, int n, const RType &t, int m, const RType &u)
{
    long ns = n * t.count(), nd = m * u.count(), moved = std::min(ns, nd);
    bool coll = way >= 8;
    if (coll && nd > ns) throw Skip();                  // receiving more than is there ends a collective anyway
    bool agree = r_types_agree(n, t, m, u, true), same = true;
    for (long i = 0; i < moved; i++) if (t.map[i % t.count()].len != u.map[i % u.count()].len) same = false;
    char *s = room(n + (same ? 0 : 8), t); um.alloc(64); char *r = room(m, u); um.alloc(64);
    note("%s of %d x %s received as %d x %s: %s", WAY[way], n, t.str().c_str(), m, u.str().c_str(), agree ? "agree" : "differ");
    Term e = raw(p.api, way, s, n, t.h, r, m, u.h);
    if (const char *b = api_bad()) fail("%s: %s", WAY[way], b);
    if (agree || !checking) {
        if (e.kind != RETURNED) fail("%s of %d x %s received as %d x %s %s (code %d %s)", WAY[way], n, t.str().c_str(), m, u.str().c_str(), kindname(e.kind), e.code, e.why ? e.why : "");
        if (same) r_copy(um.ref(s), n, t, um.ref(r), m, u, true); else dontcare(r, moved, u);
        um.check(WAY[way]);
    } else {
        if (e.kind == RETURNED) fail("%s of %d x %s received as %d x %s was not refused", WAY[way], n, t.str().c_str(), m, u.str().c_str());
        if (e.kind == CRASHED || e.kind == HUNG || (e.kind == EXITED && !(e.code & 255))) fail("%s %s (code %d)", WAY[way], kindname(e.kind), e.code);
        dontcare(r, moved, u);
        um.check("the refused transfer");
    }
}
static bool loose(const RType &t) { return t.h == MPI_PACKED; }      // MPI_PACKED stands for any type
// every pair of predefined types
static void predefined()
{
    P2P &p = pp; Api *a = pick_api(); p.begin(a);
    auto &b = basics();
    RType t = r_basic(b[choose((int)b.size(), "sent type")].handle), u = r_basic(b[choose((int)b.size(), "received type")].handle);
    if (loose(t) != loose(u)) throw Skip();
    int way = RW[choose(NRW, "way")], n = choose(3, "send count"), m = choose(3, "receive count");
    transfer(p, way, n, t, m, u);
    state(mix(mix(t.h + 100, u.h + 100), mix(way, n * 8 + m)));
}
static RType K(int k) { static const int H[] = {MPI_INT, MPI_FLOAT, MPI_INTEGER, MPI_DOUBLE, MPI_CHAR, MPI_BYTE}; return r_basic(H[k]); }
// every pair of short type sequences, the elements spread out differently on the two sides
static void sequences()
{
    P2P &p = pp; Api *a = pick_api(); p.begin(a);
    int nk = tier ? 4 : 3, ls = 1 + choose(3, "length sent"), lr = 1 + choose(3, "length received");
    auto mk = [&](int l, int shape, RType &o) {
        RType k[4]; const RType *q[4]; int bl[4]; long d[4];
        for (int i = 0; i < l; i++) { k[i] = K(choose(nk, "kind")); q[i] = &k[i]; bl[i] = 1; d[i] = shape ? (l - 1 - i) * 16 : i * 8; }
        mk_struct(a, o, l, bl, d, q); mk_commit(a, o);
    };
    RType t, u; mk(ls, 0, t); mk(lr, 1, u);
    static const int W3[] = {0, 1, 6, 5, 8, 13, 18, 20};
    int way = W3[choose(8, "way")], n = choose(4, "send count"), m = choose(4, "receive count");
    transfer(p, way, n, t, m, u);
    uint64_t h = mix(way, n * 8 + m); for (auto &e : t.map) h = mix(h, e.kind); for (auto &e : u.map) h = mix(h, 100 + e.kind);
    state(h);
}
// one odd element anywhere in a long message
static void odd()
{
    P2P &p = pp; Api *a = pick_api(); p.begin(a);
    static const int N[] = {1, 2, 5, 16, 33, 64, 100, 255, 256, 257, 1000, 4097};
    int n = N[choose(12, "elements")], k = 0;
    if (n <= 100) k = choose(n + 1, "odd element");
    else { const int at[] = {0, 1, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 4095, 4096, n / 2, n - 2, n - 1, n}; k = at[choose(24, "odd element")]; if (k > n) throw Skip(); }
    int side = choose(2, "on the sending side"), m = choose(3, "received"), way = RW[choose(NRW, "way")];
    RType I = K(0), F = K(1), A, B;
    mk_contig(a, A, n, I); mk_commit(a, A);
    { const RType *q[3] = {&I, &F, &I}; int bl[3] = {k, 1, n - k - 1}; long d[3] = {0, 4L * k, 4L * k + 4}; if (k == n) { bl[0] = n; bl[1] = bl[2] = 0; } mk_struct(a, B, 3, bl, d, q); mk_commit(a, B); }
    // one item sent; received as n, n/2 or n-1 ints
    int want = m == 0 ? n : m == 1 ? n / 2 : n - 1;
    if (side) transfer(p, way, 1, B, want, I);
    else { RType u; const RType *q[3] = {&I, &F, &I}; int b1 = std::min(k, want); int bl[3] = {b1, k < want, k < want ? want - k - 1 : 0}; long d[3] = {0, 4L * k, 4L * k + 4}; mk_struct(a, u, 3, bl, d, q); mk_commit(a, u); transfer(p, way, n, I, 1, u); }
    state(mix(mix(n, k), side * 64 + m * 16 + way));
}
// however the types were constructed
static void layouts()
{
    P2P &p = pp; Api *a = pick_api(); p.begin(a);
    RType x = K(choose(2, "base")), y = K(choose(4, "base")), t, u;
    int i = choose(ZOO, "layout"), j = choose(ZOO, "layout"), way = RW[choose(NRW, "way")], n = choose(3, "send count"), m = choose(3, "receive count");
    zoo(a, i, x, t); zoo(a, j, y, u);
    if (overlaps(u, m)) throw Skip();
    transfer(p, way, n, t, m, u);
    state(mix(mix(i, j), mix(way, n * 8 + m)) + x.h * 7 + y.h);
}
// several messages under way: exactly the matches whose types differ are refused
static void history()
{
    P2P &p = pp; Api *a = pick_api(); p.begin(a);
    struct M { int kind, n; bool any; }; std::vector<M> sq, rq;
    int depth = tier ? 6 : 5;
    RType ty[3] = {K(0), K(1), K(2)};
    for (int d = 0; d < depth; d++) {
        int e = choose(9, "operation"), h = -1; char *b = room(3, ty[0]); Term t; volatile int rc = 0; bool refuse = false;
        if (e < 4) {            // sends: int, float, two ints, none
            int kind = e == 1, n = e == 2 ? 2 : e == 3 ? 0 : 1;
            t = run([&] { rc = a->Isend(b, n, ty[kind].h, 0, 5, MPI_COMM_WORLD, &h); });
            note("Isend(%d of kind %d)", n, kind);
            if (rq.empty()) sq.push_back({kind, n, false});
            else { refuse = rq[0].kind != kind && std::min(n, rq[0].n) > 0; rq.erase(rq.begin()); }
        } else if (e < 8) {     // receives
            int kind = e == 5 ? 1 : e == 7 ? 2 : 0, n = e == 6 ? 2 : 1;
            t = run([&] { rc = a->Irecv(b, n, ty[kind].h, 0, e == 6 ? MPI_ANY_TAG : 5, MPI_COMM_WORLD, &h); });
            note("Irecv(%d of kind %d)", n, kind);
            if (sq.empty()) rq.push_back({kind, n, false});
            else { refuse = sq[0].kind != kind && std::min(n, sq[0].n) > 0; sq.erase(sq.begin()); }
        } else {                // to nobody: never refused
            MPI_Status st;
            t = run([&] { rc = a->Sendrecv(b, 1, MPI_FLOAT, MPI_PROC_NULL, 5, b + 8, 1, MPI_INT, MPI_PROC_NULL, 5, MPI_COMM_WORLD, &st); });
        }
        if (refuse && checking) {
            if (t.kind == RETURNED) fail("a message of another type was not refused");
            if (t.kind == CRASHED || t.kind == HUNG || (t.kind == EXITED && !(t.code & 255))) fail("refusing a message: %s (code %d)", kindname(t.kind), t.code);
            state(1); return;
        }
        if (t.kind != RETURNED || rc) fail("a transfer %s (code %d, returned %d)", kindname(t.kind), t.code, (int)rc);
        uint64_t s = d; for (auto &x : sq) s = mix(s, x.kind * 4 + x.n); for (auto &x : rq) s = mix(s, 50 + x.kind * 4 + x.n); state(s);
    }
}
// types that are not significant do not matter
static void insignificant()
{
    P2P &p = pp; Api *a = pick_api(); p.begin(a);
    auto &b = basics();
    int t = b[choose((int)b.size(), "insignificant type")].handle, u = b[choose((int)b.size(), "type")].handle, e = choose(10, "call"), n = choose(3, "count");
    void *in = a == api_f ? (void *)f_in_place : MPI_IN_PLACE; char *r = um.alloc(256, 16); int zero = 0, W = MPI_COMM_WORLD;
    Term k; volatile int rc = 0; MPI_Status st;
    k = run([&] {
        switch (e) {
        case 0: rc = a->Gather(in, 2, t, r, n, u, 0, W); break;
        case 1: rc = a->Gatherv(in, 2, t, r, &n, &zero, u, 0, W); break;
        case 2: rc = a->Scatter(r, n, u, in, 2, t, 0, W); break;
        case 3: rc = a->Scatterv(r, &n, &zero, u, in, 2, t, 0, W); break;
        case 4: rc = a->Allgather(in, 2, t, r, n, u, W); break;
        case 5: rc = a->Allgatherv(in, 2, t, r, &n, &zero, u, W); break;
        case 6: rc = a->Alltoall(in, 2, t, r, n, u, W); break;
        case 7: rc = a->Alltoallv(in, &zero, &zero, t, r, &n, &zero, u, W); break;
        case 8: rc = a->Gather(r, n, t, r + 128, 0, u, 0, W); break;
        case 9: rc = a->Scatter(r, n, t, r + 128, 0, u, 0, W); break;
        }
    });
    if (k.kind != RETURNED || rc) fail("call %d with insignificant types %s (code %d, returned %d)", e, kindname(k.kind), k.code, (int)rc);
    p.after("the call");
    state(mix(mix(t + 99, u + 99), e * 4 + n));
}
// what was found about a datatype does not hold for another in its place
static void replaced_sp()
{
    P2P &p = pp; Api *a = pick_api(); p.begin(a);
    static RType b0, b1, x; b0 = K(choose(2, "base of the freed datatype")); b1 = K(choose(2, "base of the new one")); x = K(choose(2, "other side"));
    static const int W[] = {0, 1, 6, 8, 13, 20};
    int way = W[choose(6, "way")], use = choose(6, "use of the first one"), back = choose(2, "direction");
    RType &t = replaced(a, b0, b1, [&](const RType &old) { replaced_use(a, p, use, way, back, old, b0, 1); });
    if (back && overlaps(t, 1)) throw Skip();
    if (back) transfer(p, way, (int)t.count(), x, 1, t); else transfer(p, way, 1, t, (int)t.count(), x);
    state(mix(mix(way, use), back * 8 + (b0.h == b1.h) * 2 + (b1.h == x.h)));
}
// after thousands of earlier operations
static void aged()
{
    int k = choose(AGE_ALL, "earlier operations"), g = choose(ages(), "how many"), way = RW[choose(NRW, "way")], x = choose(3, "sent"), y = choose(3, "received");
    P2P &p = pp; Api *a = tier ? pick_api() : (k + g) & 1 ? api_f : api_c; p.begin(a);
    int other = -7; ok("Comm_dup", [&] { return a->Comm_dup(MPI_COMM_WORLD, &other); });
    RType t, u, b = K(x), c = K(y); age(p, k, AGE[g][0], other); mk_contig(a, t, 3, b); mk_commit(a, t); age(p, k, AGE[g][1], other); mk_vector(a, u, 3, 1, 2, c); mk_commit(a, u);
    transfer(p, way, 1, t, 1, u);
    state(mix(k * 16 + g, mix(way, x * 4 + y)));
}
std::vector<Space> mc_spaces()
{
    return {
        {"predefined", "every pair of predefined datatypes in 16 ways of meeting, counts 0..2 on both sides", predefined},
        {"sequences", "every pair of sequences of one to three basic types out of three (thorough four), counts 0..3 on both sides, eight ways", sequences},
        {"odd", "one odd element at every position of messages of 1 to 100 elements and at 24 places of ones of 255 to 4097, on either side, received whole or in part, 16 ways", odd},
        {"layouts", "30 layouts over two bases against 30 layouts over four bases, counts 0..2, 16 ways", layouts},
        {"history", "all sequences of five (thorough six) sends and receives of mixed types", history},
        {"insignificant", "every pair of predefined types where one is not significant or nothing is transferred", insignificant},
        {"aged", "200..66000 (thorough 131071) earlier operations (8, thorough 11 numbers) of sixteen kinds before and between the two datatypes, over three base types each, 16 ways", aged},
        {"replaced", REPLACED_TEXT "over the same or another base type, sent or received in six ways", replaced_sp},
    };
}
