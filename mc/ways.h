// 21 ways of moving data from one buffer to another, through point-to-point, packing and every copying collective.
#pragma once
#include "p2p.h"
#include "zoo.h"
static const int WAYS = 21;
static const char *const WAY[] = {"Isend then Recv", "Irecv then Send", "Irecv then Ssend", "Irecv then Rsend", "Irecv then Irsend", "Isend then Irecv", "Sendrecv", "Pack and Unpack", "Gather", "Gatherv", "Allgather", "Allgatherv",
    "Scatter", "Scatterv", "Reduce", "Allreduce", "Reduce_scatter", "Scan", "Alltoall", "Alltoallv", "Alltoallw"};
static void move_bufs(Api *a, P2P &p, int way, char *s, const RType &t, int n, char *r, const RType &u, int m)
{
    int zero = 0, W = MPI_COMM_WORLD, th = t.h, uh = u.h;
    mc::note("%s of %d x type %d", WAY[way], n, t.h);
    switch (way) {
    case 0: p.send(SM_ISEND, 0, 5, s, n, t); p.recv(0, 5, r, m, u); p.wait((int)p.reqs.size() - 1, 1); return;
    case 1: case 2: case 3: { p.irecv(0, 5, r, m, u); p.send(way == 1 ? SM_SEND : way == 2 ? SM_SSEND : SM_RSEND, 0, 5, s, n, t); p.wait((int)p.reqs.size() - 1); } return;
    case 4: p.irecv(0, 5, r, m, u); p.send(SM_IRSEND, 0, 5, s, n, t); p.test((int)p.reqs.size() - 2); p.wait((int)p.reqs.size() - 1, 1); return;
    case 5: p.send(SM_ISEND, 0, 5, s, n, t); p.irecv(0, 5, r, m, u); p.test((int)p.reqs.size() - 1); p.wait((int)p.reqs.size() - 2, 1); return;
    case 6: p.sendrecv(0, 5, s, n, t, 5, r, m, u); return;
    case 7: {
        long bytes = n * t.size(); char *b = um.alloc(bytes + 8); int pos = 0;
        mc::ok("Pack", [&] { return a->Pack(s, n, t.h, b, (int)bytes, &pos, W); });
        if (pos != bytes) mc::fail("packing %d x %s gives %d bytes, expected %ld", n, t.str().c_str(), pos, bytes);
        char *o = um.ref(b); long ext = t.extent();
        for (int k = 0; k < n; k++) for (auto &e : t.map) { memcpy(o, um.ref(s) + k * ext + e.disp, e.len); o += e.len; }
        um.check("Pack"); pos = 0;
        mc::ok("Unpack", [&] { return a->Unpack(b, (int)bytes, &pos, r, m, u.h, W); });
        break;
    }
    case 8: mc::ok("Gather", [&] { return a->Gather(s, n, th, r, m, uh, 0, W); }); break;
    case 9: mc::ok("Gatherv", [&] { return a->Gatherv(s, n, th, r, &m, &zero, uh, 0, W); }); break;
    case 10: mc::ok("Allgather", [&] { return a->Allgather(s, n, th, r, m, uh, W); }); break;
    case 11: mc::ok("Allgatherv", [&] { return a->Allgatherv(s, n, th, r, &m, &zero, uh, W); }); break;
    case 12: mc::ok("Scatter", [&] { return a->Scatter(s, n, th, r, m, uh, 0, W); }); break;
    case 13: mc::ok("Scatterv", [&] { return a->Scatterv(s, &n, &zero, th, r, m, uh, 0, W); }); break;
    case 14: mc::ok("Reduce", [&] { return a->Reduce(s, r, m, uh, MPI_SUM, 0, W); }); break;
    case 15: mc::ok("Allreduce", [&] { return a->Allreduce(s, r, m, uh, MPI_SUM, W); }); break;
    case 16: mc::ok("Reduce_scatter", [&] { return a->Reduce_scatter(s, r, &m, uh, MPI_SUM, W); }); break;
    case 17: mc::ok("Scan", [&] { return a->Scan(s, r, m, uh, MPI_SUM, W); }); break;
    case 18: mc::ok("Alltoall", [&] { return a->Alltoall(s, n, th, r, m, uh, W); }); break;
    case 19: mc::ok("Alltoallv", [&] { return a->Alltoallv(s, &n, &zero, th, r, &m, &zero, uh, W); }); break;
    case 20: mc::ok("Alltoallw", [&] { return a->Alltoallw(s, &n, &zero, &th, r, &m, &zero, &uh, W); }); break;
    }
    r_copy(um.ref(s), n, t, um.ref(r), m, u, true);
    p.after(WAY[way]);
}
static void move(Api *a, P2P &p, int way, const RType &t, int n, const RType &u, int m)
{
    char *s = room(n, t), *r = room(m, u);
    move_bufs(a, p, way, s, t, n, r, u, m);
}
// the same with the buffers given as MPI_BOTTOM and datatypes of absolute addresses (sides: 1 source, 2 destination)
static void move_bottom(Api *a, P2P &p, int way, const RType &t, int n, const RType &u, int m, int sides, int con)
{
    char *s = room(n, t), *r = room(m, u), *bottom = (char *)MPI_BOTTOM;
    auto absolute = [&](char *b, int n, const RType &t, RType &o) {
        int one = 1; long d = (long)b; const RType *tt = &t;
        if (con == 0) mk_hindexed(a, o, 1, &n, &d, t);
        else if (con == 1) mk_struct(a, o, 1, &n, &d, &tt);
        else { RType x; mk_contig(a, x, n, t); tt = &x; mk_struct(a, o, 1, &one, &d, &tt); }
        mk_commit(a, o);
    };
    static RType at, au; at = RType(); au = RType();
    if (sides & 1) absolute(s, n, t, at);
    if (sides & 2) absolute(r, m, u, au);
    move_bufs(a, p, way, sides & 1 ? bottom : s, sides & 1 ? at : t, sides & 1 ? 1 : n, sides & 2 ? bottom : r, sides & 2 ? au : u, sides & 2 ? 1 : m);
}
// buffers at MPI_BOTTOM, and nothing at all moved from or to no buffer
static void bottom_space(Api *a, P2P &p, int lo, int hi)
{
    p.begin(a);
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE_INT};
    static RType b, t, u; b = r_basic(B[mc::choose(3, "base type")]);
    int way = lo + mc::choose(hi - lo, "way"); bool red = way >= 14 && way <= 17;
    int i = mc::choose(ZOO, "layout"), k = mc::choose(4, "other layout"), n = mc::choose(3, "count"), sides = 1 + mc::choose(3, "sides"), con = mc::choose(4, "constructor"), back = mc::choose(2, "direction");
    static const int L[] = {0, 4, 10, 16};
    zoo(a, i, b, t); zoo(a, red ? i : L[k], b, u);
    if (con == 3) {         // no items: the buffer is MPI_BOTTOM, at the sides chosen
        if (n || (red && (k || back))) throw mc::Skip();
        if (back) std::swap(t, u);
        char *s = sides & 1 ? (char *)MPI_BOTTOM : room(1, t), *r = sides & 2 ? (char *)MPI_BOTTOM : room(1, u);
        move_bufs(a, p, way, s, t, 0, r, u, way >= 7 || sides & 2 ? 0 : 1);
    } else {
        if (red) throw mc::Skip();
        int m = u.count() ? (int)((n * t.count() + u.count() - 1) / u.count()) : 0;
        if (way >= 7 && n * t.count() != m * u.count()) throw mc::Skip();
        if (back) { std::swap(t, u); std::swap(n, m); }
        if (overlaps(u, m)) throw mc::Skip();
        move_bottom(a, p, way, t, n, u, m, sides, con);
    }
    mc::state(mc::mix(mc::mix(i * 8 + k, way), mc::mix(n * 4 + sides, con * 2 + back)));
    p.finish();
}
// many items: around every power of two, and between
static void amounts(Api *a, P2P &p, int lo, int hi)
{
    p.begin(a);
    static const int N[] = {63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2000, 2048, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 20000, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 70001, 100000, 131073};
    static const int NN = sizeof N / sizeof *N, SMALL = 48;
    static RType b, s[5], t, u; for (auto &x : s) x = RType();
    int way = lo + mc::choose(hi - lo, "way"), n = mc::choose(SMALL + NN, "items"), wide = mc::choose(2, "base"), i = mc::choose(5, "layout"), j = mc::choose(5, "other layout");
    if (n >= SMALL) n = N[n - SMALL];
    if (wide && n > (mc::tier ? 70001 : 5000)) throw mc::Skip();
    if (i && j && i != j) throw mc::Skip();
    if (way >= 14 && way <= 17 && i != j) throw mc::Skip();
    b = r_basic(wide ? MPI_INT : MPI_CHAR);
    for (int k : {i, j}) if (!s[k].h) {
        if (k == 0) s[k] = b;
        else if (k == 1) mk_contig(a, s[k], 3, b);
        else if (k == 2) mk_vector(a, s[k], 3, 1, 2, b);
        else if (k == 3) { int bl[2] = {1, 1}; long d[2] = {0, 2 * b.extent()}; RType ub = r_basic(MPI_UB); const RType *o[2] = {&b, &ub}; mk_struct(a, s[k], 2, bl, d, o); }
        else { int d[2] = {2, 0}; mk_iblock(a, s[k], 2, 1, d, b); }
        if (k) mk_commit(a, s[k]);
    }
    t = s[i]; u = s[j];
    if (t.count() % u.count()) n -= n % (int)u.count();
    int m = n * (int)t.count() / (int)u.count();
    move(a, p, way, t, n, u, m);
    mc::state(mc::mix(mc::mix(i * 8 + j, way), n));
    p.finish();
}
#define AMOUNTS_TEXT "0..47 items and 43 numbers of them from 63 to 131073, around the powers of two and between, of five shapes on either side, "

// elements of every special value: zeros of both signs, the ends of the integers, infinities, signalling and quiet NaNs, text with terminators and blanks, truth values
static const int VALUES = 16;
static uint8_t value_byte(int kind, int i, int len)
{
    static const uint8_t W[][8] = {{1, 0, 0xa0, 0x7f, 1, 0, 0xa0, 0xff}, {1, 0, 0, 0, 0, 0, 0xf4, 0x7f}, {0, 0, 0x80, 0x7f, 0, 0, 0x80, 0xff}, {0, 0, 0, 0, 0, 0, 0xf0, 0x7f}, {0, 0, 0, 0x80, 0, 0, 0, 0x80}, {0, 0, 0, 0, 0, 0, 0, 0x80},
        {1, 0, 0, 0, 0, 0, 0, 0}, {'a', 'b', 0, ' ', '\n', 0, 'c', ' '}, {0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20}, {1, 0, 0, 0, 1, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 0, 0, 0}};
    if (kind == 0) return 0;
    if (kind == 1) return 0xff;
    if (kind == 2) return i == len - 1 ? 0x80 : 0;
    if (kind == 3) return i == len - 1 ? 0x7f : 0xff;
    return W[kind - 4][i % 8];
}
static void put_value(char *p, int len, int kind) { for (int i = 0; i < len; i++) p[i] = um.ref(p)[i] = (char)value_byte(kind, i, len); }
static void put_values(char *p, long n, const RType &t, int kind, int where)      // all elements, the first or the last
{
    long ext = t.extent();
    for (long k = 0; k < n; k++) for (size_t j = 0; j < t.map.size(); j++) if (!where || (where == 1 ? k + j == 0 : k == n - 1 && j + 1 == t.map.size())) put_value(p + k * ext + t.map[j].disp, t.map[j].len, kind);
}
static void values_space(Api *a, P2P &p, int lo, int hi)
{
    p.begin(a); static const int N[] = {1, 2, 3, 17}, L[] = {0, 4};
    RType t, b = r_basic(basics()[mc::choose((int)basics().size(), "type")].handle);
    int way = lo + mc::choose(hi - lo, "way"), v = mc::choose(VALUES, "value"), where = mc::choose(3, "elements"), n = N[mc::choose(4, "count")], l = mc::choose(2, "layout");
    zoo(a, L[l], b, t); if (overlaps(t, n)) throw mc::Skip();
    char *s = room(n, t), *r = room(n, t); put_values(s, n, t, v, where); put_values(r, n, t, (v + 1) % VALUES, 0);
    move_bufs(a, p, way, s, t, n, r, t, n);
    mc::state(mc::mix(mc::mix(b.h, way), mc::mix(v * 4 + where, n * 2 + l)));
    p.finish();
}
#define VALUES_TEXT "every predefined type with sixteen special values (zeros, extremes, infinities, NaNs, text, truth values) in all, the first or the last element, "
// buffers at every offset from alignment
static void offsets_space(Api *a, P2P &p, int lo, int hi)
{
    p.begin(a);
    static const int B[] = {MPI_CHAR, MPI_SHORT, MPI_INT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_SHORT_INT};
    RType b = r_basic(B[mc::choose(6, "type")]); static const int N[] = {1, 2, 3, 5, 8, 13, 16, 33, 257}; int way = lo + mc::choose(hi - lo, "way"), n = N[mc::choose(9, "count")], x = mc::choose(17, "source offset"), y = mc::choose(17, "destination offset");
    if (x > 8 && y > 8 && x != y) throw mc::Skip();
    char *s = um.alloc(n * b.extent() + 16, 16) + x, *r = um.alloc(n * b.extent() + 16, 16) + y;
    move_bufs(a, p, way, s, b, n, r, b, n);
    mc::state(mc::mix(mc::mix(b.h, way), mc::mix(x * 32 + y, n)));
    p.finish();
}
#define OFFSETS_TEXT "buffers of six types at every pair of offsets from alignment, nine lengths to 257, "
