#include "ways.h"
#include "far.h"
#include "replaced.h"
#include "aged_ways.h"
using namespace mc;
const char *mc_property = "C17";
static P2P &p = pp;
// reference packing; returns the new position
static long r_pack(const char *in, long n, const RType &t, char *out, long pos)
{
    long ext = t.extent();
    for (long k = 0; k < n; k++) for (auto &e : t.map) { memcpy(out + pos, in + k * ext + e.disp, e.len); pos += e.len; }
    return pos;
}
static long r_unpack(const char *in, long pos, char *out, long n, const RType &t)
{
    long ext = t.extent();
    for (long k = 0; k < n; k++) for (auto &e : t.map) { memcpy(out + k * ext + e.disp, in + pos, e.len); pos += e.len; }
    return pos;
}
static int pack(char *in, int n, const RType &t, char *out, int size, int pos)
{
    int q = pos;
    note("Pack(%d x type %d at %d of %d)", n, t.h, pos, size);
    ok("Pack", [&] { return p.api->Pack(in, n, t.h, out, size, &q, MPI_COMM_WORLD); });
    long want = r_pack(um.ref(in), n, t, um.ref(out), pos);
    if (q != want) fail("Pack of %d x %s moves the position from %d to %d, expected %ld", n, t.str().c_str(), pos, q, want);
    int s = -1;
    ok("Pack_size", [&] { return p.api->Pack_size(n, t.h, MPI_COMM_WORLD, &s); });
    if (s != want - pos) fail("Pack_size of %d x %s gives %d, expected %ld", n, t.str().c_str(), s, want - pos);
    p.after("Pack");
    return q;
}
static int unpack(char *in, int size, int pos, char *out, int n, const RType &t)
{
    int q = pos;
    note("Unpack(%d x type %d at %d of %d)", n, t.h, pos, size);
    ok("Unpack", [&] { return p.api->Unpack(in, size, &q, out, n, t.h, MPI_COMM_WORLD); });
    long want = r_unpack(um.ref(in), pos, um.ref(out), n, t);
    if (q != want) fail("Unpack of %d x %s moves the position from %d to %d, expected %ld", n, t.str().c_str(), pos, q, want);
    p.after("Unpack");
    return q;
}
// every layout, alone: counts, start positions, sizes around the exact one
static void single()
{
    p.begin(pick_api());
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE_INT, MPI_LONG_DOUBLE, MPI_SHORT, MPI_COMPLEX};
    RType b = r_basic(B[choose(6, "base")]), t, u;
    int i = choose(ZOO, "layout"), n = choose(tier ? 5 : 4, "count"), at = choose(4, "position"), slack = choose(2, "room left"), j = choose(4, "unpacked as");
    if (at == 3) at = 17;
    zoo(p.api, i, b, t);
    int need = (int)(n * t.size()), size = at + need + 5 * slack;
    char *in = room(n, t), *out = um.alloc(size + 1);
    int q = pack(in, n, t, out, size, at);
    // back into the same layout, or another one of the same elements
    const RType *o = &t; int m = n;
    if (j == 1) { o = &b; m = n * (int)t.count() / (int)b.count(); }
    if (j == 2) { mk_vector(p.api, u, n * (int)t.count() / (int)b.count(), 1, 2, b); o = &u; m = 1; }
    if (j == 3) { mk_contig(p.api, u, n, t); mk_commit(p.api, u); o = &u; m = 1; }
    if (overlaps(*o, m)) throw Skip();
    char *r = room(m, *o);
    int q2 = unpack(out, slack ? size : q, at, r, m, *o);
    if (q2 != q) fail("unpacking ends at %d, packing ended at %d", q2, q);
    // and piece by piece
    int q3 = at; r = room(n, b);
    if (t.count() && i < 2) for (int k = 0; k < n; k++) q3 = unpack(out, size, q3, room(1, b), 1, b);
    state(mix(i * 8 + n, at * 8 + j * 2 + slack));
}
// structs of elements of different sizes at any displacements, also shared ones
static void mixed()
{
    p.begin(pick_api());
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE, MPI_SHORT, MPI_DOUBLE_INT, MPI_UB};
    int parts = 1 + choose(3, "parts"), n = choose(3, "count"), outer = choose(3, "around it"), at = choose(2, "position") * 5;
    RType e[3], t, u; const RType *tt[3]; int bl[3]; long d[3]; uint64_t h = parts;
    for (int i = 0; i < parts; i++) {
        int k = choose(6, "type"), w = choose(i ? 4 : 2, "place"), l = choose(3, "length");
        e[i] = r_basic(B[k]); tt[i] = &e[i]; bl[i] = l; h = mix(h, k * 16 + w * 4 + l);
        d[i] = w == 0 ? 0 : w == 1 ? 8 : w == 2 ? d[i - 1] + 16 : d[i - 1] - 3;
        if (parts == 3 && l == 0) throw Skip();
    }
    mk_struct(p.api, t, parts, bl, d, tt);
    if (outer == 1) { mk_vector(p.api, u, 2, 1, 2, t); t = u; }
    if (outer == 2) { int b2[2] = {1, 1}; long d2[2] = {0, 0}; const RType *t2[2] = {&t, &e[0]}; mk_struct(p.api, u, 2, b2, d2, t2); t = u; }
    mk_commit(p.api, t);
    int need = (int)(n * t.size()), size = at + need;
    char *in = room(n, t), *out = um.alloc(size + 1);
    int q = pack(in, n, t, out, size, at);
    state(mix(h, n * 8 + outer * 2 + (at != 0)));
    if (overlaps(t, n)) throw Skip();
    unpack(out, q, at, room(n, t), n, t);
}
// sequences of packs of mixed types, unpacked in the same order with the same or other partitions, directly or after a transfer
static void sequence_body(int len)
{
    guarded([&] {
        p.begin(pick_api()); p.stl = 2;
        static RType t[6];
        RType C = r_basic(MPI_CHAR), I = r_basic(MPI_INT), D = r_basic(MPI_DOUBLE), DI = r_basic(MPI_DOUBLE_INT);
        t[0] = C; t[1] = I; t[2] = DI;
        zoo(p.api, 11, I, t[3]); zoo(p.api, 16, D, t[4]); zoo(p.api, 20, C, t[5]);
        int k[4], n[4], at = choose(2, "position") * 3, via = choose(5, "sent"), other = choose(2, "unpacked as"), one = choose(2, "combined");
        long total = at;
        for (int i = 0; i < len; i++) { k[i] = choose(6, "type"); n[i] = choose(3, "count"); total += n[i] * t[k[i]].size(); }
        char *out = um.alloc(total + 1), *src[4]; int q = at;
        for (int i = 0; i < len; i++) { src[i] = room(n[i], t[k[i]]); q = pack(src[i], n[i], t[k[i]], out, (int)total, q); }
        if (q != total) fail("position %d, expected %ld", q, total);
        char *in = out; int size = q;
        RType P = r_basic(MPI_PACKED);
        if (via) {
            size = q + (via == 4 ? 9 : 0); in = um.alloc(size + 1);
            if (via == 1) { p.send(SM_ISEND, 0, 5, out, q, P); p.recv(0, 5, in, size, P); p.wait(0, 1); }
            else if (via == 2) { p.irecv(0, MPI_ANY_TAG, in, size, P); p.send(SM_SEND, 0, 5, out, q, P); p.wait(0); }
            else if (via == 3) p.sendrecv(0, 5, out, q, P, 5, in, size, P);
            else {
                p.send(SM_ISEND, 0, 5, out, q, P); MPI_Status st; int c = -1;
                ok("Probe", [&] { return p.api->Probe(0, 5, MPI_COMM_WORLD, &st); });
                ok("Get_count", [&] { return p.api->Get_count(&st, MPI_PACKED, &c); });
                if (c != q) fail("Get_count of %d packed bytes gives %d", q, c);
                p.recv(0, 5, in, size, P);
            }
        }
        int r = at;
        if (one && len >= 2 && k[0] == k[1] && n[0] && n[1]) { r = unpack(in, size, r, room(n[0] + n[1], t[k[0]]), n[0] + n[1], t[k[0]]); }
        else if (one) throw Skip();
        for (int i = one ? 2 : 0; i < len; i++) {
            RType &x = t[k[i]];
            if (!other) r = unpack(in, size, r, room(n[i], x), n[i], x);
            else {
                // item by item, as plain elements
                RType pl = k[i] == 3 ? I : k[i] == 4 ? D : k[i] == 5 ? C : x;
                int c = (int)(x.count() / pl.count());
                for (int j = 0; j < n[i]; j++) r = unpack(in, size, r, room(c, pl), c, pl);
            }
        }
        if (r != total) fail("unpacking ends at %d, expected %ld", r, total);
        uint64_t h = at + via * 4 + other; for (int i = 0; i < len; i++) h = mix(h, k[i] * 4 + n[i]); state(h);
    });
}
static void sequence() { sequence_body(2); }
static void sequence3() { sequence_body(3); }
// stated sizes around the need, with inaccessible memory behind the buffer
static char *edge;       // one page of room, then nothing
static char *edge_at(int size) { if (!edge) edge = (char *)pages(4096); return edge + 4096 - size; }
static void pattern(char *q, int n, int salt) { for (int i = 0; i < n; i++) q[i] = (char)(i * 37 + salt); }
static void limits()
{
    p.begin(pick_api());
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE_INT, MPI_LONG_DOUBLE};
    RType b = r_basic(B[choose(4, "base")]), t;
    int i = choose(ZOO, "layout"), n = choose(3, "count"), at = choose(3, "position"), d = choose(14, "size") - 11, un = choose(2, "pack or unpack");
    if (at == 2) at = 9;
    zoo(p.api, i, b, t);
    if (un && overlaps(t, n)) throw Skip();
    int need = (int)(n * t.size()), size = at + need + d;
    if (d == -11) size = at - 1;
    if (d == -10) size = at;
    if (size < 0) throw Skip();
    bool fits = need == 0 || size >= at + need;
    char *user = room(n, t), *buf = edge_at(size), save[4096]; int pos = at;
    pattern(edge, 4096, 3); memcpy(save, edge, 4096); size_t off = buf - edge;
    note("%s %d x type %d, position %d, size %d, %d needed", un ? "Unpack" : "Pack", n, t.h, at, size, need);
    auto f = [&] { return un ? p.api->Unpack(buf, size, &pos, user, n, t.h, MPI_COMM_WORLD) : p.api->Pack(user, n, t.h, buf, size, &pos, MPI_COMM_WORLD); };
    state(mix(mix(i, n * 4 + at), d * 2 + un));
    if (fits) {
        ok(un ? "Unpack" : "Pack", f);
        if (pos != at + need) fail("position %d, expected %d", pos, at + need);
        if (un) r_unpack(save + off, at, um.ref(user), n, t); else r_pack(um.ref(user), n, t, save + off, at);
        if (memcmp(edge, save, 4096)) fail("%s changed the wrong bytes of the buffer", un ? "Unpack" : "Pack");
        p.after(un ? "Unpack" : "Pack");
        return;
    }
    Term x = dies(un ? "Unpack beyond the end of the buffer" : "Pack beyond the end of the buffer", f);
    (void)x;
    // only what fits may have been written
    if (un) {
        if (memcmp(edge, save, 4096)) fail("Unpack changed the buffer it reads");
        long ext = t.extent();
        for (int k = 0; k < n; k++) for (auto &e : t.map) memcpy(um.ref(user) + k * ext + e.disp, user + k * ext + e.disp, e.len);
    } else {
        for (int k = 0; k < 4096; k++) if (edge[k] != save[k] && (k < (int)off + at)) fail("Pack wrote at offset %d, before its position %d", k - (int)off, at);
    }
    p.after("a refused call");
}
// position and size near the largest int
static void huge()
{
    p.begin(pick_api());
    static char *big; if (!big) big = (char *)pages(0x7fffffffUL);
    const int MAX = 0x7fffffff;
    static const int B[] = {MPI_CHAR, MPI_SHORT, MPI_INT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_DOUBLE_INT};
    RType t = r_basic(B[choose(6, "type")]);
    int n = choose(3, "count"), back = choose(40, "distance from the end"), less = choose(3, "size below the largest"), un = choose(2, "pack or unpack");
    int size = MAX - less, at = MAX - back, need = (int)(n * t.size());
    if (at > size) throw Skip();
    bool fits = need == 0 || size - at >= need;
    char *user = room(n, t); int pos = at; char *tail = big + (0x7fffffffL / 4096) * 4096 - 4096; long tl = big + 0x7fffffffL - tail; static char save[16384];
    pattern(tail, (int)tl, 5); memcpy(save, tail, tl);
    auto f = [&] { return un ? p.api->Unpack(big, size, &pos, user, n, t.h, MPI_COMM_WORLD) : p.api->Pack(user, n, t.h, big, size, &pos, MPI_COMM_WORLD); };
    note("%s %d items of %ld bytes at %d of %d", un ? "Unpack" : "Pack", n, t.size(), at, size);
    state(mix(t.h, (n * 64 + back) * 8 + less * 2 + un));
    if (!fits) { dies("passing the end of the buffer", f); for (long k = big + size - tail; k < tl; k++) if (tail[k] != save[k]) fail("wrote beyond the end"); return; }
    ok(un ? "Unpack" : "Pack", f);
    if (pos != at + need) fail("position %d, expected %d", pos, at + need);
    char *sb = save - (tail - big);
    if (un) r_unpack(sb, at, um.ref(user), n, t); else r_pack(um.ref(user), n, t, sb, at);
    if (memcmp(tail, save, tl)) fail("the wrong bytes of the buffer changed");
    p.after("a pack or unpack near the largest position");
}
// items that lie gigabytes apart
static void distant()
{
    p.begin(pick_api());
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE, MPI_SHORT_INT};
    RType b = r_basic(B[choose(4, "base")]), t;
    int i = choose(FARS, "layout"), n = 1 + choose(4, "count"), at = choose(2, "position") * 7;
    far_layout(p.api, i, b, t);
    if (!far_.fits(t, n)) throw Skip();
    far_.begin(); far_.fill(t, n, 1);
    long bytes = n * t.size(); static char out[4096]; memset(out, 0x77, sizeof out); int pos = at;
    note("Pack(%d x %s)", n, t.str().c_str());
    ok("Pack", [&] { return p.api->Pack(far_.o, n, t.h, out, at + (int)bytes, &pos, MPI_COMM_WORLD); });
    if (pos != at + bytes) fail("position %d, expected %ld", pos, at + bytes);
    far_.expect(t, n, out + at, 1, "Pack");
    for (int k = 0; k < (int)sizeof out; k++) if ((k < at || k >= at + bytes) && out[k] != 0x77) fail("Pack wrote at offset %d of the buffer", k);
    if (!far_.overlapping(t, n)) {
        far_.fill(t, n, 2); for (long k = 0; k < bytes; k++) out[at + k] = (char)(k * 7 + 3);
        pos = at;
        ok("Unpack", [&] { return p.api->Unpack(out, at + (int)bytes, &pos, far_.o, n, t.h, MPI_COMM_WORLD); });
        if (pos != at + bytes) fail("position %d, expected %ld", pos, at + bytes);
        far_.check(t, n, out + at, 2, "Unpack");
    }
    state(mix(i * 8 + n, mix(b.h, at)));
}
// large counts: sizes and positions
static void medium()
{
    p.begin(pick_api());
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE_INT}, L[] = {0, 3, 5, 10, 16, 25};
    int n = choose(41, "count"), at = choose(41, "position");
    RType b = r_basic(B[choose(3, "base")]), t, u; zoo(p.api, L[choose(6, "layout")], b, t);
    int need = (int)(n * t.size()), size = at + need + 3;
    char *in = room(n, t), *out = um.alloc(size); int q = pack(in, n, t, out, size, at);
    int m = n * (int)t.count() / (int)b.count();
    if (choose(2, "unpacked as") ) { int q2 = unpack(out, size, at, room(m, b), m, b); if (q2 != q) fail("unpacking ends at %d, packing ended at %d", q2, q); }
    else { int k = choose(3, "pieces") + 1, q2 = at; for (int d = 0; d < n; d += k) { int w = std::min(k, n - d); q2 = unpack(out, size, q2, room(w, t), w, t); } if (q2 != q) fail("unpacking in pieces ends at %d, packing ended at %d", q2, q); }
    state(mix(n * 64 + at, t.h));
}
static void large()
{
    p.begin(pick_api());
    static const int N[] = {1000, 4097, 65535};
    int n = N[choose(3, "count")], i = choose(3, "layout"), L = i == 0 ? 0 : i == 1 ? 4 : 16;
    RType b = r_basic(choose(2, "base") ? MPI_SHORT : MPI_CHAR), t;
    zoo(p.api, L, b, t); if (n * t.extent() > 400000) n = 8000;
    int need = (int)(n * t.size()), less = choose(2, "one byte short");
    char *in = room(n, t), *out = um.alloc(need); int q = 0;
    state(n * 8 + i * 2 + less);
    if (less) { dies("Pack one byte beyond the end", [&] { return p.api->Pack(in, n, t.h, out, need - 1, &q, MPI_COMM_WORLD); }); memcpy(um.ref(out), out, need - 1); um.check("a refused call"); return; }
    q = pack(in, n, t, out, need, 0);
    // unpack over the input: everything comes back
    for (int k = 0; k < n; k++) for (auto &e : t.map) { memset(in + k * t.extent() + e.disp, 0, e.len); memset(um.ref(in) + k * t.extent() + e.disp, 0, e.len); }
    unpack(out, need, 0, in, n, t);
}
// Pack_size alone, also for counts whose packed size exceeds any buffer
static void sizes()
{
    p.begin(pick_api());
    static const int N[] = {0, 1, 2, 1000, 0x100000, 0x7fffffff};
    RType b = r_basic(basics()[choose((int)basics().size(), "base")].handle), t; int i = choose(ZOO, "layout"), n = N[choose(6, "count")];
    zoo(p.api, i, b, t, choose(2, "committed"));
    long want = (long)n * t.size();
    if (p.api == api_f && want > 0x7fffffff) throw Skip();       // not representable there
    if (p.api == api_c) {
        MPI_Aint s = -1; ok("Pack_size", [&] { return MPI_Pack_size(n, t.h, MPI_COMM_WORLD, &s); });
        if (s != want) fail("Pack_size of %d x %s gives %ld, expected %ld", n, t.str().c_str(), (long)s, want);
    } else {
        int s = -1; ok("Pack_size", [&] { return p.api->Pack_size(n, t.h, MPI_COMM_WORLD, &s); });
        if (s != want) fail("Pack_size of %d x %s gives %d, expected %ld", n, t.str().c_str(), s, want);
    }
    p.after("Pack_size"); state(mix(want, i));
}
static void bottom() { bottom_space(api_c, pp, 7, 8); }
static void replaced_sp() { replaced_moves(pick_api(), pp, 7, 8); }
std::vector<Space> mc_spaces()
{
    return {
        {"single", "30 layouts over six bases, counts 0..3 (thorough 0..4), four start positions, exact or larger buffer, unpacked as the same, plain, strided or contiguous layout", single},
        {"mixed", "structs of up to three blocks of six types of different size and length 0..2 at shared, overlapping or distinct displacements, alone, strided or within another struct", mixed},
        {"sequence", "all sequences of two packs from six types and counts 0..2, transferred as MPI_PACKED in four ways or not, unpacked in the same or other partitions", sequence},
        {"sequence3", "all sequences of three packs likewise", sequence3},
        {"limits", "30 layouts over four bases, counts 0..2, buffer sizes from 11 bytes below to 2 above the need, ending at inaccessible memory; refused calls write nothing beyond", limits},
        {"huge", "buffers of INT_MAX bytes, positions within 40 bytes of the end", huge},
        {"distant", "14 layouts spanning 2 to 50 GB over four bases, counts 1..4, packed from and unpacked into sparse memory", distant},
        {"bottom", "packing from and unpacking to MPI_BOTTOM with datatypes of absolute addresses of 30 layouts over three bases; nothing packed from no buffer (C; the Fortran routines in C22)", bottom},
        {"medium", "0..40 items of six layouts over three bases from positions 0..40, unpacked as elements or in pieces of one to three items", medium},
        {"amounts", AMOUNTS_TEXT "packed and unpacked", [] { amounts(pick_api(), pp, 7, 8); }},
        {"values", VALUES_TEXT "packed and unpacked", [] { guarded([] { values_space(pick_api(), pp, 7, 8); }); }},
        {"offsets", OFFSETS_TEXT "packed and unpacked", [] { guarded([] { offsets_space(pick_api(), pp, 7, 8); }); }},
        {"large", "thousands of items, exact fit and one byte short", large},
        {"sizes", "MPI_Pack_size of every predefined type in 30 layouts, counts up to INT_MAX", sizes},
        {"aged", AGED_WAYS_TEXT "each packed and unpacked", [] { guarded([] { aged_ways(7, 8); }); }},
        {"replaced", REPLACED_TEXT "packed and unpacked", replaced_sp},
    };
}
