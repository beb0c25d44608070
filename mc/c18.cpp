#include "giant.h"
#include "zoo.h"
#include "far.h"
#include <sys/mman.h>
#include "replaced.h"
#include "aged_ways.h"
using namespace mc;
const char *mc_property = "C18";
static P2P &p = pp;
enum { GATHER, GATHERV, ALLGATHER, ALLGATHERV, SCATTER, SCATTERV, ALLTOALL, ALLTOALLV, ALLTOALLW, REDUCE, ALLREDUCE, REDUCE_SCATTER, SCAN, NCOPY };
static const char *const CN[] = {"Gather", "Gatherv", "Allgather", "Allgatherv", "Scatter", "Scatterv", "Alltoall", "Alltoallv", "Alltoallw", "Reduce", "Allreduce", "Reduce_scatter", "Scan"};
static bool sends_displ(int k) { return k == SCATTERV || k == ALLTOALLV || k == ALLTOALLW; }
static bool recvs_displ(int k) { return k == GATHERV || k == ALLGATHERV || k == ALLTOALLV || k == ALLTOALLW; }
static bool reduces(int k) { return k >= REDUCE; }
// a vector argument whose only entry is the last word before inaccessible memory
struct Vec { int *p, v; void set(int x) { static char *pg[8]; int i = (int)(this - base); if (!pg[i]) pg[i] = (char *)pages(4096); p = (int *)(pg[i] + 4092); v = x; *p = x; } static Vec *base; };
static Vec vec[8]; Vec *Vec::base = vec;
static int coll(Api *a, int k, void *s, int n, int th, int sd, void *r, int m, int uh, int rd, int op, int comm)
{
    static const int val = 0; (void)val;
    int x[6] = {n, sd, m, rd, th, uh};
    for (int i = 0; i < 6; i++) vec[i].set(x[i]);
    int *sc = vec[0].p, *sdp = vec[1].p, *rc = vec[2].p, *rdp = vec[3].p, *st = vec[4].p, *rt = vec[5].p, ret = -1;
    switch (k) {
    case GATHER: ret = a->Gather(s, n, th, r, m, uh, 0, comm); break;
    case GATHERV: ret = a->Gatherv(s, n, th, r, rc, rdp, uh, 0, comm); break;
    case ALLGATHER: ret = a->Allgather(s, n, th, r, m, uh, comm); break;
    case ALLGATHERV: ret = a->Allgatherv(s, n, th, r, rc, rdp, uh, comm); break;
    case SCATTER: ret = a->Scatter(s, n, th, r, m, uh, 0, comm); break;
    case SCATTERV: ret = a->Scatterv(s, sc, sdp, th, r, m, uh, 0, comm); break;
    case ALLTOALL: ret = a->Alltoall(s, n, th, r, m, uh, comm); break;
    case ALLTOALLV: ret = a->Alltoallv(s, sc, sdp, th, r, rc, rdp, uh, comm); break;
    case ALLTOALLW: ret = a->Alltoallw(s, sc, sdp, st, r, rc, rdp, rt, comm); break;
    case REDUCE: ret = a->Reduce(s, r, m, uh, op, 0, comm); break;
    case ALLREDUCE: ret = a->Allreduce(s, r, m, uh, op, comm); break;
    case REDUCE_SCATTER: ret = a->Reduce_scatter(s, r, rc, uh, op, comm); break;
    case SCAN: ret = a->Scan(s, r, m, uh, op, comm); break;
    }
    for (int i = 0; i < 6; i++) if (*vec[i].p != vec[i].v) fail("%s changed a count, displacement or datatype array", CN[k]);
    return ret;
}
// a call with contribution at s (items relative to the displacement) and result at r
static void collective(int k, char *s, int n, const RType &t, int sd, char *r, int m, const RType &u, int rd, int op, int comm)
{
    long su = k == ALLTOALLW ? 1 : t.extent(), ru = k == ALLTOALLW ? 1 : u.extent();
    char *sb = s - (sends_displ(k) ? sd * su : 0), *rb = r - (recvs_displ(k) ? rd * ru : 0);
    note("%s(%d x type %d%s, %d x type %d%s)", CN[k], n, t.h, sends_displ(k) && sd ? " displaced" : "", m, u.h, recvs_displ(k) && rd ? " displaced" : "");
    ok(CN[k], [&] { return coll(p.api, k, sb, n, t.h, sd, rb, m, u.h, rd, op, comm); });
    r_copy(um.ref(s), n, t, um.ref(r), m, u, true);
    p.after(CN[k]);
}
static void layouts()
{
    p.begin(pick_api());
    int k = choose(NCOPY, "collective");
    RType b = r_basic(basics()[choose((int)basics().size(), "base")].handle), t, v; const RType *u = &t;
    int i = choose(ZOO, "layout"), n = choose(tier ? 6 : 4, "count"), m = n;
    zoo(p.api, i, b, t);
    if (!reduces(k)) {
        int nb = (int)b.count(), j = choose(4, "received as"), c = n * (int)t.count() / nb;
        if (j == 1) { u = &b; m = c; }
        if (j == 2) { mk_vector(p.api, v, c, 1, 2, b); mk_commit(p.api, v); u = &v; m = 1; }
        if (j == 3) { if (!c) throw Skip(); mk_struct(p.api, v, 1, &c, std::vector<long>{-b.extent()}.data(), std::vector<const RType *>{&b}.data()); mk_commit(p.api, v); u = &v; m = 1; }
    }
    if (overlaps(*u, m)) throw Skip();
    static const int D[] = {0, 1, 3, -2, 1000000};
    int sd = sends_displ(k) ? D[choose(5, "send displacement")] : 0, rd = recvs_displ(k) ? D[choose(5, "receive displacement")] : 0;
    char *s = room(n, t), *r = room(m, *u);
    collective(k, s, n, t, sd, r, m, *u, rd, MPI_SUM, MPI_COMM_WORLD);
    state(mix(mix(i, k * 4 + n), mix(sd * 8 + rd, m)));
}
// the other way round: plain data into every layout
static void spread()
{
    p.begin(pick_api());
    static const int B[] = {MPI_CHAR, MPI_FLOAT, MPI_LONG_INT};
    int k = choose(REDUCE, "collective");
    RType b = r_basic(B[choose(3, "base")]), u;
    int i = choose(ZOO, "layout"), m = choose(3, "count"), how = choose(3, "sent as");
    zoo(p.api, i, b, u);
    if (overlaps(u, m)) throw Skip();
    int c = m * (int)u.count() / (int)b.count(); RType t = b; int n = c;
    if (how == 1) { mk_contig(p.api, t, c, b); mk_commit(p.api, t); n = 1; }
    if (how == 2) { mk_hvector(p.api, t, c, 1, -2 * b.extent(), b); mk_commit(p.api, t); n = 1; }
    static const int D[] = {0, 2, -1};
    int sd = sends_displ(k) ? D[choose(3, "send displacement")] : 0, rd = recvs_displ(k) ? D[choose(3, "receive displacement")] : 0;
    char *s = room(n, t), *r = room(m, u);
    collective(k, s, n, t, sd, r, m, u, rd, MPI_SUM, MPI_COMM_WORLD);
    state(mix(mix(i, k * 4 + m), mix(sd * 8 + rd, how)));
}
// every operation with every type
static const int OPS[] = {MPI_OP_NULL, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC};
static void user_op(void *, void *, int *, MPI_Datatype *) { failk("userop", "the user's reduction function was called with a single contribution"); }
static void operations()
{
    p.begin(pick_api());
    int k = REDUCE + choose(4, "collective"), o = choose(14, "operation") ; RType t = r_basic(basics()[choose((int)basics().size(), "type")].handle);
    int n = choose(4, "count"), v = choose(VALUES + 1, "value"), where = v ? choose(3, "elements") : 0; if (n == 3) n = 17;
    if (v && !n) throw Skip();
    int op = o < 13 ? OPS[o] : -1;
    if (o == 0) throw Skip();
    if (o == 13) ok("Op_create", [&] { return MPI_Op_create((MPI_User_function *)user_op, choose(2, "commutes"), &op); });
    char *s = room(n, t), *r = room(n, t); if (v) { put_values(s, n, t, v - 1, where); put_values(r, n, t, v % VALUES, 0); }
    collective(k, s, n, t, 0, r, n, t, 0, op, MPI_COMM_WORLD);
    state(mix(mix(k * 16 + o, t.h * 8 + n), v * 4 + where));
}
// bcast and barrier change nothing
static void quiet()
{
    p.begin(pick_api());
    RType b = r_basic(basics()[choose((int)basics().size(), "base")].handle), t; int i = choose(ZOO, "layout"), n = choose(4, "count");
    int c = choose(3, "communicator"), ci = c == 0 ? 0 : p.comm_new(c - 1, 0);
    zoo(p.api, i, b, t);
    char *s = room(n, t); int ch = p.comms[ci].h;
    note("Bcast(%d x type %d)", n, t.h);
    ok("Bcast", [&] { return p.api->Bcast(s, n, t.h, 0, ch); });
    p.after("Bcast");
    ok("Barrier", [&] { return p.api->Barrier(ch); });
    p.after("Barrier");
    state(mix(t.h, i * 8 + n));
}
// histories: collectives between other operations
static void history()
{
    guarded([] {
        p.begin(pick_api()); p.stl = 2;
        static RType T[3]; T[0] = p.t_int; mk_vector(p.api, T[1], 2, 1, 2, p.t_int); mk_commit(p.api, T[1]); T[2] = p.t_double;
        int len = tier ? 7 : 6; uint64_t h = 1;
        for (int d = 0; d < len; d++) {
            int e = choose(9, "operation"), ci = 0;
            const RType &t = T[e % 3];
            if (p.comms.size() > 1) ci = (int)p.comms.size() - 1;
            switch (e) {
            case 0: p.send(SM_ISEND, 0, 5, p.fresh(1, T[1]), 1, T[1]); break;
            case 1: p.irecv(0, MPI_ANY_TAG, p.fresh(2, T[0]), 2, T[0]); break;
            case 2: p.comm_new(d % 6, 0); break;
            case 3: case 4: case 5: {
                static const int K[] = {GATHERV, SCATTER, ALLTOALL};
                collective(K[e - 3], room(2, t), 2, t, 0, room(2, t), 2, t, 1, MPI_SUM, p.comms[ci].h); break;
            }
            case 6: collective(REDUCE + d % 4, room(3, t), 3, t, 0, room(3, t), 3, t, 0, MPI_MAX, p.comms[ci].h); break;
            case 7: ok("Barrier", [&] { return p.api->Barrier(p.comms[ci].h); }); p.after("Barrier"); break;
            case 8: { RType x; mk_contig(p.api, x, 2, t); mk_commit(p.api, x); collective(ALLGATHER, room(1, x), 1, x, 0, room(1, x), 1, x, 0, MPI_SUM, p.comms[ci].h); mk_free(p.api, x); break; }
            }
            h = mix(h, e); state(mix(p.fp(), h));
        }
        p.drain();
    });
}
// displacements and counts beyond 2 GB
static void far_away()
{
    p.begin(pick_api());
    static char *big; const long G = 1L << 30;
    if (!big) big = (char *)pages(60 * G);
    static const int K[] = {GATHERV, ALLGATHERV, SCATTERV, ALLTOALLV, ALLTOALLW};
    static const int D[] = {0x7fffffff, 0x20000000, 0x10000001, -0x10000001, (int)0x80000000};
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE};
    int k = K[choose(5, "collective")], d = D[choose(5, "displacement")], both = choose(3, "side"); RType t = r_basic(B[choose(3, "type")]);
    long unit = k == ALLTOALLW ? 1 : t.extent();
    bool ds = sends_displ(k) && both != 1, dr = recvs_displ(k) && both != 0;
    if (!ds && !dr) throw Skip();
    if (both == 2 && !(ds && dr)) throw Skip();
    char *s = um.alloc(64, 16), *r = um.alloc(64, 16), *mid = big + 30 * G, x[2][64];
    // the displaced items are in the big area, the others in user memory
    char *sbuf = ds ? mid : s, *rbuf = dr ? mid + 4096 : r;
    char *sat = sbuf + (ds ? d * unit : 0), *rat = rbuf + (dr ? d * unit : 0);
    for (int i = 0; i < 64; i++) { sat[i] = (char)(i * 7 + 3); x[0][i] = sat[i]; } for (int i = 0; i < 64; i++) { rat[i] = (char)(i + 100); x[1][i] = rat[i]; }
    if (!ds) memcpy(um.ref(s), s, 64); if (!dr) memcpy(um.ref(r), r, 64);
    note("%s with displacement %d of %ld byte items", CN[k], d, unit);
    ok(CN[k], [&] { return coll(p.api, k, sbuf, 3, t.h, ds ? d : 0, rbuf, 3, t.h, dr ? d : 0, MPI_SUM, MPI_COMM_WORLD); });
    memcpy(x[1], x[0], 3 * t.size());
    if (memcmp(sat, x[0], 64)) fail("%s changed the send side", CN[k]);
    if (memcmp(rat, x[1], 64)) fail("%s with displacement %d: the result is not at the displacement", CN[k], d);
    if (!dr) memcpy(um.ref(r), x[1], 64);
    p.after(CN[k]);
    state(mix(mix(k, both), mix(d, t.h)));
    madvise(sat - ((long)sat & 4095), 8192, MADV_DONTNEED); madvise(rat - ((long)rat & 4095), 8192, MADV_DONTNEED);
}
// items that lie gigabytes apart
static void distant()
{
    p.begin(pick_api());
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE};
    int k = choose(REDUCE, "collective"), i = choose(FARS, "layout"), n = 1 + choose(3, "count"), into = choose(2, "far side receives");
    RType b = r_basic(B[choose(3, "base")]), t;
    far_layout(p.api, i, b, t);
    if (!far_.fits(t, n) || (into && far_.overlapping(t, n))) throw Skip();
    int c = n * (int)t.count(); long bytes = n * t.size();
    static char near_[2048]; for (int x = 0; x < (int)sizeof near_; x++) near_[x] = (char)(x * 11 + 5);
    far_.begin(); far_.fill(t, n, 1);
    note("%s of %d x %s", CN[k], n, t.str().c_str());
    ok(CN[k], [&] { return into ? coll(p.api, k, near_ + 64, c, b.h, 0, far_.o, n, t.h, 0, MPI_SUM, MPI_COMM_WORLD) : coll(p.api, k, far_.o, n, t.h, 0, near_ + 64, c, b.h, 0, MPI_SUM, MPI_COMM_WORLD); });
    if (into) far_.check(t, n, near_ + 64, 1, CN[k]); else far_.expect(t, n, near_ + 64, 1, CN[k]);
    for (int x = 0; x < (int)sizeof near_; x++) if ((into || x < 64 || x >= 64 + bytes) && near_[x] != (char)(x * 11 + 5)) fail("%s changed byte %d of the other side", CN[k], x - 64);
    state(mix(mix(k, i), n * 8 + into * 4 + b.size()));
}
// long contributions
// every count up to forty, on every kind of communicator
static void medium()
{
    p.begin(pick_api());
    int k = choose(NCOPY, "collective"), c = choose(1 + COMM_HOWS, "communicator"), n = choose(41, "count"), L[] = {0, 3, 5, 10, 16}, i = choose(5, "layout");
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE_INT};
    int ci = c ? p.comm_new(c - 1, 0) : 0;
    RType b = r_basic(B[choose(3, "base")]), t, u; zoo(p.api, L[i], b, t);
    int m = n, how = reduces(k) ? 0 : choose(4, "received as"); u = t;
    if (how == 1) { u = b; m = n * (int)t.count() / (int)b.count(); }
    if (how == 2) { mk_vector(p.api, u, n * (int)t.count() / (int)b.count(), 1, -2, b); mk_commit(p.api, u); m = 1; }
    if (how == 3) { mk_contig(p.api, u, n, t); mk_commit(p.api, u); m = 1; }
    if (overlaps(u, m)) throw Skip();
    int sd = sends_displ(k) ? choose(2, "send displacement") * 41 : 0, rd = recvs_displ(k) ? choose(2, "receive displacement") * -17 : 0;
    collective(k, room(n, t), n, t, sd, room(m, u), m, u, rd, MPI_MAX, p.comms[ci].h);
    state(mix(mix(k, n * 4 + i), mix(c, how)));
}
static void lengthy()
{
    p.begin(pick_api());
    int k = choose(NCOPY, "collective"); static const int N[] = {255, 256, 4096, 70001}; int n = N[choose(4, "count")], i = choose(3, "layout");
    RType b = r_basic(MPI_SHORT), t; zoo(p.api, i == 0 ? 0 : i == 1 ? 4 : 13, b, t);
    if (i == 2) n /= 4;     // overlapping when adjacent? only as sender
    RType u = t; int m = n;
    if (!reduces(k) && i) { u = b; m = n * (int)t.count(); }
    if (overlaps(u, m)) throw Skip();
    if (n * t.extent() > 700000) n = m = 9000, m = u.h == t.h ? n : n * (int)t.count();
    collective(k, room(n, t), n, t, 2, room(m, u), m, u, 1, MPI_SUM, MPI_COMM_WORLD);
    state(mix(k, n * 4 + i));
}
static void giants()
{
    p.begin(pick_api());
    if (!tier && p.api == api_f) throw Skip();
    static const int WY[] = {8, 20, 15, 13};
    int w = WY[choose(tier ? 4 : 2, "way")];
    giant(p.api, w, (1L << 31) + 100000, 2, w == 15 ? 2 : 3);
}
static void bottom() { bottom_space(api_c, pp, 8, WAYS); }
static void replaced_sp() { replaced_moves(pick_api(), pp, 8, 21); }
std::vector<Space> mc_spaces()
{
    return {
        {"layouts", "13 collectives, 30 layouts over every predefined type, counts 0..3 (thorough 0..5), received in four shapes, five displacements per displaced side; vector arguments end at inaccessible memory", layouts},
        {"spread", "9 non-reducing collectives from plain, contiguous or descending data into 30 layouts", spread},
        {"operations", "4 reductions, 12 predefined operations and a user operation, every predefined type; ordinary elements, or sixteen special values in all, the first or the last element", operations},
        {"quiet", "bcast and barrier with every base type, 30 layouts, three communicators", quiet},
        {"history", "all sequences of six (thorough seven) of nine operations: collectives, pending messages, communicators, datatypes made and freed", history},
        {"far_away", "displacements up to both ends of int with items of 1, 4 and 8 bytes", far_away, 0, 1},
        {"distant", "9 non-reducing collectives from or into 14 layouts spanning 2 to 50 GB, counts 1..3", distant},
        {"giant", "2^31+100000 bytes really copied by two (thorough four) collectives", giants},
        {"bottom", "13 collectives (reductions only of nothing) from or to MPI_BOTTOM with datatypes of absolute addresses of 30 layouts over three bases; nothing moved between no buffers (C; the Fortran routines in C22)", bottom},
        {"medium", "0..40 items of five layouts over three bases on eleven kinds of communicator, received in four shapes", medium},
        {"amounts", AMOUNTS_TEXT "thirteen collectives", [] { amounts(pick_api(), pp, 8, 21); }},
        {"values", VALUES_TEXT "thirteen collectives", [] { guarded([] { values_space(pick_api(), pp, 8, 21); }); }},
        {"offsets", OFFSETS_TEXT "thirteen collectives", [] { guarded([] { offsets_space(pick_api(), pp, 8, 21); }); }},
        {"lengthy", "up to 70001 items", lengthy},
        {"aged", AGED_WAYS_TEXT "each in thirteen collectives", [] { guarded([] { aged_ways(8, 21); }); }},
        {"replaced", REPLACED_TEXT "thirteen collectives", replaced_sp},
    };
}
