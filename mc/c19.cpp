#include "ways.h"
#include "aged.h"
using namespace mc;
const char *mc_property = "C19";
static P2P &p = pp;
enum { GATHER, GATHERV, SCATTER, SCATTERV, REDUCE, BCAST, ALLGATHER, ALLGATHERV, ALLTOALL, ALLTOALLV, ALLTOALLW, ALLREDUCE, REDUCE_SCATTER, SCAN, NALL };
static const char *const CN[] = {"Gather", "Gatherv", "Scatter", "Scatterv", "Reduce", "Bcast", "Allgather", "Allgatherv", "Alltoall", "Alltoallv", "Alltoallw", "Allreduce", "Reduce_scatter", "Scan"};
struct Args { void *s, *r; int n, th, m, uh, root, comm; int *sc, *sd, *st, *rc, *rd, *rt; int op; };
static int coll(Api *a, int k, const Args &x)
{
    switch (k) {
    case GATHER: return a->Gather(x.s, x.n, x.th, x.r, x.m, x.uh, x.root, x.comm);
    case GATHERV: return a->Gatherv(x.s, x.n, x.th, x.r, x.rc, x.rd, x.uh, x.root, x.comm);
    case SCATTER: return a->Scatter(x.s, x.n, x.th, x.r, x.m, x.uh, x.root, x.comm);
    case SCATTERV: return a->Scatterv(x.s, x.sc, x.sd, x.th, x.r, x.m, x.uh, x.root, x.comm);
    case REDUCE: return a->Reduce(x.s, x.r, x.m, x.uh, x.op, x.root, x.comm);
    case BCAST: return a->Bcast(x.r, x.m, x.uh, x.root, x.comm);
    case ALLGATHER: return a->Allgather(x.s, x.n, x.th, x.r, x.m, x.uh, x.comm);
    case ALLGATHERV: return a->Allgatherv(x.s, x.n, x.th, x.r, x.rc, x.rd, x.uh, x.comm);
    case ALLTOALL: return a->Alltoall(x.s, x.n, x.th, x.r, x.m, x.uh, x.comm);
    case ALLTOALLV: return a->Alltoallv(x.s, x.sc, x.sd, x.th, x.r, x.rc, x.rd, x.uh, x.comm);
    case ALLTOALLW: return a->Alltoallw(x.s, x.sc, x.sd, x.st, x.r, x.rc, x.rd, x.rt, x.comm);
    case ALLREDUCE: return a->Allreduce(x.s, x.r, x.m, x.uh, x.op, x.comm);
    case REDUCE_SCATTER: return a->Reduce_scatter(x.s, x.r, x.rc, x.uh, x.op, x.comm);
    default: return a->Scan(x.s, x.r, x.m, x.uh, x.op, x.comm);
    }
}
static bool rooted(int k) { return k <= BCAST; }
static bool scat(int k) { return k == SCATTER || k == SCATTERV; }
static void *in_place() { return p.api == api_f ? (void *)f_in_place : MPI_IN_PLACE; }
static char *forbidden() { static char *g; if (!g) { g = (char *)pages(4096) + 4096; } return g + 64; }   // inaccessible memory
// arguments of a call: every count, displacement and datatype given, the buffers as stated
static Args args(const RType &t, int n, int m, int d, int ci = 0)
{
    static int v[8]; static int nul;
    v[0] = n; v[1] = d; v[2] = t.h; v[3] = m; v[4] = d; v[5] = t.h; nul = 0;
    Args x; x.n = n; x.th = t.h; x.m = m; x.uh = t.h; x.root = 0; x.comm = p.comms[ci].h;
    x.sc = v; x.sd = v + 1; x.st = v + 2; x.rc = v + 3; x.rd = v + 4; x.rt = v + 5; x.op = MPI_SUM; x.s = x.r = nullptr;
    return x;
}
// in place: the result buffer stays as it is, whatever the arguments that in-place makes insignificant
static void in_place_body()
{
    p.begin(pick_api());
    int k = choose(NALL, "collective"); if (k == BCAST) throw Skip();
    RType t, b = r_basic(basics()[choose((int)basics().size(), "base")].handle); int i = choose(ZOO, "layout"), n = choose(4, "count"), d = choose(4, "displacement");
    static const int D[] = {0, 2, -1, 0x7fffffff};
    int where = choose(3, "buffer"), other = choose(4, "arguments of the in-place side"), op = choose(2, "operation");
    if (op && !(k == REDUCE || k >= ALLREDUCE)) throw Skip();
    if (other && (k == REDUCE || k >= ALLREDUCE)) throw Skip();
    if (d && !(k == GATHERV || k == SCATTERV || k == ALLGATHERV || k == ALLTOALLV || k == ALLTOALLW)) throw Skip();
    zoo(p.api, i, b, t);
    Args x = args(t, n, n, D[d]); if (op) x.op = MPI_MAXLOC;
    char *buf = where == 0 ? room(n, t) - D[d] * (k == ALLTOALLW ? 1 : t.extent()) : where == 1 ? forbidden() : nullptr;
    // the side replaced by MPI_IN_PLACE: its count and datatype are ignored
    static int junkv[2]; junkv[0] = -5; junkv[1] = 0;
    if (scat(k)) { x.r = in_place(); x.s = buf; if (other == 1) x.m = 0; if (other == 2) { x.m = -5; x.uh = MPI_DATATYPE_NULL; } if (other == 3) x.m = 1000000; }
    else {
        x.s = in_place(); x.r = buf;
        if (other == 1) x.n = 0, x.sc = junkv + 1;
        if (other == 2) x.n = -5, x.sc = junkv, x.th = MPI_DATATYPE_NULL, x.st = junkv + 1;
        if (other == 3) { x.n = 1000000; if (p.api == api_c) x.sc = x.sd = x.st = nullptr; }
    }
    note("%s in place, %d x type %d", CN[k], n, t.h);
    ok(CN[k], [&] { return coll(p.api, k, x); });
    p.after(CN[k]);
    state(mix(mix(k * 4 + n, i * 64 + where * 16 + d), other * 64 + t.h));
}
// in place, with every operation and special values
static void values()
{
    p.begin(pick_api());
    static const int OPS[] = {MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC}; static const int N[] = {1, 2, 3, 17};
    int k = choose(NALL, "collective"); if (k == BCAST) throw Skip();
    bool red = k == REDUCE || k >= ALLREDUCE;
    RType t = r_basic(basics()[choose((int)basics().size(), "type")].handle); int o = choose(red ? 12 : 1, "operation"), n = N[choose(4, "count")], v = choose(VALUES, "value"), where = choose(3, "elements");
    char *buf = room(n, t); put_values(buf, n, t, v, where);
    Args x = args(t, n, n, 0); x.op = OPS[o]; if (scat(k)) { x.r = in_place(); x.s = buf; } else { x.s = in_place(); x.r = buf; }
    note("%s in place, %d x type %d", CN[k], n, t.h);
    ok(CN[k], [&] { return coll(p.api, k, x); });
    p.after(CN[k]);
    state(mix(mix(k * 16 + o, t.h * 8 + n), v * 4 + where));
}
// roots
static void roots()
{
    guarded([] {
        p.begin(pick_api());
        static const int R[] = {0, MPI_ROOT, 1, -1, -2, 2, 0x7fffffff, (int)0x80000000, 256, -4};
        int k = choose(BCAST + 1, "collective"), root = R[choose(10, "root")], how = choose(2, "in place"), n = choose(3, "count"), c = choose(7, "communicator");
        int i = choose(4, "layout"), z[] = {0, 4, 16, 12};
        if (how && k == BCAST) throw Skip();
        if (c) p.comm_new(c - 1, 0);
        RType t; zoo(p.api, z[i], p.t_int, t);
        bool rt = root == MPI_ROOT && k != REDUCE, okay = root == 0 || rt;
        Args x = args(t, n, n, 0, c ? 1 : 0); x.root = root;
        char *s = nullptr, *r = nullptr;
        if (okay && root == 0) { s = room(n, t); r = room(n, t); } else if (rt) s = r = forbidden(); else { s = room(n, t); r = room(n, t); }
        x.s = s; x.r = r;
        if (how) (scat(k) ? x.r : x.s) = in_place();
        note("%s with root %d%s", CN[k], root, how ? " in place" : "");
        state(mix(mix(k, root), mix(how * 8 + c, n * 4 + i)));
        if (!okay) { dies(CN[k], [&] { return coll(p.api, k, x); }); p.after(CN[k]); throw Finished(); }
        ok(CN[k], [&] { return coll(p.api, k, x); });
        if (root == 0 && !how && k != BCAST) r_copy(um.ref(s), n, t, um.ref(r), n, t, true);
        p.after(CN[k]);
    });
}
// every count up to forty and longer ones, on every kind of communicator
static void medium()
{
    p.begin(pick_api());
    int k = choose(NALL, "collective"), c = choose(1 + COMM_HOWS, "communicator"), n = choose(49, "count"), i = choose(4, "layout"), z[] = {0, 4, 16, 5}, mode = choose(3, "ordinary, in place or MPI_ROOT");
    static const int NL[] = {63, 64, 65, 127, 128, 255, 256, 257}; if (n > 40) n = NL[n - 41];
    if ((k == BCAST && mode == 1) || (mode == 2 && (k > BCAST || k == REDUCE))) throw Skip();
    int ci = c ? p.comm_new(c - 1, 0) : 0;
    static const int B[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE_INT};
    RType t; zoo(p.api, z[i], r_basic(B[choose(3, "base")]), t);
    Args x = args(t, n, n, 0, ci); if (mode == 2) x.root = MPI_ROOT;
    char *s = mode == 2 ? forbidden() : room(n, t), *r = mode == 2 ? forbidden() : room(n, t);
    x.s = s; x.r = r;
    if (mode == 1) (scat(k) ? x.r : x.s) = in_place();
    note("%s, %d items, %s", CN[k], n, mode == 0 ? "ordinary" : mode == 1 ? "in place" : "MPI_ROOT");
    if (overlaps(t, n)) throw Skip();
    ok(CN[k], [&] { return coll(p.api, k, x); });
    if (!mode && k != BCAST) r_copy(um.ref(s), n, t, um.ref(r), n, t, true);
    p.after(CN[k]); state(mix(mix(k, n), mix(c * 4 + mode, i)));
}
// MPI_ROOT ignores every other argument
static void root_args()
{
    p.begin(pick_api());
    int k = choose(BCAST + 1, "collective"); if (k == REDUCE) throw Skip();
    int n = choose(4, "send count"), m = choose(4, "receive count"), ty = choose(4, "types"), c = choose(2, "communicator");
    static const int N[] = {0, 1, -1, 0x7fffffff}, T[] = {MPI_INT, MPI_DATATYPE_NULL, MPI_DOUBLE_INT, 0};
    RType un; mk_contig(p.api, un, 2, p.t_int);
    if (c) p.comm_new(0, 0);
    Args x = args(p.t_int, N[n], N[m], 0, c); x.th = T[ty]; x.uh = ty == 3 ? un.h : T[ty]; x.root = MPI_ROOT;
    x.s = x.r = forbidden();
    if (ty == 2) x.sc = x.sd = x.rc = x.rd = (int *)forbidden();
    note("%s with MPI_ROOT", CN[k]);
    ok(CN[k], [&] { return coll(p.api, k, x); });
    p.after(CN[k]); state(mix(k, n * 64 + m * 8 + ty * 2 + c));
}
// histories: in-place calls between messages, ordinary collectives and MPI_ROOT calls
static void history()
{
    guarded([] {
        p.begin(pick_api()); uint64_t h = 3;
        static RType v; mk_vector(p.api, v, 2, 1, 2, p.t_int); mk_commit(p.api, v);
        for (int d = 0; d < (tier ? 6 : 5); d++) {
            int e = choose(4 + NALL - 1, "operation");
            h = mix(h, e);
            if (e == 0) p.send(SM_ISEND, 0, 5, p.fresh(1, v), 1, v);
            else if (e == 1) p.irecv(0, 5, p.fresh(2, p.t_int), 2, p.t_int);
            else if (e == 2) {
                char *s = room(1, v), *r = room(2, p.t_int);
                ok("Allgather", [&] { return p.api->Allgather(s, 1, v.h, r, 2, MPI_INT, MPI_COMM_WORLD); });
                r_copy(um.ref(s), 1, v, um.ref(r), 2, p.t_int, true); p.after("Allgather");
            } else if (e == 3) {
                Args x = args(v, 1, 1, 0); x.s = x.r = forbidden(); x.root = MPI_ROOT;
                ok("Scatterv", [&] { return coll(p.api, SCATTERV, x); }); p.after("Scatterv");
            } else {
                int k = e - 4; if (k >= BCAST) k++;
                Args x = args(v, 2, 2, 1); (scat(k) ? x.r : x.s) = in_place(); (scat(k) ? x.s : x.r) = p.fresh(8, v);
                note("%s in place", CN[k]);
                ok(CN[k], [&] { return coll(p.api, k, x); }); p.after(CN[k]);
            }
            state(mix(p.fp(), h));
        }
        p.drain();
    });
}
static void aged_sp()
{
    guarded([] {
        static RType t[3]; static const int Z[3] = {0, 4, 16};
        aged_twice([](P2P &q, int late) {
            if (!late) for (int i = 0; i < 3; i++) zoo(q.api, Z[i], q.t_int, t[i]);
            for (int k = 0; k < NALL; k++) for (int i = 0; i < 3; i++) for (int n = 1; n < 4; n++) for (int mode = 0; mode < 3; mode++) {
                if ((k == BCAST && mode == 1) || (mode == 2 && (k > BCAST || k == REDUCE)) || overlaps(t[i], n)) continue;
                q.forget(); Args x = args(t[i], n, n, 0); if (mode == 2) x.root = MPI_ROOT;
                char *s = mode == 2 ? forbidden() : room(n, t[i]), *r = mode == 2 ? forbidden() : room(n, t[i]);
                x.s = s; x.r = r; if (mode == 1) (scat(k) ? x.r : x.s) = in_place();
                ok(CN[k], [&] { return coll(q.api, k, x); });
                if (!mode && k != BCAST) r_copy(um.ref(s), n, t[i], um.ref(r), n, t[i], true);
                q.after(CN[k]);
            }
        }, 1);
        int k = choose(BCAST + 1, "collective"), root = choose(2, "root") ? 1 : -1;      // ends the process still
        Args x = args(p.t_int, 1, 1, 0); x.root = root; x.s = room(1, p.t_int); x.r = room(1, p.t_int);
        dies(CN[k], [&] { return coll(p.api, k, x); }); p.after(CN[k]);
    });
}
std::vector<Space> mc_spaces()
{
    return {
        {"in_place", "13 collectives in place, every predefined base type in 30 layouts, counts 0..3, four displacements, result buffer ordinary, inaccessible or null, four sets of insignificant arguments", in_place_body},
        {"values", "13 collectives in place, the reductions with every operation, every predefined type with sixteen special values in all, the first or the last element", values},
        {"medium", "0..40 and 63..257 items of four layouts over three bases on eleven kinds of communicator, ordinary, in place or with MPI_ROOT", medium},
        {"roots", "6 rooted collectives, ten roots, in place or not, counts 0..2, seven kinds of communicator, four layouts", roots},
        {"root_args", "MPI_ROOT with every combination of odd counts, types and inaccessible arrays", root_args},
        {"aged", AGED_TWICE_TEXT "1..3 items of three layouts in every collective, ordinary, in place and with MPI_ROOT; a wrong root at last", aged_sp},
        {"history", "all sequences of five (thorough six) of 17 operations mixing in-place, MPI_ROOT and ordinary calls with messages", history},
    };
}
