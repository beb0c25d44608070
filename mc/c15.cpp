#include "aged.h"
#include "ways.h"
#include "zoo.h"
#include "plain.h"
#include "replaced.h"
using namespace mc;
const char *mc_property = "C15";
static void memory()
{
    static const int F[3] = {0xA5, 0, 0xFF};
    int m = choose(4, "memory contents");
    fill = F[m % 3];
    if (m == 3) env::reuse = true;
}
// move data with types of which some are not committed; throws Finished when the process ended as it had to
static void use(P2P &p, int way, const RType &t, int n, const RType &u, int m)
{
    Api *a = p.api;
    if (t.committed && u.committed) { move(a, p, way, t, n, u, m); return; }
    char *s = room(n, t), *r = room(m, u);
    int zero = 0, W = MPI_COMM_WORLD, th = t.h, uh = u.h;
    note("%s of %d x type %d to %d x type %d, %s%snot committed", WAY[way], n, t.h, m, u.h, t.committed ? "" : "the first ", u.committed ? "" : "the second ");
    int q1 = 0, q2 = 0; MPI_Status st;
    std::vector<int> cs = {n, 99}, cr = {m, 99};
    auto f = [&]() -> int {
        switch (way) {
        case 0: a->Isend(s, n, th, 0, 5, W, &q1); return a->Recv(r, m, uh, 0, 5, W, &st);
        case 1: a->Irecv(r, m, uh, 0, 5, W, &q1); return a->Send(s, n, th, 0, 5, W);
        case 2: a->Irecv(r, m, uh, 0, 5, W, &q1); return a->Ssend(s, n, th, 0, 5, W);
        case 3: a->Irecv(r, m, uh, 0, 5, W, &q1); return a->Rsend(s, n, th, 0, 5, W);
        case 4: a->Irecv(r, m, uh, 0, 5, W, &q1); return a->Irsend(s, n, th, 0, 5, W, &q2);
        case 5: a->Isend(s, n, th, 0, 5, W, &q1); return a->Irecv(r, m, uh, 0, 5, W, &q2);
        case 6: return a->Sendrecv(s, n, th, 0, 5, r, m, uh, 0, 5, W, &st);
        case 8: return a->Gather(s, n, th, r, m, uh, 0, W);
        case 9: return a->Gatherv(s, n, th, r, &m, &zero, uh, 0, W);
        case 10: return a->Allgather(s, n, th, r, m, uh, W);
        case 11: return a->Allgatherv(s, n, th, r, &m, &zero, uh, W);
        case 12: return a->Scatter(s, n, th, r, m, uh, 0, W);
        case 13: return a->Scatterv(s, &n, &zero, th, r, m, uh, 0, W);
        case 14: return a->Reduce(s, r, m, uh, MPI_SUM, 0, W);
        case 15: return a->Allreduce(s, r, m, uh, MPI_SUM, W);
        case 16: return a->Reduce_scatter(s, r, &m, uh, MPI_SUM, W);
        case 17: return a->Scan(s, r, m, uh, MPI_SUM, W);
        case 18: return a->Alltoall(s, n, th, r, m, uh, W);
        case 19: return a->Alltoallv(s, &n, &zero, th, r, &m, &zero, uh, W);
        default: return a->Alltoallw(s, &n, &zero, &th, r, &m, &zero, &uh, W);
        }
    };
    dies("moving data with a datatype that was not committed", f);
    um.check("a refused transfer");         // no data moved
    throw Finished();
}
static bool one_type(int way) { return way >= 14 && way <= 17; }
// every way of moving data, every layout, either side uncommitted
static void usage()
{
    guarded([] {
        memory();
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        static const int B[] = {MPI_INT, MPI_CHAR, MPI_DOUBLE_INT, MPI_REAL};
        RType b = r_basic(B[choose(4, "base")]), t, u;
        int i = 1 + choose(ZOO - 1, "layout"), which = choose(4, "committed"), way = choose(WAYS, "way"), n = 1 + choose(2, "count");
        if (way == 7) throw Skip();
        zoo(p.api, i, b, t, false);
        if (t.count() == 0 || overlaps(t, n)) throw Skip();
        if (one_type(way)) { if (which > 1) throw Skip(); if (which) mk_commit(p.api, t); use(p, way, t, n, t, n); }
        else {
            // the other side: the same elements one after the other, or the same layout made again
            zoo(p.api, i, b, u, false);
            if (which & 1) mk_commit(p.api, t);
            if (which & 2) mk_commit(p.api, u);
            if (t.committed && u.committed) {
                char *s = room(n, t), *r = room(n, u); (void)s; (void)r;
                int W = MPI_COMM_WORLD;
                ok("Allgather", [&] { return p.api->Allgather(s, n, t.h, r, n, u.h, W); });
                r_copy(um.ref(s), n, t, um.ref(r), n, u, true);
                p.after("Allgather");
                throw Finished();
            }
            use(p, way, t, n, u, n);
        }
        state(mix(t.h, way * 8 + which));
    });
}
// datatypes without elements have to be committed as well
static void empty()
{
    guarded([] {
        memory();
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        static const int L[] = {1, 7, 12, 26};
        RType b = r_basic(MPI_INT), x, t, u;
        int cb = choose(3, "what it is built from"), way = choose(WAYS, "way"), i = L[choose(4, "layout")], n = 1 + choose(2, "count"), other = choose(3, "other side"), which = choose(4, "committed");
        if (way == 7) throw Skip();
        if (cb) { mk_contig(p.api, x, 2, b); if (cb == 2) mk_commit(p.api, x); b = x; }
        zoo(p.api, i, b, t, false);
        if (which & 1) mk_commit(p.api, t);
        RType I = r_basic(MPI_INT);
        state(mix(mix(i * 4 + cb, way * 4 + which), other * 2 + n));
        if (one_type(way)) { if (other || which > 1) throw Skip(); use(p, way, t, n, t, n); return; }
        if (other == 2) { if (which > 1) throw Skip(); use(p, way, t, n, I, 0); return; }      // sent, against no integers
        zoo(p.api, other ? 1 : i, b, u, false);
        if (which & 2) mk_commit(p.api, u);
        use(p, way, t, n, u, 2 * n);
    });
}
// a predefined type on one side
static void mixed()
{
    guarded([] {
        memory();
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        std::vector<Basic> bs = basics();
        RType b = r_basic(bs[choose((int)bs.size(), "type")].handle), t;
        int way = choose(WAYS, "way"), side = choose(2, "side"), c = choose(4, "commit"), k = 1 + choose(3, "items");
        if (way == 7 || one_type(way)) throw Skip();
        mk_contig(p.api, t, k, b);
        if (c & 1) mk_commit(p.api, t);
        if (c == 3) mk_commit(p.api, t);
        if (c >= 2) { int h = b.h; ok("Type_commit", [&] { return p.api->Type_commit(&h); }); if (h != b.h) fail("Type_commit changed a predefined handle"); }
        if (side) use(p, way, t, 1, b, k); else use(p, way, b, k, t, 1);
        state(mix(b.h, way * 8 + side + c * 2));
    });
}
// all histories of constructions, commits and frees; then one of the types is used
static void history()
{
    guarded([] {
        memory();
        P2P &p = pp; Api *a = p.api; p.begin(pick_api()); a = p.api; p.stl = 2;
        static std::vector<RType> ts; ts.clear(); ts.reserve(32);
        RType I = r_basic(MPI_INT);
        int depth = tier ? 6 : 5;
        uint64_t h = 1;
        auto create = [&](int k, const RType &x) {
            RType o; int bl[2] = {1, 1}; long d[2] = {0, std::max<long>(0, x.upper()) + 8}; const RType *tt[2] = {&x, &I}; int dd[2] = {0, 2};
            switch (k) {
            case 0: mk_contig(a, o, 2, x); break;
            case 1: mk_dup(a, o, x); break;
            case 2: mk_struct(a, o, 2, bl, d, tt); break;
            case 3: mk_vector(a, o, 2, 1, 2, x); break;
            case 4: mk_indexed(a, o, 2, bl, dd, x); break;
            }
            if (k != 1) o.committed = false;
            ts.push_back(o);
        };
        create(choose(1, "first"), I);
        for (int s = 1; s < depth; s++) {
            int n = (int)ts.size();
            if (n == 0) { create(0, I); h = mix(h, 1); continue; }
            int k = choose(6, "step");
            int x = choose(n + (k < 3 ? 1 : 0), "of which");
            const RType old = x == n ? I : ts[x];
            if (k < 3) { static const int K[] = {0, 1, 2}; create(K[k], old); }
            else if (k == 3) mk_commit(a, ts[x]);
            else if (k == 4) { mk_free(a, ts[x]); ts.erase(ts.begin() + x); }
            else check_type(a, ts[x], "query");
            h = mix(h, k * 16 + x);
            if (ts.size() && ts.back().count() > 64) throw Skip();
        }
        state(h);
        if (ts.empty()) return;
        int x = choose((int)ts.size(), "used"); RType &t = ts[x];
        static const int WS[] = {0, 1, 6, 8, 15, 20};
        int way = WS[choose(6, "way")];
        check_type(a, t, "query");
        if (one_type(way)) use(p, way, t, 1, t, 1);
        else {
            // the other side: plain integers, predefined
            int side = choose(2, "side"), n = (int)t.count();
            if (side) use(p, way, t, 1, I, n); else use(p, way, I, n, t, 1);
        }
        for (auto &q : ts) check_type(a, q, "query after use");
    });
}
// what an uncommitted datatype may be used for, and committing it afterwards
static void building()
{
    guarded([] {
        memory();
        P2P &p = pp; p.begin(pick_api()); Api *a = p.api; p.stl = 2;
        RType b = r_basic(MPI_INT), t, o;
        int i = 1 + choose(ZOO - 1, "layout"), j = choose(ZOO, "layout over it"), c = choose(4, "commits");
        zoo(a, i, b, t, false); if (t.count() == 0) throw Skip();
        if (c & 1) mk_commit(a, t);
        check_type(a, t, "a datatype");
        if (j == 0) mk_dup(a, o, t); else { zoo(a, j, t, o, false); if (i != 24) o.committed = false; if (j != 24) o.committed = false; }
        if (j == 24) throw Skip();              // a duplicate of a vector: as any other
        if (c & 2) mk_commit(a, o);
        check_type(a, t, "the component"); check_type(a, o, "the datatype built from it");
        if (overlaps(o, 1) || o.count() == 0 || o.count() > 500 || overlaps(t, 1)) throw Skip();
        int which = choose(2, "used");
        RType &x = which ? o : t;
        int W = MPI_COMM_WORLD;
        char *s = room(1, x), *r = room(1, x);
        auto f = [&] { return a->Alltoall(s, 1, x.h, r, 1, x.h, W); };
        state(mix(i * 32 + j, c * 2 + which));
        if (!x.committed) { dies("moving data with a datatype that was not committed", f); um.check("a refused transfer"); return; }
        ok("Alltoall", f);
        r_copy(um.ref(s), 1, x, um.ref(r), 1, x, true);
        p.after("Alltoall");
    });
}
// every constructor with no, one and two blocks and items over a datatype committed before, after or never
static void degenerate() { guarded([] { P2P &p = pp; p.begin(pick_api()); memory(); plain_space(p, false); }); }
// requests posted with committed types beside uncommitted ones
static void pending()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); Api *a = p.api; p.stl = 2;
        static RType ty[3]; RType I = r_basic(MPI_INT);
        mk_contig(a, ty[0], 2, I); mk_commit(a, ty[0]);
        mk_contig(a, ty[1], 2, ty[0].h ? I : I);
        mk_vector(a, ty[2], 2, 1, 2, I); mk_commit(a, ty[2]);
        ty[1].committed = false;
        bool bad = false;
        for (int d = 0; d < (tier ? 5 : 4); d++) {
            int send = choose(2, "send or receive"), k = choose(3, "type"), tag = 5 + choose(2, "tag");
            // an operation with the uncommitted type that matches nothing yet may or may not be refused: only when data moves is it settled
            RType &t = ty[k];
            int q = 0; char *b = p.fresh(1, t);
            bool match = send ? p.find_recv(0, tag) >= 0 : p.find_send(0, tag) >= 0;
            if (!match && !t.committed) {
                Term x = run([&] { send ? a->Isend(b, 1, t.h, 0, tag, MPI_COMM_WORLD, &q) : a->Irecv(b, 1, t.h, 0, tag, MPI_COMM_WORLD, &q); });
                if (x.kind == CRASHED || x.kind == HUNG) fail("posting with an uncommitted datatype: %s", kindname(x.kind));
                if (x.kind != RETURNED) { um.check("a refused call"); return; }
                p.add(send, 0, 0, tag, b, 1, &t); p.after("posting"); continue;
            }
            bool dies_now = false;
            if (match) { Op &o = p.ops[send ? p.comms[0].rq[p.find_recv(0, tag)] : p.comms[0].sq[p.find_send(0, tag)]]; dies_now = !o.t->committed || !t.committed; }
            if (dies_now) {
                dies("completing a transfer with an uncommitted datatype", [&] { return send ? a->Isend(b, 1, t.h, 0, tag, MPI_COMM_WORLD, &q) : a->Irecv(b, 1, t.h, 0, tag, MPI_COMM_WORLD, &q); });
                um.check("a refused transfer"); return;
            }
            if (send) p.send(SM_ISEND, 0, tag, b, 1, t); else p.irecv(0, tag, b, 1, t);
            state(p.fp());
        }
        (void)bad;
    });
}
// whether a datatype is committed has nothing to do with what was in its place
static void replaced_sp()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a);
        static RType b; b = r_basic(MPI_INT);
        int how = choose(7, "way"), was = choose(6, "use of the first one"), n = 1 + choose(2, "count"), both = choose(2, "committed");
        static const int W[] = {0, 1, 6, 8, 13, 15, 20};
        int way = W[how];
        RType &t = replaced(a, b, b, [&](const RType &old) { replaced_use(a, p, was, way, false, old, b, n); }, false);
        if (!t.count() || overlaps(t, n)) throw Skip();
        if (both) mk_commit(a, t);
        state(mix(way * 8 + was, n * 2 + both));
        if (one_type(way)) use(p, way, t, n, t, n); else use(p, way, t, n, b, (int)(n * t.count()));
    });
}
// after thousands of earlier operations
static void aged()
{
    guarded([] {
        int k = choose(AGE_ALL, "earlier operations"), g = choose(ages(), "how many"), way = choose(WAYS, "way"), which = choose(4, "committed"); if (way == 7) throw Skip();
        P2P &p = pp; p.begin(tier ? pick_api() : (k + g) & 1 ? api_f : api_c); p.stl = 2;
        RType b = r_basic(MPI_INT), t, u; int other = -7; ok("Comm_dup", [&] { return p.api->Comm_dup(MPI_COMM_WORLD, &other); });
        if (one_type(way) && which > 1) throw Skip();
        age(p, k, AGE[g][0], other); zoo(p.api, 1 + (k + way) % (ZOO - 1), b, t, false); if (t.count() == 0 || overlaps(t, 1)) throw Skip();
        zoo(p.api, 1 + (k + way) % (ZOO - 1), b, u, false);
        if (which & 1) mk_commit(p.api, t);
        if (which & 2) mk_commit(p.api, u);
        age(p, k, AGE[g][1], other);
        if (one_type(way)) use(p, way, t, 1, t, 1); else use(p, way, t, 1, u, 1);
        state(mix(k * 16 + g, way * 4 + which));
    });
}
std::vector<Space> mc_spaces()
{
    return {
        {"usage", "29 layouts over four bases, committed or not on either side, in 20 ways of moving data, counts 1 and 2, four kinds of memory contents; refused transfers leave all memory unchanged", usage},
        {"empty", "four layouts without elements, over committed, uncommitted and predefined datatypes, either side committed or not, 20 ways", empty},
        {"mixed", "every predefined datatype against 1..3 items of it made contiguous, committed or not, twice, or the predefined one committed by name, either side, in 16 ways", mixed},
        {"history", "all histories of 5 (thorough 6) constructions, duplications, commits, frees and queries, then each surviving datatype used in 6 ways on either side", history},
        {"building", "30 layouts over each of 29 layouts, each committed or not, then either moved", building},
        {"degenerate", "eight constructors with 0..2 blocks of 0..2 items, with or without gaps, over three inner datatypes and three bases; the inner one committed before, after or never, the outer one committed or not; either is moved", degenerate},
        {"pending", "all sequences of 4 (thorough 5) nonblocking sends and receives with committed and uncommitted datatypes on two tags", pending},
        {"replaced", REPLACED_TEXT "committed or not, moved in seven ways", replaced_sp},
        {"aged", "200..66000 (thorough 131071) earlier operations (8, thorough 11 numbers) of sixteen kinds before and after a datatype and its copy are made and either, both or none are committed, moved in 20 ways", aged},
    };
}
