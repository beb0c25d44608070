#include "p2p.h"
#include "aged.h"
using namespace mc;
const char *mc_property = "C09";
// calls naming MPI_PROC_NULL with arbitrary other arguments
static const int TAGS[] = {0, 5, 6, 1681915906, MPI_ANY_TAG, 0x7fffffff, -2, (int)0x80000000};
static void nullcall(P2P &p, int k, int ci, int tag, int n, const RType &t, int ign, bool nobuf = false)
{
    char *b = nobuf ? nullptr : um.alloc(64, 16);
    switch (k) {
    case 0: case 1: case 2: case 3: case 4: p.send(k, ci, tag, b, n, t, MPI_PROC_NULL); break;
    case 5: case 6: p.irecv(ci, k == 6 ? MPI_ANY_TAG : tag, b, n, t, MPI_PROC_NULL); break;
    case 7: case 8: p.recv(ci, k == 8 ? MPI_ANY_TAG : tag, b, n, t, MPI_PROC_NULL, ign); break;
    case 9: case 10: p.iprobe(ci, k == 10 ? MPI_ANY_TAG : tag, MPI_PROC_NULL, ign); break;
    case 11: case 12: p.probe(ci, k == 12 ? MPI_ANY_TAG : tag, MPI_PROC_NULL, ign); break;
    case 13: case 14: p.sendrecv(ci, tag, b, n, t, k == 14 ? MPI_ANY_TAG : tag, um.alloc(64, 16), n, t, MPI_PROC_NULL, MPI_PROC_NULL, ign); break;
    }
}
static const int KINDS = 15;
// any mixture of real and null operations
static void mixture()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        int depth = tier ? 6 : 5;
        for (int d = 0; d < depth; d++) {
            int k = choose(KINDS + 7, "operation");
            char *b = p.fresh(1, p.t_int);
            if (k < KINDS) nullcall(p, k, 0, 5 + (d & 1), d == 2 ? 0 : 1, p.t_int, d == 3);
            else switch (k - KINDS) {
            case 0: p.send(SM_ISEND, 0, 5, b, 1, p.t_int); break;
            case 1: p.send(SM_ISEND, 0, 6, b, 1, p.t_int); break;
            case 2: p.irecv(0, 5, b, 1, p.t_int); break;
            case 3: p.irecv(0, MPI_ANY_TAG, b, 1, p.t_int, MPI_ANY_SOURCE); break;
            case 4: p.iprobe(0, MPI_ANY_TAG, MPI_ANY_SOURCE); break;
            case 5: if (p.find_send(0, 5) < 0) throw Skip(); p.recv(0, 5, b, 1, p.t_int); break;
            case 6: if (p.reqs.empty()) throw Skip(); p.test(0); break;
            }
            state(p.fp());
        }
        p.drain();
    });
}
// each kind of null call with every argument variety in several states
static void arguments()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a); p.stl = 2;
        int pre = choose(6, "state");
        int ci = 0;
        if (pre == 1 || pre == 4) p.send(SM_ISEND, 0, 5, p.fresh(1, p.t_int), 1, p.t_int);
        if (pre == 2) p.irecv(0, 5, p.fresh(1, p.t_int), 1, p.t_int);
        if (pre == 3) p.irecv(0, MPI_ANY_TAG, p.fresh(1, p.t_int), 1, p.t_int, MPI_ANY_SOURCE);
        if (pre == 4) p.send(SM_ISEND, 0, 6, p.fresh(1, p.t_int), 1, p.t_int);
        if (pre == 5) { ci = p.comm_new(0, 0); p.irecv(ci, MPI_ANY_TAG, p.fresh(1, p.t_int), 1, p.t_int); }
        RType t;
        switch (choose(7, "type")) {
        case 0: t = p.t_int; break;
        case 1: t = r_basic(MPI_DOUBLE); break;
        case 2: t = r_basic(MPI_CHAR); break;
        case 3: mk_vector(a, t, 2, 2, 3, p.t_int); mk_commit(a, t); break;
        case 4: mk_contig(a, t, 0, p.t_int); mk_commit(a, t); break;
        case 5: mk_contig(a, t, 3, p.t_int); break;          // not committed: no data moves
        case 6: t = r_basic(MPI_DOUBLE_INT); break;
        }
        RType ask[3]; mk_contig(a, ask[0], 2, p.t_int); mk_contig(a, ask[1], 3, r_basic(MPI_CHAR)); mk_contig(a, ask[2], 0, p.t_int);
        for (auto &x : ask) p.qtypes.push_back(&x);
        static const int N[] = {0, 1, 3, 1000000, 0x7fffffff};
        int n = N[choose(5, "count")], tag = TAGS[choose(8, "tag")];
        int k = choose(KINDS, "call");
        int ign = choose(2, "ignore status");
        int r0 = (int)p.reqs.size();
        nullcall(p, k, ci, tag, n, t, ign, choose(2, "no buffer"));
        // a request made by it is complete at once, by whichever call it is completed
        if ((int)p.reqs.size() > r0) switch (choose(9, "completion")) {
        case 0: p.wait(r0, ign); break;
        case 1: p.test(r0, ign); break;
        case 2: p.any({r0}, true, ign); break;
        case 3: p.any({r0}, false, ign); break;
        case 4: p.all({r0}, true, ign); break;
        case 5: p.all({r0}, false, ign); break;
        case 6: p.some({r0}, true, ign); break;
        case 7: p.some({r0}, false, ign); break;
        case 8: p.request_free(r0); break;
        }
        state(mix(p.fp(), k + 16 * (n & 0xff) + tag));
        p.drain();
    });
}
// one half of a sendrecv null, the other real
static void half()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a); p.stl = 2;
        for (int d = 0; d < (tier ? 3 : 2); d++) switch (choose(6, "state")) {
        case 0: break;
        case 1: p.send(SM_ISEND, 0, 5, p.fresh(2, p.t_int), 2, p.t_int); break;
        case 2: p.send(SM_ISEND, 0, 6, p.fresh(2, p.t_int), 2, p.t_int); break;
        case 3: p.irecv(0, 5, p.fresh(2, p.t_int), 2, p.t_int); break;
        case 4: p.irecv(0, 6, p.fresh(2, p.t_int), 2, p.t_int); break;
        case 5: p.irecv(0, MPI_ANY_TAG, p.fresh(2, p.t_int), 2, p.t_int, MPI_ANY_SOURCE); break;
        }
        int h = choose(2, "null half"), t = choose(3, "send tag"), rt = choose(3, "receive tag"), ign = choose(2, "ignore status"), sn = choose(3, "send count"), rn = choose(3, "receive count");
        if (t == 2 && h) throw Skip();
        t = t == 2 ? MPI_ANY_TAG : 5 + t;
        rt = rt == 2 ? MPI_ANY_TAG : 5 + rt;
        char *b = p.fresh(2, p.t_int), *b2 = p.fresh(2, p.t_int);
        p.sendrecv(0, t, b, sn, p.t_int, rt, b2, rn, p.t_int, h ? 0 : MPI_PROC_NULL, h ? MPI_PROC_NULL : 0, ign);
        state(mix(p.fp(), t * 8 + rt + h));
        p.drain();
    });
}
// many null requests in flight together with real ones
static void crowd()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        std::vector<int> sel;
        int pat[4]; for (int &x : pat) x = choose(4, "entry");
        int n = 4 + 8 * choose(2, "length");
        for (int i = 0; i < n; i++) {
            char *b = p.fresh(1, p.t_int);
            switch (pat[i % 4]) {
            case 0: sel.push_back(p.send(SM_ISEND, 0, 50 + i, b, 1, p.t_int, MPI_PROC_NULL)); break;
            case 1: sel.push_back(p.irecv(0, MPI_ANY_TAG, b, 1, p.t_int, MPI_PROC_NULL)); break;
            case 2: sel.push_back(p.send(SM_ISEND, 0, 50 + i, b, 1, p.t_int)); break;
            case 3: sel.push_back(p.irecv(0, 50 + i, b, 1, p.t_int)); break;
            }
        }
        for (int k = 0; k < 2; k++) switch (choose(6, "completion")) {
        case 0: p.any(sel, false); break;
        case 1: p.any(sel, true); break;
        case 2: p.all(sel, false); break;
        case 3: p.all(sel, true); break;
        case 4: p.some(sel, false); break;
        case 5: p.some(sel, true); break;
        }
        state(p.fp());
        p.drain();
    });
}
// after many other operations
static void aged()
{
    guarded([] { aged_twice([](P2P &p, int late) {
        for (int pre = 0; pre < 4; pre++) for (int k = 0; k < KINDS; k++) for (int n = 0; n < 2; n++) for (int t = 0; t < 3; t++) {
            p.forget();
            if (pre == 1) p.send(SM_ISEND, 0, 5, p.fresh(1, p.t_int), 1, p.t_int);
            if (pre == 2) p.irecv(0, 5, p.fresh(1, p.t_int), 1, p.t_int);
            if (pre == 3) p.irecv(0, MPI_ANY_TAG, p.fresh(1, p.t_int), 1, p.t_int, MPI_ANY_SOURCE);
            int r0 = (int)p.reqs.size(); nullcall(p, k, 0, t == 2 ? MPI_ANY_TAG : 5 + t, n, p.t_int, late);
            if ((int)p.reqs.size() > r0) switch ((k + n + t) % 5) { case 0: p.wait(r0); break; case 1: p.test(r0); break; case 2: p.any({r0}, true); break; case 3: p.all({r0}, false); break; case 4: p.request_free(r0); break; }
            p.drain();
        }
    }, 2); });
}
std::vector<Space> mc_spaces()
{
    return {
        {"mixture", "all histories of 5 (thorough 6) operations among 15 kinds of calls naming MPI_PROC_NULL and 7 real ones; everything drained at the end", mixture},
        {"arguments", "each null call in 6 states with 7 datatypes (an uncommitted one included), counts up to INT_MAX, 8 tags (any tag, negative and largest included), with or without a buffer, ignored or given status, request completed in 9 ways", arguments},
        {"half", "sendrecv with one half naming MPI_PROC_NULL after every history of 2 (thorough 3) operations, counts 0..2 on both sides", half},
        {"aged", AGED_TWICE_TEXT "each null call in four states with three tags, empty or not", aged},
        {"crowd", "arrays of 4 and 12 requests mixing null and real, pending ones, in every pattern; two completion calls", crowd},
    };
}
