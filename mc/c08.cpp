#include "aged.h"
using namespace mc;
const char *mc_property = "C08";
extern "C" int mpi_abort_(int *, int *, int *);
static const int BAD_DEST[] = {1, 2, -1, -3, -4, 100, 0x7fffffff, (int)0x80000000};
static const int BAD_SRC[] = {1, 2, -3, -4, 100, 0x7fffffff, (int)0x80000000};

// setting an error handler succeeds and changes nothing: errors stay fatal
static void handler(P2P &p)
{
    int k = choose(tier ? 3 : 2, "error handler"); if (!k) return;
    note("Errhandler_set(%s)", k == 1 ? "MPI_ERRORS_RETURN" : "MPI_ERRORS_ARE_FATAL");
    for (auto &c : p.comms) { int h = c.h; ok("Errhandler_set", [&] { return MPI_Errhandler_set(h, k == 1 ? MPI_ERRORS_RETURN : MPI_ERRORS_ARE_FATAL); }); }
}
// a state built by nonblocking operations, requests tested or completed on the way
static int pat;      // sizes: all one, all empty, alternating
static int cn(int d) { return pat == 0 ? 1 : pat == 1 ? 0 : pat == 2 ? d & 1 : ~d & 1; }
static void build(P2P &p, int depth, bool two, int pats = 1)
{
    pat = choose(pats, "counts");
    for (int d = 0; d < depth; d++) {
        struct E { int k, c, t; }; static std::vector<E> en; en.clear();
        en.push_back({9, 0, 0});
        for (int c = 0; c < (two ? 2 : 1); c++) { en.push_back({0, c, 5}); en.push_back({0, c, 6}); en.push_back({1, c, 5}); en.push_back({1, c, MPI_ANY_TAG}); }
        E e = en[choose((int)en.size(), "operation")];
        if (e.k == 9) return;
        if (e.k == 0) p.send(SM_ISEND, e.c, e.t, p.fresh(1, p.t_int), cn(d), p.t_int);
        else p.irecv(e.c, e.t, p.fresh(1, p.t_int), cn(d), p.t_int);
    }
}
// one further call of any kind: must return exactly if the model says it can be satisfied
static void further(P2P &p, bool two)
{
    int nc = two ? 2 : 1;
    struct E { int k, c, x, y; }; static std::vector<E> en; en.clear();
    for (int c = 0; c < nc; c++) {
        for (int m : {SM_IRSEND, SM_SEND, SM_SSEND, SM_RSEND}) for (int t : {5, 6}) en.push_back({0, c, m, t});
        for (int t : {5, 6, MPI_ANY_TAG}) { en.push_back({1, c, t, 0}); en.push_back({2, c, t, 0}); }
        for (int s : {5, 6}) for (int r : {5, 6, MPI_ANY_TAG}) en.push_back({3, c, s, r});
    }
    for (int i = 0; i < (int)p.reqs.size(); i++) en.push_back({4, 0, i, 0});
    for (int w = 0; w < 3; w++) en.push_back({5, 0, w, 0});
    E e = en[choose((int)en.size(), "further call")];
    char *b = p.fresh(1, p.t_int), *b2 = p.fresh(1, p.t_int);
    int n = pat ? choose(2, "empty") : 1;
    std::vector<int> all; for (int i = 0; i < (int)p.reqs.size(); i++) all.push_back(i);
    switch (e.k) {
    case 0: p.send(e.x, e.c, e.y, b, n, p.t_int); break;
    case 1: p.recv(e.c, e.x, b, n, p.t_int, choose(2, "any source") ? MPI_ANY_SOURCE : 0); break;
    case 2: p.probe(e.c, e.x, choose(2, "any source") ? MPI_ANY_SOURCE : 0); break;
    case 3: p.sendrecv(e.c, e.x, b, n, p.t_int, e.y, b2, n, p.t_int); break;
    case 4: p.wait(e.x); break;
    case 5: if (e.x == 0) p.any(all, true); else if (e.x == 1) p.all(all, true); else p.some(all, true); break;
    }
    state(p.fp());
}
static void hopeless() { guarded([] { P2P &p = pp; p.begin(pick_api()); build(p, tier ? 8 : 6, false, 4); further(p, false); p.drain(); }); }
static void hopeless2() { guarded([] { P2P &p = pp; p.begin(pick_api()); p.comm_new(0, 0); build(p, tier ? 6 : 4, true, 4); further(p, true); p.drain(); }); }
// two calls in a row that may each be hopeless, then everything is completed
static void twice() { guarded([] { P2P &p = pp; p.begin(pick_api()); handler(p); build(p, tier ? 6 : 4, false, 4); further(p, false); further(p, false); p.drain(); }); }

// subsets of requests in waits
static void subsets()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api());
        std::vector<int> sel; int n = choose(tier ? 6 : 5, "entries");
        for (int i = 0; i < n; i++) switch (choose(5, "entry")) {
        case 0: p.reqs.push_back(P2P::R{0, -1}); sel.push_back((int)p.reqs.size() - 1); break;
        case 1: sel.push_back(p.irecv(0, 50 + i, p.fresh(1, p.t_int), 1, p.t_int)); break;
        case 2: sel.push_back(p.send(SM_ISEND, 0, 50 + i, p.fresh(1, p.t_int), 1, p.t_int)); break;
        case 3: { int s = p.send(SM_ISEND, 0, 50 + i, p.fresh(1, p.t_int), 1, p.t_int); p.recv(0, 50 + i, p.fresh(1, p.t_int), 1, p.t_int); sel.push_back(s); } break;
        case 4: { int r = p.irecv(0, 50 + i, p.fresh(1, p.t_int), 1, p.t_int); p.send(SM_SEND, 0, 50 + i, p.fresh(1, p.t_int), 1, p.t_int); sel.push_back(r); } break;
        }
        for (int k = 0; k < 2; k++) {
            int w = choose(4, "wait");
            int ign = choose(2, "ignore status");
            if (w == 0) p.any(sel, true, ign); else if (w == 1) p.all(sel, true, ign); else if (w == 2) p.some(sel, true, ign);
            else for (int x : sel) p.wait(x, ign);
        }
        state(p.fp());
        p.drain();
    });
}
// invalid ranks in every call that takes one, after any short history
static void badrank()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a);
        int c = choose(2, "communicator") ? p.comm_new(0, 0) : 0, h = p.comms[c].h;
        handler(p);
        for (int d = 0; d < 2; d++) switch (choose(4, "history")) {
        case 0: break;
        case 1: p.send(SM_ISEND, c, 5, p.fresh(1, p.t_int), 1, p.t_int); break;
        case 2: p.irecv(c, 5, p.fresh(1, p.t_int), 1, p.t_int); break;
        case 3: p.irecv(c, MPI_ANY_TAG, p.fresh(1, p.t_int), 1, p.t_int, MPI_ANY_SOURCE); break;
        }
        char *b = um.alloc(64, 16), *b2 = um.alloc(64, 16);
        int rq = 0, fl; MPI_Status *st = p.st_prep(1), *stp = choose(2, "ignore status") ? MPI_STATUS_IGNORE : st;
        int k = choose(13, "call");
        int n = choose(2, "zero count") ? 0 : 1;
        int bd = k < 5 || k == 9 || k == 12 ? BAD_DEST[choose(8, "destination")] : 0;
        int bs = (k >= 5 && k < 9) || k == 10 ? BAD_SRC[choose(7, "source")] : k == 11 ? BAD_SRC[choose(7, "source")] : 0;
        int tag = choose(2, "tag") ? 6 : 5;
        note("call %d with destination %d source %d", k, bd, bs);
        auto f = [&]() -> int {
            switch (k) {
            case 0: return a->Isend(b, n, MPI_INT, bd, tag, h, &rq);
            case 1: return a->Irsend(b, n, MPI_INT, bd, tag, h, &rq);
            case 2: return a->Send(b, n, MPI_INT, bd, tag, h);
            case 3: return a->Ssend(b, n, MPI_INT, bd, tag, h);
            case 4: return a->Rsend(b, n, MPI_INT, bd, tag, h);
            case 5: return a->Irecv(b, n, MPI_INT, bs, tag, h, &rq);
            case 6: return a->Recv(b, n, MPI_INT, bs, tag, h, stp);
            case 7: return a->Iprobe(bs, tag, h, &fl, stp);
            case 8: return a->Probe(bs, tag, h, stp);
            case 9: return a->Sendrecv(b, n, MPI_INT, bd, tag, b2, n, MPI_INT, 0, tag, h, stp);
            case 10: return a->Sendrecv(b, n, MPI_INT, 0, tag, b2, n, MPI_INT, bs, tag, h, stp);
            case 11: return a->Sendrecv(b, n, MPI_INT, MPI_PROC_NULL, tag, b2, n, MPI_INT, bs, tag, h, stp);
            default: return a->Sendrecv(b, n, MPI_INT, bd, tag, b2, n, MPI_INT, MPI_PROC_NULL, tag, h, stp);
            }
        };
        dies("a call with an invalid rank", f);
        state(mix(p.fp(), k * 1000 + (bd & 0xff) + (bs & 0xff) * 7));
        if (k < 9) um.check("a call with an invalid rank");
    });
}
// invalid roots
static void badroot()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); p.begin(a);
        static const int BAD[] = {1, 2, -1, -2, -4, 100, 0x7fffffff, (int)0x80000000};
        int r = BAD[choose(8, "root")], k = choose(6, "collective");
        int h = choose(2, "communicator") ? p.comms[p.comm_new(choose(COMM_HOWS, "constructor"), 0)].h : MPI_COMM_WORLD;
        int n = choose(2, "zero count") ? 0 : 1, z = 0;
        int ip = choose(3, "buffers"); handler(p);
        char *b = um.alloc(64, 16), *b2 = um.alloc(64, 16);
        void *sb = ip == 1 ? MPI_IN_PLACE : b, *rb = ip == 2 ? MPI_IN_PLACE : b2;
        if (k == 0 && ip) throw Skip();
        if ((k == 1 || k == 2) && ip == 2) throw Skip();       // in place is the send side of a gather
        if ((k == 3 || k == 4) && ip == 1) throw Skip();       // and the receive side of a scatter
        if (k == 5 && ip == 2) throw Skip();
        note("collective %d with root %d", k, r);
        auto f = [&]() -> int {
            switch (k) {
            case 0: return a->Bcast(b, n, MPI_INT, r, h);
            case 1: return a->Gather(sb, n, MPI_INT, rb, n, MPI_INT, r, h);
            case 2: return a->Gatherv(sb, n, MPI_INT, rb, &n, &z, MPI_INT, r, h);
            case 3: return a->Scatter(sb, n, MPI_INT, rb, n, MPI_INT, r, h);
            case 4: return a->Scatterv(sb, &n, &z, MPI_INT, rb, n, MPI_INT, r, h);
            default: return a->Reduce(sb, rb, n, MPI_INT, MPI_SUM, r, h);
            }
        };
        dies("a collective with an invalid root", f);
        um.check("a collective with an invalid root");
        state(mix(k, r));
    });
}
// MPI_Abort ends the process with the given code in any state
static void aborts()
{
    guarded([] {
        static const int CODES[] = {0, 1, 2, 3, 42, 127, 128, 255, 256, 257, -1, -2, 77777, 0x7fffffff, (int)0x80000000};
        P2P &p = pp; p.begin(pick_api());
        build(p, 3, false);
        int c = choose(2, "communicator") ? p.comm_new(choose(COMM_HOWS, "constructor"), 0) : 0;
        if (c && choose(2, "freed")) { p.comm_free(c); c = 0; }
        int code = CODES[choose(15, "code")], h = p.comms[c].h, ierr = 0;
        int k = choose(2, "binding");
        Term t = run([&] { if (k) mpi_abort_(&h, &code, &ierr); else MPI_Abort(h, code); });
        if (t.kind != EXITED || (t.code & 0xff) != (code & 0xff)) fail("MPI_Abort(%d) %s with code %d", code, kindname(t.kind), t.code);
        um.check("MPI_Abort");
        state(mix(p.fp(), code));
    });
}
// after thousands of earlier operations
static void aged()
{
    guarded([] {
        int k = choose(AGE_ALL, "earlier operations"), g = choose(tier ? ages() : 4, "how many"); static const int G[] = {1, 2, 3, 6, 7, 0, 4, 5, 8, 9, 10};
        P2P &p = pp; p.begin(tier ? pick_api() : (k + g) & 1 ? api_f : api_c);
        int other = -7; ok("Comm_dup", [&] { return p.api->Comm_dup(MPI_COMM_WORLD, &other); });
        age(p, k, AGE[G[g]][0], other); build(p, 1, false); for (int r : p.comms[0].rq) if (p.ops[r].tag == MPI_ANY_TAG) throw Skip();      // it would take part
        age(p, k, AGE[G[g]][1], other); build(p, 1, false);
        further(p, false); p.drain();
    });
}
static void aged_bad()
{
    guarded([] {
        int k = choose(AGE_ALL, "earlier operations"), g = choose(ages(), "how many"), e = choose(9, "call");
        P2P &p = pp; Api *a = tier ? pick_api() : (k + g) & 1 ? api_f : api_c; p.begin(a);
        int other = -7; ok("Comm_dup", [&] { return p.api->Comm_dup(MPI_COMM_WORLD, &other); });
        age(p, k, AGE[g][0] + AGE[g][1], other);
        char *b = um.alloc(64, 16), *b2 = um.alloc(64, 16); int W = MPI_COMM_WORLD, rq = 0, fl, n = 1, z = 0, code = 5, ierr = 0;
        if (e == 8) { Term t = run([&] { if (a == api_f) mpi_abort_(&W, &code, &ierr); else MPI_Abort(W, code); }); if (t.kind != EXITED || (t.code & 255) != 5) fail("MPI_Abort(5) %s with code %d", kindname(t.kind), t.code); um.check("MPI_Abort"); return; }
        dies("a call with an invalid rank or root", [&]() -> int {
            switch (e) {
            case 0: return a->Isend(b, 1, MPI_INT, 1, 5, W, &rq);
            case 1: return a->Irecv(b, 1, MPI_INT, 1, 5, W, &rq);
            case 2: return a->Iprobe(1, 5, W, &fl, MPI_STATUS_IGNORE);
            case 3: return a->Bcast(b, 1, MPI_INT, 1, W);
            case 4: return a->Gather(b, 1, MPI_INT, b2, 1, MPI_INT, 1, W);
            case 5: return a->Scatter(b, 1, MPI_INT, b2, 1, MPI_INT, 1, W);
            case 6: return a->Reduce(b, b2, 1, MPI_INT, MPI_SUM, 1, W);
            default: return a->Gatherv(b, 1, MPI_INT, b2, &n, &z, MPI_INT, 1, W);
            }
        });
        um.check("a call with an invalid rank or root"); state(mix(k * 16 + g, e));
    });
}
std::vector<Space> mc_spaces()
{
    return {
        {"hopeless", "every history of up to 6 (thorough 8) Isend/Irecv operations with four patterns of full and empty messages, then every blocking send, ready send, receive, probe, sendrecv and wait: it returns MPI_SUCCESS exactly if the model can satisfy it, and ends the process with a failure status otherwise", hopeless},
        {"hopeless2", "the same over two communicators, histories of up to 4 (thorough 6)", hopeless2},
        {"twice", "two such calls in a row after histories of up to 4 (thorough 6), everything completed afterwards, with error handlers set", twice},
        {"aged", "200..66000 earlier operations (4, thorough 11 numbers) of sixteen kinds before, between and after two Isend/Irecv operations, then each further call of \"hopeless\"", aged},
        {"aged_bad", "200..66000 (thorough 131071) earlier operations (8, thorough 11 numbers) of sixteen kinds, then an invalid rank or root in eight calls or MPI_Abort", aged_bad},
        {"subsets", "arrays of up to 4 (thorough 5) null, pending and complete requests, every two waits in a row", subsets},
        {"badrank", "8 invalid destinations and 7 invalid sources in all 13 argument positions, after every history of two operations, zero and nonzero counts, two communicators", badrank},
        {"badroot", "8 invalid roots in the six rooted collectives, in place or not, any communicator", badroot},
        {"aborts", "MPI_Abort with 15 codes after every history of up to 3 operations, through both bindings", aborts},
    };
}
