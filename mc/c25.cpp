#include "ops.h"
#include "threads.h"
using namespace mc;
const char *mc_property = "C25";
extern "C" int mpi_init_thread_(int *, int *, int *);
// which thread makes the next call: any one already in use, or the next fresh one
struct Who {
    Threads th; int n, used = 1;
    Who(int n_, bool fleeting = false) : n(n_) { th.fleeting = fleeting; }
    void next() { if (th.fleeting) return; int k = choose(std::min(used + 1, n), "thread"); if (k == used) used++; th.cur = k; note("[thread %d]", th.cur); }
    void rotate() { if (!th.fleeting) th.cur = (th.cur + 1) % n; }
};
// everything still under way is completed, each call by another thread
static void drain(P2P &p, Who &w)
{
    for (auto &o : p.ops) if (!o.done && !o.t->h) return;      // its datatype is gone
    for (size_t c = 0; c < p.comms.size(); c++) {
        if (!p.comms[c].live) continue;
        while (!p.comms[c].sq.empty()) { w.rotate(); Op o = p.ops[p.comms[c].sq[0]]; p.recv((int)c, MPI_ANY_TAG, p.fresh(o.n, *o.t), o.n, *o.t); }
        while (!p.comms[c].rq.empty()) { w.rotate(); Op o = p.ops[p.comms[c].rq[0]]; p.send(SM_SEND, (int)c, o.tag == MPI_ANY_TAG ? 4242 : o.tag, p.fresh(o.n, *o.t), o.n, *o.t); }
    }
    for (size_t i = 0; i < p.reqs.size(); i++) { w.rotate(); if (p.reqs[i].op >= 0 && p.ops[p.reqs[i].op].done) p.wait((int)i); }
    for (auto &t : ty) if (t.h) { w.rotate(); check_type(p.api, t, "a datatype"); }
    for (size_t c = 0; c < p.comms.size(); c++) if (p.comms[c].live) { w.rotate(); int r = -1, n = -1; ok("Comm_rank", [&] { return p.api->Comm_rank(p.comms[c].h, &r); }); w.rotate(); ok("Comm_size", [&] { return p.api->Comm_size(p.comms[c].h, &n); }); if (r != 0 || n != 1) fail("communicator %zu has size %d and rank %d", c, n, r); }
}
static void program(int nthreads, int depth, const std::vector<int> &ops, bool langs)
{
    guarded([&] {
        P2P &p = pp; Api *a = langs ? pick_api() : api_c; bool fleeting = choose(2, "each call by a thread of its own");
        Who w(nthreads, fleeting); ty.clear();
        env::reuse = true;
        p.reset(a); p.stl = 2; p.handles = true;
        w.next();
        ok("Init", [&] { return a->Init(); });
        for (int d = 0; d < depth; d++) {
            int e = ops[choose((int)ops.size(), "operation")];
            w.next();
            if (!apply(p, e)) throw Skip();
            state(mix(mix(p.fp(), ty.size()), w.th.cur * 8 + w.used + 64 * fleeting));
        }
        drain(p, w);
        w.rotate(); ok("Finalize", [&] { return a->Finalize(); });
        p.after("Finalize");
    });
}
static void every() { static std::vector<int> o; if (o.empty()) for (int i = 0; i < NOPS; i++) o.push_back(i); program(3, 2, o, true); }
static void three() { static std::vector<int> o = {0, 1, 2, 4, 5, 6, 9, 12, 14, 20, 21, 22, 23, 24, 26, 27, 29, 32, 41, 43, 46}; program(3, tier ? 4 : 3, o, tier); }
static void messages() { static std::vector<int> o = {0, 1, 2, 25}; program(tier ? 3 : 2, tier ? 6 : 5, o, false); }

// satisfiable or not, a blocking call does the same on every thread
static void hopeless()
{
    guarded([] {
        P2P &p = pp; Api *a = pick_api(); Who w(3, choose(2, "each call by a thread of its own"));
        p.reset(a); p.stl = 2;
        w.next(); ok("Init", [&] { return a->Init(); });
        auto buf = [&] { return p.fresh(1, p.t_int); };
        for (int d = 0; d < 2; d++) {
            int e = choose(4, "operation"); w.next();
            switch (e) {
            case 0: p.send(SM_ISEND, 0, 5, buf(), 1, p.t_int); break;
            case 1: p.irecv(0, 5, buf(), 1, p.t_int); break;
            case 2: p.irecv(0, MPI_ANY_TAG, buf(), 1, p.t_int, MPI_ANY_SOURCE); break;
            case 3: p.iprobe(0, 5); break;
            }
        }
        for (int d = 0; d < 2; d++) {
            int e = choose(8, "blocking call"); w.next();
            switch (e) {
            case 0: p.send(SM_SEND, 0, 5, buf(), 1, p.t_int); break;
            case 1: p.recv(0, 5, buf(), 1, p.t_int); break;
            case 2: p.recv(0, MPI_ANY_TAG, buf(), 1, p.t_int, MPI_ANY_SOURCE); break;
            case 3: p.probe(0, 5); break;
            case 4: p.send(SM_RSEND, 0, 6, buf(), 1, p.t_int); break;
            case 5: if (p.reqs.empty()) throw Skip(); p.wait(0); break;
            case 6: p.sendrecv(0, 5, buf(), 1, p.t_int, 5, buf(), 1, p.t_int); break;
            case 7: { std::vector<int> v; for (size_t i = 0; i < p.reqs.size(); i++) v.push_back((int)i); if (v.empty()) throw Skip(); p.all(v, true); } break;
            }
        }
        state(mix(p.fp(), w.used));
        drain(p, w);
    });
}
// many objects made by several threads
static void crowd()
{
    P2P &p = pp; Api *a = pick_api(); bool fl = choose(2, "each call by a thread of its own"); int kind = choose(3, "objects"), n = 250 + choose(12, "objects"), pat = choose(4, "who"), by = choose(3, "completed by");
    if (fl && (pat || by)) throw Skip();
    Who w(3, fl); env::reuse = true;
    p.reset(a); p.stl = 1; p.handles = false; ty.clear();
    ok("Init", [&] { return a->Init(); });
    RType I = p.t_int; std::vector<int> seen;
    for (int i = 0; i < n; i++) {
        w.th.cur = pat == 0 ? i % 3 : pat == 1 ? (i >= 128) : pat == 2 ? (i * 7 / 5) % 2 + 1 : 1;
        if (kind == 0) p.irecv(0, i, p.fresh(1, p.t_int), 1, p.t_int);
        else if (kind == 1) p.comm_new(i % 4, 0);
        else { ty.emplace_back(); mk_contig(a, ty.back(), 1 + i % 5, I); }
    }
    for (auto &r : p.reqs) seen.push_back(r.h); for (size_t c = 1; c < p.comms.size(); c++) seen.push_back(p.comms[c].h); for (auto &t : ty) seen.push_back(t.h);
    std::sort(seen.begin(), seen.end()); if (std::unique(seen.begin(), seen.end()) != seen.end()) fail("two live objects have the same handle");
    for (int i = 0; i < n; i++) {
        w.th.cur = by == 0 ? 2 : by == 1 ? i % 2 : (n - i) % 3;
        if (kind == 0) { p.send(SM_SEND, 0, i, p.fresh(1, p.t_int), 1, p.t_int); p.wait(i); }
        else if (kind == 1) p.comm_free(i + 1);
        else { check_type(a, ty[i], "a datatype"); mk_free(a, ty[i]); }
    }
    ok("Finalize", [&] { return a->Finalize(); });
    state(mix(n, kind * 64 + pat * 8 + by));
}
// finalized and initialized again by any thread, with many objects before and after: no thread remembers the old ones
static void again()
{
    guarded([] {
        static const std::vector<int> N = {1, 2, 100, 254, 255, 256, 257, 300, 520};
        P2P &p = pp; Api *a = pick_api(); int kind = choose(3, "objects"), n1 = pick(N, "objects at first"), n2 = pick(N, "objects later"), who = choose(27, "who"), order = choose(2, "order"); env::reuse = choose(2, "memory");
        Who w(3); RType I = p.t_int; uint64_t h = 1;
        for (int cyc = 0; cyc < 2; cyc++) {
            w.th.cur = who % 3;
            p.reset(a); p.stl = 1; p.memcheck = false; ty.clear(); I = p.t_int;
            ok("Init", [&] { return a->Init(); });
            int n = cyc ? n2 : n1;
            auto make = [&](int i) { if (kind == 0) p.irecv(0, i, p.fresh(1, I), 1, I); else if (kind == 1) p.comm_new(i % 4, 0); else { ty.emplace_back(); mk_contig(a, ty.back(), 1 + (i + cyc) % 5, I); } };
            auto touch = [&](int i) { if (kind == 0) p.test(i); else if (kind == 1) { p.iprobe(i + 1, MPI_ANY_TAG); } else check_type(a, ty[i], "a datatype"); };
            w.th.cur = who / 3 % 3; for (int i = 0; i < n; i++) make(i);
            w.th.cur = who / 9; if (order) for (int i = n; i-- > 0;) touch(i); else for (int i = 0; i < n; i++) touch(i);
            w.rotate(); for (int i = 0; i < n; i += 50) touch(i);
            if (cyc && kind == 0) { w.rotate(); for (int i = 0; i < n; i++) { p.send(SM_SEND, 0, i, p.fresh(1, I), 1, I); p.wait(i); } }
            ok("Finalize", [&] { return a->Finalize(); });
            um.check("Finalize"); h = mix(h, p.fp() + n);
        }
        state(mix(mix(h, who), kind * 4 + order));
    });
}
// initialization with a thread level
static void levels()
{
    guarded([] {
        static const int REQ[] = {MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE, -1, -7, 4, 1000, INT32_MAX, INT32_MIN};
        P2P &p = pp; int f = choose(2, "binding"), cycles = 1 + choose(tier ? 3 : 2, "initializations"); Api *a = f ? api_f : api_c;
        Who w(2, choose(2, "each call by a thread of its own"));
        for (int k = 0; k < cycles; k++) {
            int req = k == cycles - 1 ? REQ[choose(10, "level")] : REQ[choose(4, "level")], want = req;
            int pv[3] = {0x3333, -4242, 0x3333}, ie[3] = {0x3333, -4242, 0x3333}; int argc = 2; static char a0[] = "prog", a1[] = "arg"; static char *av[] = {a0, a1, NULL}; char **argv = av;
            int args = f ? 0 : choose(2, "arguments");
            p.reset(a); p.stl = 2; w.next();
            note("Init_thread(%d) [%s]", req, a->lang);
            ok("Init_thread", [&]() -> int {
                if (!f) return args ? MPI_Init_thread(&argc, &argv, req, &pv[1]) : MPI_Init_thread(NULL, NULL, req, &pv[1]);
                mpi_init_thread_(&req, &pv[1], &ie[1]);
                return ie[1];
            });
            if (req != want) fail("Init_thread changed the required level");
            if (pv[0] != 0x3333 || pv[2] != 0x3333 || ie[0] != 0x3333 || ie[2] != 0x3333) fail("Init_thread wrote outside its results");
            if (argc != 2 || argv != av) fail("Init_thread changed the program's arguments");
            if (req >= 0 && req <= 3 && (pv[1] > req || pv[1] < 0)) fail("Init_thread: level %d granted for %d", pv[1], req);
            if (req > 3 && pv[1] > req) fail("Init_thread: level %d granted for %d", pv[1], req);
            if (req < 0 && pv[1] > 0) fail("Init_thread: level %d granted for %d", pv[1], req);
            int flag = -7; w.next();
            ok("Initialized", [&] { return p.api->Initialized(&flag); });
            if (!flag) fail("not initialized after Init_thread");
            // like MPI_Init: a fresh library
            p.iprobe(0, MPI_ANY_TAG, MPI_ANY_SOURCE);
            w.rotate();
            p.irecv(0, 5, p.fresh(1, p.t_int), 1, p.t_int); p.send(SM_ISEND, 0, 6, p.fresh(1, p.t_int), 1, p.t_int);
            int c = p.comm_new(0, 0); w.rotate();
            p.send(SM_SEND, 0, 5, p.fresh(1, p.t_int), 1, p.t_int); p.iprobe(c, MPI_ANY_TAG); p.iprobe(0, 6);
            // Fortran's special addresses are known after any initialization
            w.rotate();
            { P2P &q = p; int h = q.reqs[0].h; (void)h; q.wait(0, 1); }
            char *b = p.fresh(2, p.t_int);
            ok("Allreduce", [&] { return api_f->Allreduce(f_in_place, b, 2, MPI_INT, MPI_SUM, MPI_COMM_WORLD); });
            p.after("in place reduction");
            if (k == cycles - 1 && choose(2, "initialized twice")) { w.next(); dies("initializing twice", [&] { int pr; return MPI_Init_thread(NULL, NULL, 0, &pr); }); return; }
            w.rotate();
            ok("Finalize", [&] { return p.api->Finalize(); });
            state(mix(req, k * 8 + f));
        }
    });
}
std::vector<Space> mc_spaces()
{
    return {
        {"levels", "MPI_Init_thread with the four levels and six other values, both languages, once or twice (thorough three times), then a script of calls from other threads", levels},
        {"every", "every program of two operations out of 56, each call made by any of three threads or by a thread of its own", every},
        {"three", "every program of three (thorough four) operations out of 21, likewise; drained by all threads in turn", three},
        {"messages", "all sequences of five (thorough six) sends, receives and tests by two (thorough three) threads", messages},
        {"hopeless", "two nonblocking and two blocking calls, satisfiable or not, by three threads", hopeless},
        {"crowd", "250 to 261 requests, communicators or datatypes made and completed by three threads in twelve patterns", crowd},
        {"again", "1 to 520 requests, communicators or datatypes made and used by three threads, the library finalized and initialized again, 1 to 520 objects made and used again, in 27 assignments of the threads, memory recycled or not", again},
    };
}
