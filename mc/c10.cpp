#include "p2p.h"
#include <set>
using namespace mc;
const char *mc_property = "C10";

// ---- every small history over all kinds of objects
struct Ty { RType t; bool live; };
static void history_body(int depth, int maxobj)
{
    P2P &p = pp; p.begin(pick_api()); p.handles = true;
    static std::vector<Ty> ty; ty.clear(); ty.reserve(64);
    if (choose(2, "recycled memory")) env::reuse = true;
    auto extra = [&] { p.extra_live.clear(); for (auto &x : ty) if (x.live) p.extra_live.push_back(x.t.h); };
    for (int d = 0; d < depth; d++) {
        struct E { int k, x; }; static std::vector<E> en; en.clear();
        int live = 0;
        for (auto &x : ty) live += x.live;
        for (auto &r : p.reqs) live += r.op >= 0;
        for (size_t i = 1; i < p.comms.size(); i++) live += p.comms[i].live;
        if (live < maxobj) {
            en.push_back({0, 0});
            int nc = 0; for (size_t i = 1; i < p.comms.size(); i++) nc += p.comms[i].live;
            if (nc < 2 && p.comms.size() < 5) en.push_back({1, 0});
            for (int c = 0; c < (int)p.comms.size() && c < 3; c++) if (p.comms[c].live) { en.push_back({2, c}); en.push_back({3, c}); }
        }
        for (int i = 0; i < (int)ty.size(); i++) if (ty[i].live) en.push_back({4, i});
        for (int i = 1; i < (int)p.comms.size(); i++) if (p.comms[i].live) en.push_back({5, i});
        for (int i = 0; i < (int)p.reqs.size(); i++) if (p.reqs[i].op >= 0) en.push_back({p.done(p.reqs[i]) ? 6 : 7, i});
        E e = en[choose((int)en.size(), "operation")];
        int tag = 10 + d;
        switch (e.k) {
        case 0: ty.push_back(Ty{RType(), true}); mk_contig(p.api, ty.back().t, 2 + d, p.t_int); p.fresh_handle("Type_contiguous", ty.back().t.h); break;
        case 1: p.comm_new(d % 6, 0); break;
        case 2: p.send(SM_ISEND, e.x, tag, p.fresh(1, p.t_int), 1, p.t_int); break;
        case 3: p.irecv(e.x, MPI_ANY_TAG, p.fresh(1, p.t_int), 1, p.t_int); break;
        case 4: mk_free(p.api, ty[e.x].t); ty[e.x].live = false; break;
        case 5: p.comm_free(e.x); break;
        case 6: p.wait(e.x); break;
        case 7: p.request_free(e.x); break;
        }
        extra();
        for (auto &x : ty) if (x.live) check_type(p.api, x.t, "a datatype among other objects");
        for (size_t i = 0; i < p.comms.size(); i++) if (p.comms[i].live) p.iprobe((int)i, MPI_ANY_TAG, 0, 1);
        for (size_t i = 0; i < p.reqs.size(); i++) if (p.reqs[i].op >= 0 && !p.done(p.reqs[i])) p.test((int)i, 1);
        uint64_t h = p.fp(); for (auto &x : ty) h = mix(h, x.live ? x.t.count() : 0);
        state(h);
    }
    p.drain();
    for (auto &x : ty) if (x.live) check_type(p.api, x.t, "a datatype at the end");
}
static void history() { guarded([] { history_body(tier ? 7 : 6, 5); }); }

// ---- many objects
enum { TYPE, RECV, SEND, COMM };
struct Obj { int kind, h, h2, id; };
static std::vector<uint8_t> used;           // by handle
static int *ub; static int *rbuf;           // one word per object
static const int MAXO = 700000;
static int nowlive, peak;
static void take(int h, const char *what)
{
    if (h <= 0) fail("%s gave handle %d", what, h);
    if (h == MPI_COMM_WORLD) fail("%s gave the handle of MPI_COMM_WORLD", what);
    if ((size_t)h >= used.size()) used.resize(h * 2 + 1024, 0);
    if (used[h]) fail("%s gave handle %d, which a live object has (%d objects alive)", what, h, nowlive);
    used[h] = 1; nowlive++; peak = std::max(peak, nowlive);
}
static void drop(int h) { used[h] = 0; nowlive--; }
static Api *A;
static int SC;      // the communicator of the pending sends
static bool create(Obj &o, int kind, int id)      // false: the process ended
{
    o.kind = kind; o.id = id; o.h = o.h2 = -4242;
    int rc = -1; Term t;
    const char *nm = kind == TYPE ? "Type_contiguous" : kind == RECV ? "Irecv" : kind == SEND ? "Isend" : "Comm_dup";
    ub[id] = id * 3 + 1; rbuf[id] = -1;
    switch (kind) {
    case TYPE: t = run([&] { rc = A->Type_contiguous(id % 50 + 1, MPI_BYTE, &o.h); }); break;
    case RECV: t = run([&] { rc = A->Irecv(&rbuf[id], 1, MPI_INT, 0, id, MPI_COMM_WORLD, &o.h); }); break;
    case SEND: t = run([&] { rc = A->Isend(&ub[id], 1, MPI_INT, 0, id + 1000000, SC, &o.h); }); break;
    case COMM: t = run([&] { rc = A->Comm_dup(MPI_COMM_WORLD, &o.h); }); break;
    }
    if (t.kind == RETURNED && rc == MPI_SUCCESS) {
        take(o.h, nm);
        if (kind == COMM) {
            t = run([&] { rc = A->Isend(&ub[id], 1, MPI_INT, 0, id, o.h, &o.h2); });
            if (t.kind == RETURNED && rc == MPI_SUCCESS) take(o.h2, "Isend");
            else nm = "Isend";
        }
    }
    if (t.kind == RETURNED) { if (rc != MPI_SUCCESS) fail("%s returned %d", nm, rc); return true; }
    if (t.kind == CRASHED || t.kind == HUNG) fail("%s with %d objects alive: %s (%s)", nm, nowlive, kindname(t.kind), t.why);
    if (t.kind == EXITED && (t.code & 0xff) == 0) fail("%s with %d objects alive: exited with success", nm, nowlive);
    if (nowlive < 262142) fail("%s ended the process (%s) with only %d objects alive", nm, kindname(t.kind), nowlive);
    return false;
}
static void identity(Obj &o)
{
    int f = -7; MPI_Status st; int h = o.h, size = -1;
    switch (o.kind) {
    case TYPE:
        ok("Type_size", [&] { return A->Type_size(o.h, &size); });
        if (size != o.id % 50 + 1) fail("handle %d: size %d, expected %d", o.h, size, o.id % 50 + 1);
        break;
    case RECV: case SEND:
        ok("Test", [&] { return A->Test(&h, &f, &st); });
        if (f || h != o.h) fail("pending request %d is reported complete (flag %d, handle %d)", o.h, f, h);
        break;
    case COMM:
        ok("Iprobe", [&] { return A->Iprobe(0, MPI_ANY_TAG, o.h, &f, &st); });
        if (f != 1 || st.MPI_TAG != o.id) fail("communicator %d shows message %d (flag %d), expected %d", o.h, st.MPI_TAG, f, o.id);
        break;
    }
}
static void release(Obj &o)
{
    int h = o.h; MPI_Status st; int v = -5;
    switch (o.kind) {
    case TYPE: ok("Type_free", [&] { return A->Type_free(&h); }); break;
    case RECV:
        v = o.id * 7;
        ok("Send", [&] { return A->Send(&v, 1, MPI_INT, 0, o.id, MPI_COMM_WORLD); });
        if (rbuf[o.id] != v) fail("request %d: message not delivered to its own buffer", o.h);
        ok("Wait", [&] { return A->Wait(&h, &st); });
        if (st.MPI_TAG != o.id) fail("request %d completed with tag %d, expected %d", o.h, st.MPI_TAG, o.id);
        break;
    case SEND:
        ok("Recv", [&] { return A->Recv(&v, 1, MPI_INT, 0, o.id + 1000000, SC, &st); });
        if (v != o.id * 3 + 1) fail("request %d: the message received is not the one sent", o.h);
        ok("Wait", [&] { return A->Wait(&h, &st); });
        break;
    case COMM:
        ok("Recv", [&] { return A->Recv(&v, 1, MPI_INT, 0, MPI_ANY_TAG, o.h, &st); });
        if (v != o.id * 3 + 1 || st.MPI_TAG != o.id) fail("communicator %d delivers the message of another (tag %d, expected %d)", o.h, st.MPI_TAG, o.id);
        ok("Wait", [&] { return A->Wait(&o.h2, &st); });
        if (o.h2) fail("Wait left handle %d", o.h2);
        ok("Comm_free", [&] { return A->Comm_free(&h); });
        break;
    }
    if (h != 0) fail("release left handle %d at %d", o.h, h);
}
static void start()
{
    if (!ub) { ub = (int *)pages(sizeof(int) * MAXO); rbuf = (int *)pages(sizeof(int) * MAXO); }
    std::fill(used.begin(), used.end(), 0); nowlive = 1; peak = 1;      // MPI_COMM_WORLD
    ok("Init", [&] { return A->Init(); });
    SC = -1; ok("Comm_dup", [&] { return A->Comm_dup(MPI_COMM_WORLD, &SC); });
    take(SC, "Comm_dup");
}
static int kind_of(int mixk, int i) { return mixk < 4 ? mixk : mixk == 4 ? i % 4 : (i / 100) % 4; }
static void rel(Obj &o) { int h = o.h, h2 = o.h2; release(o); drop(h); if (o.kind == COMM) drop(h2); o.h = 0; }
static void many_body(const std::vector<int> &Ns, bool big)
{
    A = pick_api();
    int N = pick(Ns, "objects"), mk = choose(6, "kinds"), pat = choose(5, "released ones"), mk2 = choose(3, "kinds of the new ones");
    if (big && pat == 1) throw Skip();      // quadratic
    if (big && !tier && (mk2 == 1 || (N > 100000 && (pat % 3 == 1 || mk2)))) throw Skip();
    start();
    if (big ? pat == 2 : choose(2, "recycled memory")) env::reuse = true;
    std::vector<Obj> v; v.reserve(N + 8);
    int id = 1;
    for (int i = 0; nowlive < N; i++) {
        Obj o; int k = kind_of(mk, i);
        if (k == COMM && nowlive + 2 > N) k = TYPE;
        if (!create(o, k, id++)) fail("harness: limit");
        v.push_back(o);
    }
    for (auto &o : v) identity(o);
    auto freed = [&](size_t i) { return pat == 0 ? false : pat == 1 ? i % 2 == 1 : pat == 2 ? i < v.size() / 2 : pat == 3 ? i + 1 != v.size() : big ? i % 4001 == 4000 : i % 3 == 0; };
    int before = nowlive;
    std::vector<Obj> keep;
    for (size_t i = 0; i < v.size(); i++) if (freed(i)) rel(v[i]); else keep.push_back(v[i]);
    for (auto &o : keep) identity(o);
    for (int i = 0; nowlive < before; i++) {
        Obj o; int k = mk2 == 0 ? kind_of(mk, i) : mk2 == 1 ? TYPE : (kind_of(mk, i) + 1) % 4;
        if (k == COMM && nowlive + 2 > before) k = TYPE;
        if (!create(o, k, id++)) fail("no room for a new object with %d alive after others were released", nowlive);
        keep.push_back(o);
    }
    for (auto &o : keep) identity(o);
    state(mix(mix(N, mk), mix(pat, nowlive)));
    for (auto &o : keep) rel(o);
    state(mix(mix(N, mk), mix(mk2, nowlive)));
    env::check_heap("end");
}
static void many() { many_body({2, 10, 127, 128, 254, 255, 256, 257, 258, 511, 512, 513, 767, 768, 769, 1023, 1024, 1025, 2047, 2048, 2049, 4097}, false); }
static void huge() { many_body(tier ? std::vector<int>{32767, 32769, 65535, 65536, 65537, 131072, 262142} : std::vector<int>{65537, 262142}, true); }

// ---- the limit
static void limit()
{
    A = pick_api();
    int mk = choose(6, "kinds"), back = choose(4, "released before trying again"), k2 = choose(4, "kind of the one too many");
    start();
    std::vector<Obj> v; v.reserve(263000);
    int id = 1;
    for (int i = 0; nowlive < 262143; i++) {
        Obj o; int k = i ? kind_of(mk, i) : TYPE;      // releasing a message needs a free handle for a moment
        if (k == COMM && nowlive + 2 > 262143) k = TYPE;
        if (!create(o, k, id++)) fail("harness: limit");
        v.push_back(o);
    }
    static const int B[] = {0, 1, 300, 100000};
    size_t b = std::min<size_t>(B[back], v.size());
    for (size_t i = 0; i < b; i++) rel(v[i]);
    while (nowlive < 262143) { Obj o; if (!create(o, nowlive + 2 <= 262143 ? k2 : TYPE, id++)) fail("no room with %d objects alive", nowlive); v.push_back(o); }
    // one more ends the process
    { Obj o; if (create(o, k2, id++)) fail("an object beyond the 262143 that can be alive was given handle %d", o.h); }
    state(mix(mix(mk, back), mix(k2, nowlive)));
    // nothing was corrupted
    env::check_heap("at the limit");
    for (size_t i = 0; i < v.size(); i += 97) if (v[i].h) identity(v[i]);
}
std::vector<Space> mc_spaces()
{
    return {
        {"history", "all histories of 6 (thorough 7) creations and releases of datatypes, communicators and requests with up to 5 of them alive; after every step each object is asked for its identity", history},
        {"many", "22 numbers of live objects from 2 to 4097 around every block boundary, six mixtures of kinds, five release patterns, three kinds of replacement; identity of all objects after each phase, everything released at the end", many},
        {"huge", "the same with 65537 and 262142 live objects (thorough: seven numbers)", huge},
        {"limit", "filling all 262143 handles, releasing 0, 1, 300 or 100000, refilling, then one more of each kind: it ends the process and leaves everything as it is", limit},
    };
}
