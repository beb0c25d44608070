#include "ops.h"
using namespace mc;
const char *mc_property = "C27";
// A cycle of calls that releases whatever it creates, repeated: the memory the library holds at the end of a
// repetition is the same every time, and every repetition does what the models say.
struct Held { long blocks, bytes; };
static Held held() { return Held{env::live_blocks, env::live_bytes}; }
static void same(const Held &a, const char *what, int rep)
{
    if (a.blocks != env::live_blocks || a.bytes != env::live_bytes)
        fail("%s %d of the same cycle leaves %ld blocks with %ld bytes held, an earlier one left %ld with %ld", what, rep, env::live_blocks, env::live_bytes, a.blocks, a.bytes);
}
// a datatype with the layout of one that was freed
static void rebuild(Api *a, const RType &t, RType &out)
{
    std::vector<RType> e; std::vector<int> bl; std::vector<long> d; e.reserve(t.map.size());
    for (auto &x : t.map) {
        for (auto &b : basics()) if (b.kind == x.kind && b.size == x.len && !b.kind2) { e.push_back(r_basic(b.handle)); break; }
        bl.push_back(1); d.push_back(x.disp);
    }
    if (e.size() != t.map.size()) fail("harness: no datatype to rebuild with");
    std::vector<const RType *> p; for (auto &x : e) p.push_back(&x);
    mk_struct(a, out, (int)p.size(), bl.data(), d.data(), p.data()); mk_commit(a, out);
}
enum { CLOSINGS = 8 };
static const char *const CLN[CLOSINGS] = {"messages, waits, types, communicators", "types first", "requests freed first", "completed together, last to first", "completed some at a time", "tests; communicators before types", "waits, statuses ignored", "tests, statuses ignored"};
// complete and release everything made since the marks
static void release(P2P &p, int how, size_t comm0, size_t req0, size_t type0)
{
    Api *a = p.api; std::vector<int> idx;
    auto types = [&](bool back) { for (size_t k = type0; k < ty.size(); k++) { RType &t = ty[back ? ty.size() - 1 - (k - type0) : k]; if (t.h) mk_free(a, t); } };
    auto comms = [&](bool back) { for (size_t k = comm0; k < p.comms.size(); k++) { int c = (int)(back ? p.comms.size() - 1 - (k - comm0) : k); if (p.comms[c].live) p.comm_free(c); } };
    std::deque<RType> again;
    auto type_of = [&](const Op &o) -> const RType & { if (o.t->h) return *o.t; again.emplace_back(); rebuild(a, *o.t, again.back()); return again.back(); };
    note("release: %s", CLN[how]);
    if (how == 1) types(false);
    if (how == 2) for (size_t i = req0; i < p.reqs.size(); i++) if (p.reqs[i].op >= 0) p.request_free((int)i);
    for (size_t c = 0; c < p.comms.size(); c++) {
        if (!p.comms[c].live) continue;
        while (!p.comms[c].sq.empty()) { Op o = p.ops[p.comms[c].sq[0]]; const RType &t = type_of(o); if (how == 3) p.irecv((int)c, MPI_ANY_TAG, room(1, t), o.n, t); else p.recv((int)c, MPI_ANY_TAG, room(1, t), o.n, t); }
        while (!p.comms[c].rq.empty()) { Op o = p.ops[p.comms[c].rq[0]]; const RType &t = type_of(o); p.send(how == 3 ? SM_ISEND : SM_SEND, (int)c, o.tag == MPI_ANY_TAG ? 4242 : o.tag, room(1, t), o.n, t); }
    }
    for (auto &t : again) mk_free(a, t);
    for (size_t i = req0; i < p.reqs.size(); i++) if (p.reqs[i].op >= 0) idx.push_back((int)i);
    if (how >= 3 && !idx.empty() && idx.size() <= 20) {
        if (how == 3) { std::reverse(idx.begin(), idx.end()); p.all(idx, true); }
        if (how == 4) p.some(idx, true);
        if (how == 5) for (int i : idx) p.test(i);
        if (how == 6) p.all(idx, true, IGN);
        if (how == 7) for (int i : idx) p.test(i, IGN);
    }
    for (size_t i = req0; i < p.reqs.size(); i++) if (p.reqs[i].op >= 0) p.wait((int)i);
    if (how == 5) { comms(false); types(false); } else { types(how == 3); comms(how == 3 || how == 4); }
}
static bool hidden;      // the starting state has a communicator with work under way that the cycles leave alone
static void start_state(P2P &p, int s)
{
    Api *a = p.api;
    if (s == 0) return;
    if (s == 1) {        // messages and receives under way on another communicator, a datatype in use
        static RType v; mk_vector(a, v, 2, 1, 3, p.t_int); mk_commit(a, v); p.extra_live.push_back(v.h);
        int k = p.comm_new(0, 0);
        p.send(SM_ISEND, k, 1, room(2, v), 2, v); p.irecv(k, 2, p.fresh(1, p.t_int), 1, p.t_int); p.send(SM_ISEND, k, 3, p.fresh(1, p.t_int), 1, p.t_int);
        p.extra_live.push_back(p.comms[k].h); for (auto &r : p.reqs) p.extra_live.push_back(r.h);
        p.comms[k].live = false;
    } else if (s == 2) { // the free handles in an unusual order
        std::vector<int> h; for (int i = 0; i < 7; i++) h.push_back(p.irecv(0, 10 + i, p.fresh(1, p.t_int), 1, p.t_int));
        int c = p.comm_new(1, 0);
        for (int i : {3, 0, 6, 1, 5, 2, 4}) { p.send(SM_SEND, 0, 10 + i, p.fresh(1, p.t_int), 1, p.t_int); p.wait(h[i]); }
        p.comm_free(c);
    } else {             // nearly all of the first block of handles in use
        for (int i = 0; i < 247 + s; i++) { int h = -1; ok("Comm_dup", [&] { return a->Comm_dup(MPI_COMM_WORLD, &h); }); p.extra_live.push_back(h); }
    }
}
static bool one_cycle(P2P &p, const std::vector<int> &ops, int how)
{
    size_t o0 = p.ops.size(), r0 = p.reqs.size(), c0 = p.comms.size(), t0 = ty.size(), u0 = um.used;
    for (int e : ops) {
        if (e == 32) release(p, how, c0, r0, t0);
        if (!apply(p, e)) return false;
        if (e == 32) { r0 = std::min(r0, p.reqs.size()); c0 = std::min(c0, p.comms.size()); t0 = std::min(t0, ty.size()); }
    }
    release(p, how, c0, r0, t0);
    if (p.ops.size() > o0) p.ops.resize(o0);
    p.reqs.resize(std::min(r0, p.reqs.size())); p.comms.resize(std::min(c0, p.comms.size())); ty.resize(std::min(t0, ty.size())); um.used = u0;
    return true;
}
static void cycles(const std::vector<int> &ops, int start, int how, int reps, Api *a)
{
    guarded([&] {
        P2P &p = pp; ty.clear(); env::reuse = choose(2, "freed memory is reused");
        p.reset(a); p.stl = 2; p.handles = true;
        ok("Init", [&] { return a->Init(); });
        start_state(p, start);
        Held h{};
        for (int k = 0; k < reps; k++) {
            note("repetition %d", k + 1);
            if (!one_cycle(p, ops, how)) throw Skip();
            if (k == 0) h = held(); else same(h, "repetition", k + 1);
            env::check_heap("end of a cycle");
            state(mix(mix(p.fp(), env::live_bytes), how));
        }
        if (start == 1) {       // what was under way all the time is as it was
            p.comms[1].live = true;
            p.drain();
        }
        ok("Finalize", [&] { return a->Finalize(); });
        p.after("Finalize");
    });
}
static std::vector<int> body(const std::vector<int> &from, int n) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(from[choose((int)from.size(), "operation")]); return v; }
static std::vector<int> every() { std::vector<int> o; for (int i = 0; i < NOPS; i++) o.push_back(i); return o; }
static void pairs()
{
    std::vector<int> b = body(every(), 2); int s = choose(4, "start"), how = choose(CLOSINGS, "release");
    for (int e : b) if (e == 32 && (s == 1 || s == 3)) throw Skip();
    cycles(b, s, how, 4, pick_api());
}
static void longer()
{
    static const std::vector<int> o = {0, 1, 2, 3, 4, 6, 9, 12, 14, 20, 21, 22, 23, 24, 25, 26, 27, 29, 41, 43, 46, 52};
    std::vector<int> b = body(o, tier ? 5 : 4); int how = choose(tier ? 3 : CLOSINGS, "release");
    cycles(b, 0, how, 3, b[0] & 1 ? api_f : api_c);
}
static void messages()
{
    static const std::vector<int> o = {0, 1, 2, 27, 25};
    std::vector<int> b = body(o, tier ? 9 : 8); int how = choose(CLOSINGS, "release");
    cycles(b, 0, how, 2, api_c);
}
// nothing is lost even when a cycle is repeated so often that a lost handle must show
static void often()
{
    std::vector<int> b = body(every(), 1 + choose(2, "length")); int s = choose(tier ? 10 : 2, "start"), how = choose(tier ? CLOSINGS : 3, "release"); if (s == 1) s = 4;
    for (int e : b) if (e == 32 && s) throw Skip();
    guarded([&] {
        P2P &p = pp; Api *a = pick_api(); ty.clear(); env::reuse = true; int reps = 620;
        p.reset(a); p.stl = 0; p.handles = false;
        ok("Init", [&] { return a->Init(); });
        start_state(p, s);
        Held h{};
        for (int k = 0; k < reps; k++) {
            bool t = tracing; if (k > 1) tracing = false;
            bool okay = one_cycle(p, b, how);
            tracing = t; if (!okay) throw Skip();
            if (k == 300) h = held(); else if (k > 300) same(h, "repetition", k + 1);
        }
        env::check_heap("end of the cycles");
        state(mix(b[0] * 64 + b.back(), how * 16 + s));
    });
}
// the whole life of the library, repeated
static void lifetimes()
{
    guarded([&] {
        P2P &p = pp; Api *a = pick_api(); ty.clear(); env::reuse = choose(2, "freed memory is reused");
        std::vector<int> b = body(every(), tier ? 2 : 1); int how = choose(CLOSINGS, "release"), many = choose(2, "how often"), init = choose(2, "MPI_Init_thread");
        if (many && !env::reuse) throw Skip();
        int crowd = choose(3, "handles");
        for (int e : b) if (e == 32 && crowd) throw Skip();
        Held h{};
        for (int k = 0; k < (many ? 300 : 4); k++) {
            bool t = tracing; if (k > 2) tracing = false;
            p.reset(a); p.stl = 2; p.handles = true; ty.clear();
            int pr; ok("Init", [&] { return init ? MPI_Init_thread(NULL, NULL, 0, &pr) : a->Init(); });
            std::vector<int> cs;
            for (int i = 0; i < (crowd == 1 ? 253 : crowd == 2 && k < 5 ? 600 : 0); i++) { int c = -1; ok("Comm_dup", [&] { return a->Comm_dup(MPI_COMM_WORLD, &c); }); cs.push_back(c); }
            bool okay = one_cycle(p, b, how);
            for (int c : cs) ok("Comm_free", [&] { return a->Comm_free(&c); });
            if (!okay) { tracing = t; throw Skip(); }
            ok("Finalize", [&] { return a->Finalize(); });
            p.after("Finalize");
            if (k == 0) h = held(); else same(h, "life", k + 1);
            if (k < 3) env::check_heap("end of a life");
            tracing = t;
        }
        state(mix(b[0] * 64 + b.back(), how * 16 + init * 8 + crowd));
    });
}
// every layout of datatype through every way of moving data
static void layouts()
{
    static const int B[] = {MPI_INT, MPI_CHAR, MPI_DOUBLE_INT, MPI_LONG_DOUBLE};
    P2P &p = pp; Api *a = pick_api(); int z = choose(ZOO, "layout"), w = choose(WAYS, "way"), b = choose(tier ? 4 : 2, "base"), n = choose(3, "count"), back = choose(3, "order of release");
    env::reuse = choose(2, "freed memory is reused");
    p.reset(a); p.stl = 2;
    ok("Init", [&] { return a->Init(); });
    RType base = r_basic(B[b]); Held h{}, h2{};
    int reps = tier ? 700 : 4;
    for (int k = 0; k < reps; k++) {
        bool tr = tracing; if (k > 1) tracing = false;
        um.reset(); p.ops.clear(); p.reqs.clear(); made_types.clear();
        RType t; zoo(a, z, base, t);
        if (overlaps(t, n)) { tracing = tr; throw Skip(); }
        std::vector<int> ts = made_types; if (back) std::reverse(ts.begin(), ts.end());
        auto drop = [&](size_t from, size_t to) { for (size_t i = from; i < to; i++) { int x = ts[i]; ok("Type_free", [&] { return a->Type_free(&x); }); if (x != MPI_DATATYPE_NULL) fail("Type_free left the handle at %d", x); } };
        size_t early = back == 2 ? 0 : ts.size();
        if (back != 2 && !ts.empty()) { early = 0; for (size_t i = 0; i < ts.size(); i++) if (ts[i] == t.h) std::swap(ts[i], ts[ts.size() - 1]); early = ts.size() - 1; drop(0, early); }   // what it was made of goes first
        move(a, p, w, t, n, t, n);
        for (size_t i = 0; i < p.reqs.size(); i++) p.wait((int)i);
        drop(back == 2 ? 0 : early, ts.size());
        if (k == 0) h = held(); else if (k < 4) same(h, "repetition", k + 1); else if (k == 350) h2 = held(); else if (k > 350) same(h2, "repetition", k + 1);
        if (k < 3) env::check_heap("end of a cycle");
        tracing = tr;
    }
    state(mix(z * 32 + w, b * 16 + n * 4 + back));
}
// crowds of objects: more than a block of handles, released in several orders
static void crowds()
{
    P2P &p = pp; Api *a = pick_api(); int kind = choose(4, "objects"), n = (tier ? (const int[]){254, 255, 256, 257, 510, 511, 512, 513, 1100} : (const int[]){254, 255, 256, 511, 512, 700})[choose(tier ? 9 : 6, "objects")], ord = choose(4, "order"), mix_ = choose(2, "with others in between");
    env::reuse = true;
    p.reset(a); RType I = p.t_int, N; ok("Init", [&] { return a->Init(); });
    Held h{}; Held peak{};
    for (int k = 0; k < 5; k++) {
        std::vector<int> hs; int buf = 0; (void)buf; um.reset(); int *box = (int *)um.alloc(8192 * 4);
        auto make = [&](int kd, int i) { int x = -1;
            ok("creation", [&]() -> int { int bl = 1, d = i % 3; switch (kd) {
                case 0: return a->Irecv(box + i, 1, MPI_INT, 0, i, MPI_COMM_WORLD, &x);
                case 1: return i % 2 ? a->Comm_dup(MPI_COMM_WORLD, &x) : a->Comm_split(MPI_COMM_WORLD, 1, 0, &x);
                case 2: return i % 2 ? a->Type_contiguous(1 + i % 4, MPI_INT, &x) : a->Type_indexed(1, &bl, &d, MPI_DOUBLE, &x);
                default: return a->Isend(box + 4096 + i, 1, MPI_INT, 0, i, MPI_COMM_WORLD, &x);
            } });
            if (!x) fail("a null handle was given"); return x; };
        auto drop = [&](int kd, int x, int i) {
            int v = 1000 * k + i;
            switch (kd) {
            case 0: um.write((char *)(box + 4096 + i), &v, 4); ok("Send", [&] { return a->Send(box + 4096 + i, 1, MPI_INT, 0, i, MPI_COMM_WORLD); }); *(int *)um.ref(box + i) = v; ok("Wait", [&] { return a->Wait(&x, MPI_STATUS_IGNORE); }); break;
            case 1: ok("Comm_free", [&] { return a->Comm_free(&x); }); break;
            case 2: ok("Type_free", [&] { return a->Type_free(&x); }); break;
            default: um.write((char *)(box + 4096 + i), &v, 4); ok("Recv", [&] { return a->Recv(box + i, 1, MPI_INT, 0, i, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }); *(int *)um.ref(box + i) = v; ok("Wait", [&] { return a->Wait(&x, MPI_STATUS_IGNORE); }); break;
            }
            if (x) fail("the handle of a released object is %d", x);
        };
        std::vector<int> kd(n);
        for (int i = 0; i < n; i++) { kd[i] = mix_ ? (kind + i) % 4 : kind; hs.push_back(make(kd[i], i)); }
        { std::vector<int> s = hs; std::sort(s.begin(), s.end()); if (std::unique(s.begin(), s.end()) != s.end()) fail("two live objects share a handle"); }
        if (k == 1) peak = held(); else if (k > 1) same(peak, "peak of repetition", k + 1);
        std::vector<int> o(n); for (int i = 0; i < n; i++) o[i] = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i * 2) % n + (i * 2 >= n && n % 2 == 0) : (i < n / 2 ? n / 2 - 1 - i : i);
        std::vector<int> chk = o; std::sort(chk.begin(), chk.end()); for (int i = 0; i < n; i++) if (chk[i] != i) throw Skip();
        for (int i : o) drop(kd[i], hs[i], i);
        p.after("the cycle");
        if (k == 0) h = held(); else same(h, "repetition", k + 1);
        state(mix(kind * 4096 + n, ord * 16 + mix_ * 8 + k));
    }
    ok("Finalize", [&] { return a->Finalize(); });
}
// more objects over time than the library can have at once
static void endless()
{
    Api *a = pick_api(); P2P &p = pp; p.begin(a); env::reuse = true;
    int kind = choose(24, "cycle"), ign = choose(2, "statuses ignored"); long n = 270000; static int s[4] = {1, 2, 3, 4}, r[4]; Held h{};
    for (long k = 0; k < n; k++) {
        int x = -1, y = -1, q[2] = {0, 0}, f = 0, i = 0, ix[2], W = MPI_COMM_WORLD; MPI_Status sts[2], *st = ign ? MPI_STATUS_IGNORE : sts;
        auto isend = [&](int &v) { return a->Isend(s, 1, MPI_INT, 0, 5, W, &v); };
        auto irecv = [&](int &v) { return a->Irecv(r, 1, MPI_INT, 0, 5, W, &v); };
        int rc = call("cycle", [&]() -> int {
            int e = 0, one = 1, zero = 0, bl = 1; long d = 4;
            switch (kind) {
            case 0: e |= irecv(q[0]); e |= isend(q[1]); e |= a->Wait(q, st); return e | a->Wait(q + 1, ign ? st : st + 1);
            case 1: e |= isend(q[0]); e |= irecv(q[1]); e |= a->Waitall(2, q, st); return e;
            case 2: e |= isend(q[0]); e |= irecv(q[1]); e |= a->Testall(2, q, &f, st); return e;
            case 3: e |= isend(q[0]); e |= irecv(q[1]); e |= a->Testany(2, q, &i, &f, st); e |= a->Testany(2, q, &i, &f, st); return e;
            case 4: e |= irecv(q[0]); e |= isend(q[1]); e |= a->Waitany(2, q, &i, st); e |= a->Waitany(2, q, &i, st); return e;
            case 5: e |= irecv(q[0]); e |= isend(q[1]); return e | a->Testsome(2, q, &i, ix, st);
            case 6: e |= irecv(q[0]); e |= isend(q[1]); return e | a->Waitsome(2, q, &i, ix, st);
            case 7: e |= isend(q[0]); e |= a->Request_free(q); return e | a->Recv(r, 1, MPI_INT, 0, 5, W, st);
            case 8: e |= irecv(q[0]); e |= a->Send(s, 1, MPI_INT, 0, 5, W); return e | a->Request_free(q);
            case 9: return a->Sendrecv(s, 1, MPI_INT, 0, 5, r, 1, MPI_INT, 0, 5, W, st);
            case 10: e |= a->Isend(s, 1, MPI_INT, MPI_PROC_NULL, 5, W, q); e |= a->Wait(q, st); return e | a->Recv(r, 1, MPI_INT, MPI_PROC_NULL, 5, W, st) | a->Send(s, 1, MPI_INT, MPI_PROC_NULL, 5, W) | a->Irecv(r, 1, MPI_INT, MPI_PROC_NULL, 5, W, q) | a->Test(q, &f, st);
            case 11: e |= a->Comm_dup(W, &x); return e | a->Comm_free(&x);
            case 12: e |= a->Comm_split(W, 1, 1, &x); e |= a->Comm_split(W, MPI_UNDEFINED, 1, &y); return e | a->Comm_free(&x);
            case 13: e |= a->Comm_group(W, &y); e |= a->Comm_create(W, y, &x); e |= a->Group_free(&y); return e | a->Comm_free(&x);
            case 14: e |= a->Cart_create(W, 1, &one, &zero, 0, &x); return e | a->Comm_free(&x);
            case 15: e |= a->Intercomm_create(W, 0, W, 0, 1, &x); e |= api_c->Intercomm_merge(x, 0, &y); e |= a->Comm_free(&y); return e | a->Comm_free(&x);
            case 16: e |= a->Type_contiguous(2, MPI_INT, &x); e |= a->Type_commit(&x); return e | a->Type_free(&x);
            case 17: e |= a->Type_vector(2, 1, 2, MPI_INT, &x); e |= a->Type_dup(x, &y); e |= a->Type_free(&x); return e | a->Type_free(&y);
            case 18: e |= a->Type_indexed(1, &bl, &one, MPI_INT, &x); e |= a->Type_create_indexed_block(1, 1, &one, x, &y); e |= a->Type_free(&x); return e | a->Type_free(&y);
            case 19: { int t = MPI_INT; e |= a->Type_struct(1, &bl, &d, &t, &x); e |= a->Type_hvector(2, 1, 8, x, &y); e |= a->Type_free(&x); return e | a->Type_free(&y); }
            case 20: e |= a->Type_hindexed(1, &bl, &d, MPI_INT, &x); e |= a->Type_commit(&x); e |= a->Isend(s, 1, x, 0, 5, W, q); e |= a->Type_free(&x); e |= a->Recv(r, 1, MPI_INT, 0, 5, W, st); return e | a->Wait(q, st);
            case 21: e |= a->Info_create(&x); e |= a->Info_free(&x); e |= a->Group_incl(MPI_GROUP_EMPTY, 0, &zero, &y); e |= a->Group_free(&y); return 0;
            case 22: e |= a->Isend(s, 1, MPI_INT, 0, 5, W, q); e |= a->Iprobe(0, 5, W, &f, st); e |= a->Probe(0, MPI_ANY_TAG, W, st); e |= a->Recv(r, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, W, st); return e | a->Wait(q, st);
            default: if (k % 50) return 0; e |= a->Finalize(); return e | a->Init();
            }
        });
        if (rc) fail("repetition %ld of cycle %d fails", k + 1, kind);
        if (q[0] || q[1]) fail("repetition %ld of cycle %d leaves a request", k + 1, kind);
        if (k == 10) h = held(); else if (k > 10) same(h, "repetition", (int)k + 1);
    }
    state(kind * 2 + ign);
}
// lives that end with requests still there, on either side of every block of handles
static void ends()
{
    Api *a = pick_api(); P2P &p = pp; env::reuse = choose(2, "freed memory is reused");
    static const int N[] = {0, 1, 2, 252, 253, 254, 255, 256, 257, 509, 510, 511, 512, 766, 767, 768, 1022, 1023, 1024, 2046, 2047, 2048, 4100, 9000, 33000, 65535, 65536, 131071, 262140};
    int n = N[choose(tier ? 29 : 28, "objects")], kind = choose(5, "kind of objects (requests of three kinds; freed again: datatypes, communicators)"), freed = choose(2, "one freed again"), many = choose(2, "how often"); static char box[64]; Held h{}; if (many && n > 1024) throw Skip();
    for (int k = 0; k < (many ? 40 : 3); k++) {
        p.reset(a); ok("Init", [&] { return a->Init(); });
        int q = -1; static std::vector<int> made; made.clear();
        if (kind < 3) for (int i = 0; i < n; i++) ok("creation", [&] { return kind == 0 ? a->Irecv(box, 1, MPI_INT, MPI_PROC_NULL, 5, MPI_COMM_WORLD, &q) : kind == 1 ? a->Irecv(box, 1, MPI_INT, 0, i, MPI_COMM_WORLD, &q) : a->Isend(box, 1, MPI_INT, 0, i, MPI_COMM_WORLD, &q); });
        else {
            for (int i = 0; i < n; i++) { ok("creation", [&] { return kind == 3 ? a->Type_contiguous(1, MPI_INT, &q) : a->Comm_dup(MPI_COMM_WORLD, &q); }); made.push_back(q); }
            if (freed) std::reverse(made.begin(), made.end());
            for (int &x : made) ok("release", [&] { return kind == 3 ? a->Type_free(&x) : a->Comm_free(&x); });
        }
        if (freed && n && kind < 3) ok("Request_free", [&] { return a->Request_free(&q); });
        ok("Finalize", [&] { return a->Finalize(); });
        if (k == 0) h = held(); else same(h, "life", k + 1);
    }
    state(mix(n, kind * 4 + freed * 2 + many));
}
std::vector<Space> mc_spaces()
{
    return {
        {"endless", "24 cycles, statuses given or ignored, each repeated 270000 times, more often than there are handles", endless},
        {"ends", "lives that end with 0..131071 (thorough 262140) requests (28, thorough 29 numbers around the blocks of handles) complete or pending, or in which as many datatypes or communicators were made and freed in either order, 3 and (up to 1024) 40 times", ends},
        {"crowds", "cycles with 254 to 700 (thorough 1100) objects at once of four kinds, released in four orders, five times", crowds},
        {"pairs", "every cycle of two operations out of 56 with eight ways to release, from four starting states, four times", pairs},
        {"longer", "every cycle of four (thorough five) operations out of 22 with eight (three) ways to release, three times", longer},
        {"messages", "every cycle of eight (thorough nine) sends, receives, tests and request frees with eight ways to release, twice", messages},
        {"often", "every cycle of one or two operations out of 56, three (thorough eight) ways to release, two (nine) starting states, 620 times", often},
        {"lifetimes", "initialization, every cycle of one (thorough two) operations out of 56, finalization: four and 300 times, with few and many handles", lifetimes},
        {"layouts", "30 datatype layouts through 21 ways of moving data, three orders of release, four (thorough 700) times", layouts},
    };
}
