#include "p2p.h"
#include "zoo.h"
using namespace mc;
const char *mc_property = "C11";
static void asked(P2P &p, bool want)
{
    for (Api *a : {api_c, api_f}) {
        int flag = -77;
        note("Initialized [%s]", a->lang);
        ok("Initialized", [&] { return a->Initialized(&flag); });
        if ((flag != 0) != want) fail("Initialized [%s] gives %d, expected %s", a->lang, flag, want ? "true" : "false");
        if (flag != 0 && flag != 1) fail("Initialized [%s] gives %d", a->lang, flag);
    }
}
// four ways to initialize
static int do_init(Api *a, int how)
{
    static char a0[] = "prog", a1[] = "arg"; static char *av[] = {a0, a1, NULL};
    if (how == 0) return a->Init();
    if (how == 1) { int prov = -5; return a->Init_thread(1, &prov); }
    int argc = 2; char **argv = av; int prov = -5;
    int rc = how == 2 ? MPI_Init(&argc, &argv) : MPI_Init_thread(&argc, &argv, 0, &prov);
    if (argc != 2 || argv != av || av[0] != a0 || av[1] != a1 || av[2]) throw Violation{"", "initialization changed the program's arguments"};
    return rc;
}
// what must hold right after initialization
static void fresh_world(P2P &p)
{
    int r = -1, n = -1;
    ok("Comm_size", [&] { return p.api->Comm_size(MPI_COMM_WORLD, &n); });
    ok("Comm_rank", [&] { return p.api->Comm_rank(MPI_COMM_WORLD, &r); });
    if (n != 1 || r != 0) fail("MPI_COMM_WORLD has size %d and rank %d", n, r);
    p.iprobe(0, MPI_ANY_TAG, MPI_ANY_SOURCE);
}
static void activity(P2P &p, int k, std::vector<RType> &ty)
{
    char *b = p.fresh(1, p.t_int), *b2 = p.fresh(1, p.t_int);
    switch (k) {
    case 0: p.send(SM_ISEND, 0, 5, b, 1, p.t_int); break;
    case 1: p.irecv(0, MPI_ANY_TAG, b, 1, p.t_int, MPI_ANY_SOURCE); break;
    case 2: p.sendrecv(0, 7, b, 1, p.t_int, 7, b2, 1, p.t_int); break;
    case 3: { int c = p.comm_new((int)p.comms.size() % 6, 0); p.send(SM_ISEND, c, 5, b, 1, p.t_int); } break;
    case 4: { RType t; mk_vector(p.api, t, 2, 1, 2, p.t_int); mk_commit(p.api, t); ty.push_back(t); check_type(p.api, t, "a datatype"); } break;
    case 5: for (size_t i = 0; i < p.reqs.size(); i++) p.test((int)i, 1); break;
    case 6: for (size_t c = 1; c < p.comms.size(); c++) if (p.comms[c].live) { p.comm_free((int)c); break; } break;
    case 7: for (int i = 0; i < 300; i++) p.irecv(0, 1000 + i, b, 0, p.t_int); break;       // more handles than one block
    }
}
static void cycles_body(int depth, int nact)
{
    P2P &p = pp; Api *a = pick_api(); p.reset(a);
    if (choose(2, "recycled memory")) env::reuse = true;
    bool up = false; std::vector<RType> ty; int sess = 0;
    for (int d = 0; d < depth; d++) {
        asked(p, up);
        struct E { int k, x; }; static std::vector<E> en; en.clear();
        if (!up) { for (int h = 0; h < 4; h++) en.push_back({0, h}); }
        else { en.push_back({1, 0}); for (int i = 0; i < nact; i++) en.push_back({2, i}); en.push_back({3, 0}); en.push_back({3, 1}); en.push_back({3, 2}); }
        E e = en[choose((int)en.size(), "step")];
        switch (e.k) {
        case 0:
            note("initialize, way %d", e.x);
            p.reset(sess % 2 ? (a == api_c ? api_f : api_c) : a); ty.clear(); sess++;
            ok("initialization", [&] { return do_init(p.api, e.x); });
            up = true; fresh_world(p);
            break;
        case 1:
            note("Finalize");
            ok("Finalize", [&] { return p.api->Finalize(); });
            p.after("Finalize"); p.reqs.clear(); p.comms[0].sq.clear(); p.comms[0].rq.clear();
            up = false;
            break;
        case 2: activity(p, e.x, ty); break;
        case 3: note("initialize again, way %d", e.x); dies("initializing twice", [&] { return do_init(e.x == 2 ? (a == api_c ? api_f : api_c) : a, e.x); }); return;
        }
        state(mix(p.fp(), up * 16 + sess * 32 + ty.size()));
    }
    asked(p, up);
    if (up) { p.drain(); for (auto &t : ty) check_type(p.api, t, "a datatype"); }
}
static void cycles() { guarded([] { cycles_body(tier ? 8 : 7, 5); }); }
static void rich() { guarded([] { cycles_body(tier ? 6 : 5, 8); }); }

// the n-th session behaves as the first: the same history of calls with its full model in each session
static void sessions()
{
    guarded([] {
        Api *a = pick_api();
        static const int S[] = {1, 2, 3, 10, 40};
        int n = S[choose(5, "earlier sessions")], left = choose(4, "left behind"), reuse = choose(2, "recycled memory"), script[5];
        int len = n > 5 ? 3 : 4;
        for (int i = 0; i < len; i++) script[i] = choose(8, "operation of the last session");
        env::reuse = reuse;
        P2P &p = pp;
        for (int s = 0; s <= n; s++) {
            p.reset(s % 3 == 2 ? api_f : a);
            std::vector<RType> ty;
            ok("initialization", [&] { return do_init(p.api, s % 4); });
            asked(p, true); fresh_world(p);
            if (s < n) {
                if (left & 1) { activity(p, 0, ty); activity(p, 3, ty); activity(p, 4, ty); }
                if (left & 2) { activity(p, 7, ty); activity(p, 1, ty); activity(p, 2, ty); }
            } else {
                for (int i = 0; i < len; i++) activity(p, script[i], ty);
                RType b = p.t_int, o; zoo(p.api, 20, b, o); check_type(p.api, o, "a datatype");
                p.drain();
            }
            ok("Finalize", [&] { return p.api->Finalize(); });
            p.after("Finalize"); asked(p, false);
        }
        uint64_t h = mix(p.fp(), n * 4 + left); for (int i = 0; i < len; i++) h = mix(h, script[i]);
        state(h);
    });
}
// the session after hundreds or thousands of short ones
static void many()
{
    guarded([] {
        static const int S[] = {100, 126, 127, 128, 200, 254, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 131072};
        int n = S[choose(tier ? 16 : 15, "earlier sessions")], left = choose(6, "each session"), reuse = choose(2, "recycled memory"), lang = choose(2, "language"); env::reuse = reuse;
        if (n > 1000 && !reuse && left) throw Skip();
        P2P &p = pp; p.reset(lang ? api_f : api_c); static char box[64]; int v = 3, w = 0;
        Api *a = p.api;
        ok("the sessions", [&] {
            for (int s = 0; s < n; s++) {
                int h = 0, f = 7; Api *q = s % 5 == 4 ? (lang ? api_c : api_f) : a;
                if (q->Initialized(&f) || f) return 10;
                if (do_init(q, left == 5 ? s % 4 : 0)) return 11;
                if (q->Initialized(&f) || !f) return 12;
                switch (left) {
                case 1: if (q->Isend(&v, 1, MPI_INT, 0, 5, MPI_COMM_WORLD, &h)) return 13; break;
                case 2: if (q->Irecv(box, 1, MPI_INT, 0, 5, MPI_COMM_WORLD, &h)) return 13; break;
                case 3: if (q->Comm_dup(MPI_COMM_WORLD, &h)) return 13; break;
                case 4: if (q->Type_contiguous(2, MPI_INT, &h)) return 13; break;
                case 5: v = s; if (q->Sendrecv(&v, 1, MPI_INT, 0, 7, &w, 1, MPI_INT, 0, 7, MPI_COMM_WORLD, MPI_STATUS_IGNORE) || w != s) return 14; break;
                }
                if (left && left < 5 && h <= 1) return 15;
                if (q->Finalize()) return 16;
            }
            return 0;
        });
        note("%d sessions so far", n);
        for (int s = 0; s < 2; s++) {
            p.reset(s ? lang ? api_c : api_f : a); std::vector<RType> ty; asked(p, false);
            ok("initialization", [&] { return do_init(p.api, s); });
            asked(p, true); fresh_world(p);
            for (int k : {0, 3, 1, 4, 2, 5, 6, 0, 1}) activity(p, k, ty);
            RType b = p.t_int, o; zoo(p.api, 20, b, o); check_type(p.api, o, "a datatype");
            p.drain();
            ok("Finalize", [&] { return p.api->Finalize(); });
            p.after("Finalize"); asked(p, false);
        }
        state(mix(mix(n, left), reuse * 2 + lang));
    });
}
// sessions that reach a given number of objects, on either side of every block of handles, with or without
// releasing them, again and again; then a session as the first one
static void peaks()
{
    guarded([] {
        Api *a = pick_api();
        static const int N[] = {0, 1, 100, 250, 251, 252, 253, 254, 255, 256, 257, 258, 509, 510, 511, 512, 513, 766, 767, 768, 1023, 6700, 40000, 80000, 130000};
        int n = N[choose(25, "objects")], kind = choose(3, "kind"), left = choose(4, "left (all, none, the first, the last)"), reuse = choose(2, "recycled memory");
        int ns = n > 2000 ? 600000 / n : n > 200 ? choose(2, "earlier sessions") ? 40 : 1 + n % 3 : 3;
        if (n > 2000 && (!reuse || left == 3)) throw Skip();
        env::reuse = reuse;
        static char box[64]; static std::vector<int> hs;
        P2P &p = pp;
        for (int s = 0; s <= ns; s++) {
            p.reset(s % 3 == 2 ? api_f : a);
            ok("initialization", [&] { return do_init(p.api, s % 4); });
            if (s < 2 || s == ns) { asked(p, true); fresh_world(p); }
            hs.clear();
            for (int i = 0; i < (s < ns ? n : std::min(n, 600)); i++) {
                int h = -4242, k = kind == 2 ? i % 3 : kind;
                ok("creation", [&]() -> int { switch (k) { case 0: return p.api->Irecv(box, 1, MPI_INT, MPI_PROC_NULL, 5, MPI_COMM_WORLD, &h); case 1: return p.api->Comm_dup(MPI_COMM_WORLD, &h); default: return p.api->Type_contiguous(2, MPI_INT, &h); } });
                if (h <= 1) fail("session %d: object %d has handle %d", s + 1, i + 1, h);
                hs.push_back(h);
            }
            { std::vector<int> t = hs; std::sort(t.begin(), t.end()); if (std::unique(t.begin(), t.end()) != t.end()) fail("session %d: two live objects have the same handle", s + 1); }
            if (s == ns) {      // compare with the model in full
                std::vector<RType> ty; p.handles = true; for (int h : hs) p.extra_live.push_back(h);
                for (int k : {0, 3, 1, 4, 2, 5}) activity(p, k, ty);
                fresh_world(p);
                p.drain(); for (auto &t : ty) check_type(p.api, t, "a datatype");
            }
            for (size_t i = 0; i < hs.size(); i++) {
                if (left == 0 || (left == 2 && i == 0) || (left == 3 && i + 1 == hs.size())) continue;
                int h = hs[i], k = kind == 2 ? (int)i % 3 : kind;
                ok("release", [&]() -> int { switch (k) { case 0: return p.api->Wait(&h, MPI_STATUS_IGNORE); case 1: return p.api->Comm_free(&h); default: return p.api->Type_free(&h); } });
            }
            ok("Finalize", [&] { return p.api->Finalize(); });
            p.after("Finalize"); if (s < 2 || s == ns) asked(p, false);
        }
        state(mix(mix(n, kind), left * 2 + reuse));
    });
}
// every way and level of initializing, then every way again
static void levels()
{
    P2P &p = pp; Api *a = pick_api(); p.reset(a);
    auto init = [&](Api *b, int how, int &prov) { return how == 0 ? b->Init() : b->Init_thread(how - 1, &prov); };
    int first = choose(5, "initialized by (MPI_Init, MPI_Init_thread with four levels)"), between = choose(4, "in between"), second = choose(5, "initialized again by"), lang = choose(2, "again in the other language"), prov = -5;
    asked(p, false);
    ok("initialization", [&] { return init(a, first, prov); });
    if (first && prov > first - 1) fail("level %d is granted, %d was asked for", prov, first - 1);
    asked(p, true); fresh_world(p);
    Api *b = lang ? (a == api_c ? api_f : api_c) : a;
    if (between == 1) p.send(SM_ISEND, 0, 5, p.fresh(1, p.t_int), 1, p.t_int);
    if (between == 2) p.comm_new(0, 0);
    state(mix(first * 8 + second, between * 2 + lang));
    if (between == 3) {
        ok("Finalize", [&] { return a->Finalize(); }); asked(p, false); p.reset(b); prov = -5;
        ok("initialization", [&] { return init(b, second, prov); }); asked(p, true); fresh_world(p);
        if (second && prov > second - 1) fail("level %d is granted, %d was asked for", prov, second - 1);
        int third = choose(5, "initialized once more by"); dies("initializing twice", [&] { return init(a, third, prov); });
        return;
    }
    dies("initializing twice", [&] { return init(b, second, prov); });
}
std::vector<Space> mc_spaces()
{
    return {
        {"cycles", "all histories of 7 (thorough 8) steps: initialize (four ways, both languages in turn), finalize, five activities, initialize twice (three ways); MPI_Initialized asked in both languages before each step, MPI_COMM_WORLD checked after each initialization, everything drained at the end; fresh or recycled memory", cycles},
        {"levels", "every way and level of initializing followed by every other one, at once, with something pending or after finalization, both languages", levels},
        {"rich", "the same with eight activities (hundreds of pending requests included), histories of 5 (thorough 6)", rich},
        {"sessions", "1..40 earlier sessions leaving messages, communicators, datatypes and hundreds of requests behind, then a session with every script of 4 activities fully compared with the model", sessions},
        {"many", "100..65536 (thorough 131072) short sessions, empty or leaving a message, a receive, a communicator or a datatype behind, in both languages; then two sessions fully compared with the model", many},
        {"peaks", "earlier sessions reaching 0..130000 objects (25 numbers around the blocks of handles, in all more than the library can hold at once), of three kinds, four choices of what is left at the end, then a session fully compared with the model", peaks},
    };
}
