#include "aged.h"
using namespace mc;
const char *mc_property = "C01";

// every sequence of operations
static void sequences_on(Api *a, int depth, bool blocking)
{
    P2P &p = pp; p.begin(a);
    int pat = blocking ? choose(4, "counts (all 2, alternately empty, all empty)") : 0;
    p.stl = pat ? 1 : 0;      // the tag tells which empty message came
    auto cn = [&](int d) { return pat == 0 ? 2 : pat == 1 ? (d & 1) * 2 : pat == 2 ? (d + 1) % 2 * 2 : 0; };
    const int tags[2] = {5, 6};
    for (int d = 0; d < depth; d++) {
        struct E { int kind, x, y; };
        static std::vector<E> en; en.clear();
        for (int t : tags) en.push_back({0, SM_ISEND, t});
        for (int t : {5, 6, MPI_ANY_TAG}) en.push_back({1, 0, t});
        if (blocking) {
            for (int t : tags) if (p.find_recv(0, t) >= 0) for (int m : {SM_IRSEND, SM_SEND, SM_SSEND, SM_RSEND}) {
                if (m >= SM_SEND && m != (d % 3) + SM_SEND) continue;      // the blocking modes take turns
                en.push_back({0, m, t});
            }
            for (int t : {5, 6, MPI_ANY_TAG}) if (p.find_send(0, t) >= 0) en.push_back({2, 0, t});
            for (int st : tags) for (int rt : {5, 6, MPI_ANY_TAG}) if (p.can_sendrecv(0, 0, st, 0, rt)) en.push_back({3, st, rt});
        }
        E e = en[choose((int)en.size(), "operation")];
        char *b = p.fresh(2, p.t_int); int n = cn(d);
        switch (e.kind) {
        case 0: p.send(e.x, 0, e.y, b, n, p.t_int); break;
        case 1: p.irecv(0, e.y, b, n, p.t_int); break;
        case 2: p.recv(0, e.y, b, n, p.t_int); break;
        case 3: { char *c = p.fresh(2, p.t_int); p.sendrecv(0, e.x, b, n, p.t_int, e.y, c, 2, p.t_int); } break;
        }
        state(p.fp());
    }
    p.drain();
}
// messages and receives of different sizes, empty ones included
static void counts()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 1;
        for (int d = 0; d < (tier ? 7 : 6); d++) {
            int k = choose(12, "operation");
            char *b = p.fresh(2, p.t_int);
            if (k < 6) p.send(SM_ISEND, 0, 5 + k / 3, b, k % 3, p.t_int);
            else p.irecv(0, (k - 6) / 2 == 2 ? MPI_ANY_TAG : 5 + (k - 6) / 2, b, k % 2 * 2, p.t_int, d & 1 ? MPI_ANY_SOURCE : 0);
            state(p.fp());
        }
        p.drain();
    });
}
static void nonblocking() { guarded([] { sequences_on(pick_api(), tier ? 11 : 9, false); }); }
static void allmodes() { guarded([] { sequences_on(pick_api(), tier ? 8 : 6, true); }); }

// tags: any two legal tags, every pattern of two sends and two receives in every posting order
static void tags()
{
    guarded([] {
        Api *a = pick_api();
        static std::vector<int> tv; static int tvt = -1; if (tvt != tier) { tv = tag_values(); tvt = tier; }
        int t0 = pick(tv, "first tag"), t1 = pick(tv, "second tag");
        P2P &p = pp; p.begin(a);
        int s = 0, r = 0, em = choose(4, "empty messages"); p.stl = em ? 1 : 0;
        for (int d = 0; d < 4; d++) {
            bool send = s < 2 && (r >= 2 || choose(2, "send or receive") == 0);
            char *b = p.fresh(1, p.t_int);
            if (send) { s++; p.send(SM_ISEND, 0, s == 1 ? t0 : t1, b, em >> (s - 1) & 1 ? 0 : 1, p.t_int); }
            else {
                r++;
                int k = choose(3, "receive tag");
                p.irecv(0, k == 0 ? t0 : k == 1 ? t1 : MPI_ANY_TAG, b, 1, p.t_int, choose(2, "source") ? MPI_ANY_SOURCE : 0);
            }
        }
        state(mix(p.fp(), mix(t0, t1)));
        p.finish();
    });
}

// many outstanding messages: N on one side with tags cycling over a few values, then the other side in an order
// given by a stride, then counts again
static void queues()
{
    guarded([] {
        Api *a = pick_api();
        P2P &p = pp;
        static const int Ns[] = {2, 3, 5, 17, 64, 255, 256, 257, 300, 700, 1500};
        int N = Ns[choose(tier ? 11 : 9, "messages")];
        int ntags = 1 + choose(3, "different tags");
        bool sends_first = choose(2, "receives first") == 0;
        int order = choose(4, "order of the other side");
        int wild = choose(3, "wildcards on the receiving side (none, all, every third)");
        int mixn = choose(2, "counts 0..2 mixed");
        p.begin(a); p.ops.reserve(2 * N); p.stl = mixn;
        auto cn = [&](int i) { return mixn ? (i * 5 + i / 3) % 3 : 1; };
        p.memcheck = N <= 64;
        auto tag_of = [&](int i) { return 100 + i % ntags; };
        auto perm = [&](int i) { return order == 0 ? i : order == 1 ? N - 1 - i : order == 2 ? (int)(((long)i * 7 + 3) % N) : (i % 2 ? i / 2 : N - 1 - i / 2); };
        if (order == 2 && N % 7 == 0) throw Skip();
        for (int i = 0; i < N; i++) {
            char *b = p.fresh(2, p.t_int);
            if (sends_first) p.send(SM_ISEND, 0, tag_of(i), b, cn(i), p.t_int);
            else p.irecv(0, wild == 1 || (wild == 2 && i % 3 == 0) ? MPI_ANY_TAG : tag_of(i), b, 2 - mixn * (i % 5 == 4), p.t_int);
        }
        for (int i = 0; i < N; i++) {
            int j = perm(i);
            char *b = p.fresh(2, p.t_int);
            if (!sends_first) p.send(SM_ISEND, 0, tag_of(j), b, cn(j), p.t_int);
            else p.irecv(0, wild == 1 || (wild == 2 && j % 3 == 0) ? MPI_ANY_TAG : tag_of(j), b, 2 - mixn * (i % 5 == 4), p.t_int);
            if (i % 64 == 0) um.check("long queue");
        }
        um.check("long queue");
        state(mix(p.fp(), N));
        p.memcheck = false;
        p.finish();
    });
}
// matching by a library that has done much
static void aged()
{
    guarded([] {
        int k = choose(AGE_ALL, "earlier operations"), g = choose(ages(), "how many"); if (!full_age(k, g) && AGE[g][1] != 65536) throw Skip();
        P2P &p = pp; p.begin(tier ? pick_api() : (k + g) & 1 ? api_f : api_c); 
        int other = -7;
        ok("Comm_dup", [&] { return p.api->Comm_dup(MPI_COMM_WORLD, &other); });
        age(p, k, AGE[g][0], other);
        auto op = [&] {
            int e = choose(5, "operation"); char *b = p.fresh(2, p.t_int);
            if (e < 2) p.send(SM_ISEND, 0, 5 + e, b, 2, p.t_int); else p.irecv(0, e == 4 ? MPI_ANY_TAG : 3 + e, b, 2, p.t_int);
        };
        if (full_age(k, g)) { op(); op(); }
        if (k != 2 && k != 3 && k != 4 && (k < 6 || k == 13) && p.find_recv(0, 77) >= 0) throw Skip();      // they would take these messages
        age(p, k, AGE[g][1], other);
        op(); op();
        state(mix(p.fp(), k * 16 + g));
        p.drain();
    });
}
// every mode of sending and receiving with every tag, past a message that must not match
static void tagmodes()
{
    guarded([] {
        Api *a = pick_api();
        std::vector<int> tv = tag_values();
        int t = pick(tv, "tag"), u = pick(tv, "other tag"), way = choose(MODES, "way"), wild = choose(2, "wildcards");
        if (t == u) throw Skip();
        P2P &p = pp; p.begin(a); p.stl = 1;
        char *s = p.fresh(2, p.t_int), *r = p.fresh(2, p.t_int), *s2 = p.fresh(2, p.t_int), *r2 = p.fresh(2, p.t_int);
        const RType &i = p.t_int; int rt = wild ? MPI_ANY_TAG : t, src = wild ? MPI_ANY_SOURCE : 0;
        bool sent = mode_sends_first(way);       // the message is there before the receive
        if (sent && !wild) p.send(SM_ISEND, 0, u, s2, 2, i);
        if (!sent && !wild) p.irecv(0, u, r2, 2, i);
        mode(p, way, 0, t, s, rt, r, src);
        state(mix(p.fp(), mix(way * 2 + wild, t)));
        p.drain();
    });
}
std::vector<Space> mc_spaces()
{
    return {
        {"nonblocking", "all sequences of 9 (thorough 11) Isend/Irecv operations with tags 5, 6 and MPI_ANY_TAG, C and Fortran; afterwards every request is completed or tested", nonblocking},
        {"allmodes", "all sequences of 6 (thorough 8) operations among Isend, Irsend, Send/Ssend/Rsend, Irecv, Recv, Sendrecv with tags 5, 6, ANY, whenever they can be satisfied, with four patterns of full and empty messages", allmodes},
        {"counts", "all sequences of 6 (thorough 7) Isend (2 tags, 0..2 elements) and Irecv (exact or any tag, room for 0 or 2)", counts},
        {"tags", "two sends and two receives in every posting order for every pair of 24 (thorough: about 90) legal tag values 0..MPI_TAG_UB, exact and wildcard tags and sources, each message empty or not", tags},
        {"tagmodes", "every pair of those tag values in ten ways of sending and receiving, with and without wildcards, past a message or receive of the other tag", tagmodes},
        {"aged", AGED_TEXT "all sequences of two and two Isend/Irecv operations with tags 5, 6 and MPI_ANY_TAG", aged},
        {"queues", "2..300 (thorough 1500) outstanding messages over 1..3 tags, matched in 4 orders, with and without wildcards, of one size or of mixed sizes", queues},
    };
}
