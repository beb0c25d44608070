#include "lengthy.h"
#include "aged.h"
using namespace mc;
const char *mc_property = "C05";
static void body(int depth, int ncomm)
{
    P2P &p = pp; p.begin(pick_api()); p.stl = 2;
    if (ncomm == 2) p.comm_new(0, 0);
    p.pre = 5;
    RType pair; pair = r_basic(MPI_DOUBLE_INT);
    int sent = choose(ncomm == 1 ? 3 : 2, "phase of the counts");
    static const int TAGS[3] = {5, 6, MPI_ANY_TAG};
    for (int d = 0; d < depth; d++) {
        struct E { int kind, c, x; };
        static std::vector<E> en; en.clear();
        for (int c = 0; c < ncomm; c++) {
            for (int t : {5, 6}) en.push_back({0, c, t});
            for (int t : TAGS) { if (c == 0) en.push_back({1, c, t}); en.push_back({2, c, t}); if (p.find_send(c, t) >= 0) { en.push_back({3, c, t}); en.push_back({4, c, t}); } }
        }
        E e = en[choose((int)en.size(), "operation")];
        switch (e.kind) {
        case 0: { const RType &t = sent % 3 == 2 ? p.t_double : p.t_int; int n = sent % 3; sent++; p.send(SM_ISEND, e.c, e.x, p.fresh(n, t), n, t); } break;
        case 1: p.irecv(e.c, e.x, p.fresh(3, p.t_double), 3, p.t_double); break;
        case 2: p.iprobe(e.c, e.x, d & 1 ? MPI_ANY_SOURCE : 0, 0); break;
        case 3: p.probe(e.c, e.x, d & 1 ? 0 : MPI_ANY_SOURCE, 0); break;
        case 4: { // the receive a probe announces
            int m = p.find_send(e.c, e.x); Op o = p.ops[p.comms[e.c].sq[m]];
            p.iprobe(e.c, e.x);
            p.recv(e.c, e.x, p.fresh(o.n, *o.t), o.n, *o.t);
        } break;
        }
        state(p.fp());
    }
    for (int c = 0; c < ncomm; c++) for (int t : TAGS) p.iprobe(c, t, 0, t == 5);
    p.stl = 0;
    p.drain();
}
static void onecomm() { guarded([] { body(tier ? 7 : 6, 1); }); }
static void twocomm() { guarded([] { body(tier ? 6 : 5, 2); }); }

static void shapes()      // what a probe says about a message, for every shape of message and boundary tag
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        RType c3, v, e0, st;
        mk_contig(p.api, c3, 3, p.t_int); mk_commit(p.api, c3);
        mk_vector(p.api, v, 2, 2, 3, p.t_double); mk_commit(p.api, v);
        mk_contig(p.api, e0, 0, p.t_int); mk_commit(p.api, e0);
        int bl[2] = {1, 2}; long ds[2] = {0, 8}; RType d = p.t_double, i = p.t_int; const RType *o[2] = {&i, &d};
        mk_struct(p.api, st, 2, bl, ds, o); mk_commit(p.api, st);
        RType by = p.t_byte, di = r_basic(MPI_DOUBLE_INT);
        std::vector<RType *> ts = {&i, &d, &by, &c3, &v, &e0, &st, &di};
        p.qtypes = {&i, &c3, &st};
        RType *t = pick(ts, "message type");
        int n = choose(5, "message count");
        static const std::vector<int> tags = {0, 1, 5, 255, 256, 32767, 65536, 0x40000000, 1681915906};
        int tag = pick(tags, "tag");
        int ask = choose(3, "probe tag"), src = choose(2, "source") ? MPI_ANY_SOURCE : 0;
        int ahead = choose(3, "message ahead of it");
        if (ahead == 1) p.send(SM_ISEND, 0, tag ^ 1, p.fresh(2, i), 2, i);
        if (ahead == 2) p.send(SM_ISEND, 0, tag, p.fresh(2, i), 2, i);
        p.send(SM_ISEND, 0, tag, p.fresh(n, *t), n, *t);
        int at = ask == 0 ? tag : ask == 1 ? MPI_ANY_TAG : tag + 1;
        int kind = choose(4, "probe");
        p.pre = choose(P2P::PRES, "what the status holds before");
        if (kind < 2) p.iprobe(0, at, src, kind);
        else if (p.find_send(0, at) >= 0) p.probe(0, at, src, kind - 2);
        else throw Skip();
        state(mix(mix(p.fp(), n), t->h));
        p.stl = 0;
        p.drain();
    });
}
// tags that differ from the wanted one in a single bit or by a power of two
static void bits()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2; p.pre = 5;
        static const std::vector<int> tags = {0, 1, 0x5555, 0x12345678, 0x3fffffff, 0x40000000, 0x7fffffff};
        int tag = pick(tags, "tag"), k = choose(31, "bit"), sum = choose(2, "sum"), order = choose(2, "order");
        int other = sum ? (int)(((long)tag + (1L << k)) & 0x7fffffff) : tag ^ (1 << k);
        p.send(SM_ISEND, 0, order ? tag : other, p.fresh(1 + !order, p.t_int), 1 + !order, p.t_int);
        p.iprobe(0, order ? other : tag);
        p.send(SM_ISEND, 0, order ? other : tag, p.fresh(1 + order, p.t_int), 1 + order, p.t_int);
        for (int t : {tag, other}) { p.iprobe(0, t); p.probe(0, t, 0, 0); }
        state(mix(mix(tag, other), order));
        p.recv(0, tag, p.fresh(3, p.t_int), 3, p.t_int);
        p.iprobe(0, tag); p.iprobe(0, other); p.iprobe(0, MPI_ANY_TAG);
        p.stl = 0; p.drain();
    });
}
// many messages waiting: each probe and each announced receive
static void deep()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        static const std::vector<int> N = {2, 3, 9, 17, 33, 65, 129, 255, 256, 257, 300}; static const std::vector<int> NT = {2, 3, 9, 17, 33, 65, 129, 255, 256, 257, 300, 513, 1025, 1500};
        int n = pick(tier ? NT : N, "messages"), tags = 1 + choose(3, "tags"), order = choose(4, "order of the receives"), wild = choose(2, "wildcard"), posted = choose(2, "receives posted before");
        for (int i = 0; i < (posted ? n / 2 : 0); i++) p.irecv(0, 90, p.fresh(1, p.t_int), 1, p.t_int);
        for (int i = 0; i < n; i++) { int c = i % 4; p.send(SM_ISEND, 0, 40 + i % tags, p.fresh(c, p.t_int), c, p.t_int); if (i % 16 == 0 || i == n - 1) for (int t = 40; t < 40 + tags; t++) p.iprobe(0, t); }
        for (int i = 0; i < n; i++) {
            int t = order == 0 ? 40 + i % tags : order == 1 ? 40 + tags - 1 - i % tags : order == 2 ? 40 : 40 + tags - 1;
            if (wild && i % 3 == 0) t = MPI_ANY_TAG;
            if (p.find_send(0, t) < 0) t = MPI_ANY_TAG;
            for (int x = 39; x <= 40 + tags; x++) p.iprobe(0, x);
            p.probe(0, t, i & 1 ? 0 : MPI_ANY_SOURCE);
            int m = p.find_send(0, t); Op o = p.ops[p.comms[0].sq[m]];
            p.recv(0, t, p.fresh(o.n, *o.t), o.n, *o.t);
            if (i == n / 2) p.memcheck = false;
        }
        p.iprobe(0, MPI_ANY_TAG);
        state(mix(p.fp(), order));
        p.stl = 0; p.drain();
    });
}
static void lengthy_probe() { guarded([] { lengthy(true); }); }
static void aged()
{
    guarded([] {
        int k = choose(AGE_ALL, "earlier operations"), g = choose(ages(), "how many"); if (!full_age(k, g) && AGE[g][1] != 65536) throw Skip();
        P2P &p = pp; p.begin(tier ? pick_api() : (k + g) & 1 ? api_f : api_c); p.stl = 2;
        int other = -7;
        ok("Comm_dup", [&] { return p.api->Comm_dup(MPI_COMM_WORLD, &other); });
        age(p, k, AGE[g][0], other);
        auto op = [&](int n) {
            int e = choose(5, "operation"); char *b = p.fresh(2, p.t_int);
            if (e < 2) p.send(SM_ISEND, 0, 5 + e, b, n, p.t_int); else p.irecv(0, e == 4 ? MPI_ANY_TAG : 3 + e, b, 2, p.t_int);
            for (int t : {5, 6, MPI_ANY_TAG}) { p.iprobe(0, t); if (p.find_send(0, t) >= 0) p.probe(0, t); }
        };
        if (full_age(k, g)) { op(0); op(1); }
        if (k != 2 && k != 3 && k != 4 && (k < 6 || k == 13) && p.find_recv(0, 77) >= 0) throw Skip();      // they would take these messages
        age(p, k, AGE[g][1], other);
        for (int t : {5, 6, MPI_ANY_TAG}) p.iprobe(0, t);
        op(2); op(1);
        state(mix(p.fp(), k * 16 + g));
        p.stl = 0; p.drain();
    });
}
std::vector<Space> mc_spaces()
{
    return {
        {"sequences", "all sequences of 6 (thorough 7) operations on one communicator: Isend (two tags, counts 0..2 in rotation from each start, two types), Irecv, Iprobe and Probe with exact/any tag and source, probe-then-receive; three more probes at the end, then everything is drained", onecomm},
        {"twocomm", "all sequences of 5 (thorough 6) operations over two communicators", twocomm},
        {"shapes", "one message of 8 types x counts 0..4 x 9 tags, alone or behind another message, probed with exact, any and other tag", shapes},
        {"aged", AGED_TEXT "all sequences of two and two Isend/Irecv operations, probed for each tag after each", aged},
        {"deep", "2..300 (thorough 1500) messages waiting on 1..3 tags, received in four orders with probes of every tag before each", deep},
        {"bits", "two messages whose tags differ in one bit or by a power of two, for 7 tags and every bit, in either order, probed with both", bits},
        {"lengthy", "29 numbers of items of 1..1000 elements, up to 2^31-1 items and 2^41 elements, probed; counts asked with five types", lengthy_probe},
    };
}
