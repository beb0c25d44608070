#include "aged.h"
using namespace mc;
const char *mc_property = "C07";
static int live(P2P &p) { int n = 0; for (auto &c : p.comms) n += c.live; return n; }
static void body(int depth, int maxcomm, bool allhow, bool tags2)
{
    P2P &p = pp; p.begin(pick_api()); p.handles = true;
    int how0 = allhow ? 0 : choose(COMM_HOWS, "constructor");
    for (int d = 0; d < depth; d++) {
        struct E { int kind, c, x; };
        static std::vector<E> en; en.clear();
        int nl = live(p);
        for (int c = 0; c < (int)p.comms.size(); c++) {
            if (!p.comms[c].live) continue;
            en.push_back({0, c, 5}); if (tags2) en.push_back({0, c, 6});
            en.push_back({1, c, 5}); en.push_back({1, c, MPI_ANY_TAG});
            if (c) en.push_back({2, c, 0});
            if (nl < maxcomm && (int)p.comms.size() < 6) { if (allhow) for (int h = 0; h < COMM_HOWS; h++) en.push_back({3, c, h}); else en.push_back({3, c, how0}); }
        }
        E e = en[choose((int)en.size(), "operation")];
        switch (e.kind) {
        case 0: p.send(SM_ISEND, e.c, e.x, p.fresh(1, p.t_int), 1, p.t_int); break;
        case 1: p.irecv(e.c, e.x, p.fresh(1, p.t_int), 1, p.t_int, d & 1 ? MPI_ANY_SOURCE : 0); break;
        case 2: p.comm_free(e.c); break;
        case 3: p.comm_new(e.x, e.c); break;
        }
        // what each communicator shows
        for (int c = 0; c < (int)p.comms.size(); c++) if (p.comms[c].live) p.iprobe(c, MPI_ANY_TAG, MPI_ANY_SOURCE, 1);
        state(p.fp());
    }
    p.drain();
}
static void perhow() { guarded([] { body(tier ? 7 : 6, 3, false, false); }); }
static void mixedhow() { guarded([] { body(tier ? 5 : 4, 4, true, false); }); }

// many communicators alive at once, each with a message of its own; some freed; new ones made
static void many()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api());
        static const int Ns[] = {2, 5, 30, 254, 255, 256, 300};
        int N = Ns[choose(7, "communicators")];
        int how = choose(COMM_HOWS + 1, "constructor"), which = choose(4, "freed ones"), side = choose(2, "receives pending");
        p.ops.reserve(4 * N + 8); p.memcheck = false; p.handles = N <= 300;
        for (int i = 0; i < N; i++) p.comm_new(how == COMM_HOWS ? i % COMM_HOWS : how, i / 2);
        for (int i = 0; i <= N; i++) { if (side) p.irecv(i, MPI_ANY_TAG, p.fresh(1, p.t_int), 1, p.t_int); else p.send(SM_ISEND, i, 5, p.fresh(1, p.t_int), 1, p.t_int); }
        for (int i = 1; i <= N; i++) if ((which == 1 && i % 2) || (which == 2 && i > N / 2) || (which == 3 && i != N)) p.comm_free(i);
        int base = (int)p.comms.size();
        for (int i = 0; i < 4; i++) p.comm_new(i, 0);
        for (int i = 0; i < 4; i++) { p.iprobe(base + i, MPI_ANY_TAG, 0, 1); p.irecv(base + i, MPI_ANY_TAG, p.fresh(1, p.t_int), 1, p.t_int); }
        for (int i = 0; i < (int)p.comms.size(); i++) if (p.comms[i].live) p.send(SM_ISEND, i, 5, p.fresh(1, p.t_int), 1, p.t_int);
        um.check("many communicators");
        state(mix(mix(p.fp(), N), how));
        p.drain();
        um.check("many communicators");
    });
}
// every mode of sending and receiving on every kind of communicator, past messages or receives with the same tag on the others
static void modes()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 1;
        int c[4] = {0, 0, 0, 0};
        c[1] = p.comm_new(choose(COMM_HOWS, "constructor"), 0);
        c[2] = p.comm_new(choose(COMM_HOWS, "second constructor"), choose(2, "of the first") ? c[1] : 0);
        c[3] = p.comm_new(0, c[choose(3, "duplicate of")]);
        int w = choose(MODES, "way"), on = choose(4, "communicator"), wild = choose(2, "wildcards"), gone = choose(4, "freed");
        if (gone == on) throw Skip();
        const RType &i = p.t_int;
        for (int k = 0; k < 4; k++) if (k != on) {
            if (mode_sends_first(w)) p.send(SM_ISEND, c[k], 5, p.fresh(2, i), 2, i); else p.irecv(c[k], 5, p.fresh(2, i), 2, i);
        }
        if (gone) p.comm_free(c[gone]);
        mode(p, w, c[on], 5, p.fresh(2, i), wild ? MPI_ANY_TAG : 5, p.fresh(2, i), wild ? MPI_ANY_SOURCE : 0);
        for (int k = 0; k < 4; k++) if (k != gone || !gone) p.iprobe(c[k], MPI_ANY_TAG, MPI_ANY_SOURCE);
        state(mix(p.fp(), w * 4 + on));
        p.drain();
    });
}
static void aged()
{
    guarded([] {
        int k = choose(AGE_ALL, "earlier operations"), g = choose(ages(), "how many"); if (!full_age(k, g) && AGE[g][1] != 65536) throw Skip();
        P2P &p = pp; p.begin(tier ? pick_api() : (k + g) & 1 ? api_f : api_c); 
        int other = -7;
        ok("Comm_dup", [&] { return p.api->Comm_dup(MPI_COMM_WORLD, &other); });
        age(p, k, AGE[g][0], other);
        int second = p.comm_new(choose(2, "kind") * 4, 0);
        auto op = [&] {
            int c = choose(2, "communicator") ? second : 0, e = choose(4, "operation"); char *b = p.fresh(2, p.t_int);
            if (e == 3) { if (!c) throw Skip(); p.comm_free(second); second = p.comm_new(0, 0); }
            else if (e == 0) p.send(SM_ISEND, c, 5, b, 2, p.t_int); else p.irecv(c, e == 1 ? 5 : MPI_ANY_TAG, b, 2, p.t_int);
        };
        if (full_age(k, g)) { op(); }
        if (k != 2 && k != 3 && k != 4 && (k < 6 || k == 13) && p.find_recv(0, 77) >= 0) throw Skip();      // they would take these messages
        age(p, k, AGE[g][1], other);
        op(); op();
        state(mix(p.fp(), k * 16 + g));
        p.drain();
    });
}
std::vector<Space> mc_spaces()
{
    return {
        {"history", "all histories of 6 (thorough 7) operations over up to 3 live communicators of one kind (all ten ways of making one, from any parent): Isend, Irecv exact/any, Comm_free (pending messages allowed), creation; a wildcard probe of every communicator after each step; drained at the end", perhow},
        {"mixed", "all histories of 4 (thorough 5) operations with all ten ways mixed, up to 4 live communicators", mixedhow},
        {"modes", "ten ways of sending and receiving on any of four communicators of every pair of kinds, nested or not, while the others have messages or receives with the same tag pending; one of them freed or none", modes},
        {"aged", AGED_TEXT "all sequences of one and two Isend/Irecv operations on two communicators and replacing the second", aged},
        {"many", "2..300 communicators alive (across handle blocks), one message or receive pending on each, subsets freed, new ones created, everything matched", many},
    };
}
