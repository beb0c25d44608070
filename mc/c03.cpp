#include "aged.h"
using namespace mc;
const char *mc_property = "C03";

// every history of posting, testing, waiting and freeing
static void history(Api *a, int depth, int maxreq, bool rich)
{
    P2P &p = pp; p.begin(a); p.stl = 1;
    for (int d = 0; d < depth; d++) {
        struct E { int kind, x, y; };
        static std::vector<E> en; en.clear();
        if ((int)p.reqs.size() < maxreq) {
            en.push_back({0, 0, 5}); if (rich) en.push_back({0, 0, 6});
            en.push_back({1, 0, 5}); en.push_back({1, 0, MPI_ANY_TAG});
            if (rich) { en.push_back({5, 0, 5}); en.push_back({6, 0, 5}); en.push_back({7, 0, 5}); if (p.find_recv(0, 5) >= 0) en.push_back({8, 0, 5}); }
            if (rich) { en.push_back({0, MPI_PROC_NULL, 5}); en.push_back({1, MPI_PROC_NULL, 5}); }
        }
        for (int i = 0; i < (int)p.reqs.size(); i++) {
            en.push_back({2, i, 0});
            if (p.done(p.reqs[i])) en.push_back({3, i, 0});
            if (p.reqs[i].op >= 0) en.push_back({4, i, 0});
        }
        E e = en[choose((int)en.size(), "operation")];
        switch (e.kind) {
        case 0: p.send(SM_ISEND, 0, e.y, p.fresh(2, p.t_int), 2, p.t_int, e.x); break;
        case 1: p.irecv(0, e.y, p.fresh(2, p.t_int), 2, p.t_int, e.x); break;
        case 2: p.test(e.x, d & 1); break;
        case 3: p.wait(e.x, d & 1); break;
        case 4: p.request_free(e.x); break;
        case 5: p.send(SM_ISEND, 0, e.y, p.fresh(2, p.t_int), 0, p.t_int); break;
        case 6: p.irecv(0, e.y, p.fresh(2, p.t_int), 0, p.t_int); break;
        case 7: p.send(SM_IRSEND, 0, e.y, p.fresh(2, p.t_int), d & 1 ? 0 : 2, p.t_int); break;     // dies if unmatched
        case 8: p.send(d & 1 ? SM_SEND : SM_SSEND, 0, e.y, p.fresh(2, p.t_int), d & 2 ? 0 : 2, p.t_int); break;
        }
        state(p.fp());
    }
    p.drain();
}
static void plain() { guarded([] { history(pick_api(), tier ? 9 : 7, 4, false); }); }
static void rich() { guarded([] { history(pick_api(), tier ? 7 : 6, 4, true); }); }

// a null request, before and after anything else, ignored status or not
static void nulls()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 1;
        int before = choose(5, "before");
        if (before == 1) p.send(SM_ISEND, 0, 5, p.fresh(1, p.t_int), 1, p.t_int);
        if (before == 2) p.irecv(0, 5, p.fresh(1, p.t_int), 1, p.t_int);
        if (before >= 3) { p.send(SM_ISEND, 0, 5, p.fresh(1, p.t_int), 1, p.t_int); p.irecv(0, 5, p.fresh(1, p.t_int), 1, p.t_int); }
        if (before == 4) { p.wait(1); p.wait(0); }
        p.reqs.push_back(P2P::R{0, -1});
        int n = (int)p.reqs.size() - 1;
        for (int k = 0; k < 3; k++) {
            int w = choose(4, "call");
            if (w < 2) p.test(n, w); else p.wait(n, w - 2);
        }
        state(p.fp());
        p.drain();
    });
}
// many requests outstanding, some freed while pending, then matched; the freed ones' slots are used again
static void many()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api());
        static const int Ns[] = {3, 40, 255, 257, 520};
        int N = Ns[choose(tier ? 5 : 4, "requests")];
        bool sends = choose(2, "sends pending") == 1;
        int which = choose(4, "freed ones");      // none, all, even, last half
        int again = choose(2, "create others before matching");
        int mixn = choose(2, "empty messages among them");
        auto cn = [&](int i) { return mixn && i % 3 == 1 ? 0 : 1; };
        p.ops.reserve(4 * N + 16); p.memcheck = N < 50; p.handles = N < 50;
        auto freed = [&](int i) { return which == 1 || (which == 2 && i % 2 == 0) || (which == 3 && i >= N / 2); };
        for (int i = 0; i < N; i++) {
            if (sends) p.send(SM_ISEND, 0, 7 + i % 3, p.fresh(1, p.t_int), cn(i), p.t_int);
            else p.irecv(0, 7 + i % 3, p.fresh(1, p.t_int), cn(i), p.t_int);
        }
        for (int i = 0; i < N; i++) if (freed(i)) p.request_free(i);
        if (again) for (int i = 0; i < 5; i++) p.irecv(0, 900 + i, p.fresh(1, p.t_int), 1, p.t_int);
        for (int i = 0; i < N; i++) {
            int t = 7 + (N - 1 - i) % 3;
            if (sends ? p.find_send(0, t) < 0 : p.find_recv(0, t) < 0) t = p.ops[sends ? p.comms[0].sq[0] : p.comms[0].rq[0]].tag;
            if (sends) p.recv(0, t, p.fresh(1, p.t_int), 1, p.t_int);
            else p.send(SM_SEND, 0, t, p.fresh(1, p.t_int), 1, p.t_int);
        }
        um.check("many requests");
        if (again) for (int i = 0; i < 5; i++) p.send(SM_ISEND, 0, 904 - i, p.fresh(1, p.t_int), 1, p.t_int);
        um.check("many requests");
        p.finish();
        um.check("many requests");
        state(mix(p.fp(), N));
    });
}
// one kind of request completed or freed in one way over and over: nothing is left behind
static void released()
{
    guarded([] {
        Api *a = pick_api(); ok("Init", [&] { return a->Init(); });
        int kind = choose(6, "request"), way = choose(9, "completed by"), ign = choose(2, "status ignored"), kept = choose(2, "others pending");
        static int v[4]; int q[3], o[2], W = MPI_COMM_WORLD, f, ix, oc, ixs[3]; MPI_Status st[3];
        if (kept) { ok("Irecv", [&] { return a->Irecv(&v[2], 1, MPI_INT, 0, 77, W, &o[0]); }); ok("Isend", [&] { return a->Isend(&v[3], 1, MPI_INT, 0, 78, W, &o[1]); }); }
        MPI_Status *s1 = ign ? MPI_STATUS_IGNORE : st, *sn = ign ? MPI_STATUSES_IGNORE : st;
        static const char *const KN[] = {"sent before the receive", "sent after the receive", "received after the send", "received before the send", "sent to MPI_PROC_NULL", "received from MPI_PROC_NULL"};
        static const char *const WN[] = {"Test", "Wait", "Testany", "Waitany", "Testall", "Waitall", "Testsome", "Waitsome", "Request_free"};
        note("%s, %s", KN[kind], WN[way]);
        long base = 0;
        for (int k = 0; k < 700; k++) {
            switch (kind) {
            case 0: a->Isend(v, 1, MPI_INT, 0, 5, W, q); a->Recv(v + 1, 1, MPI_INT, 0, 5, W, s1); break;
            case 1: { int r; a->Irecv(v + 1, 1, MPI_INT, 0, 5, W, &r); a->Isend(v, 1, MPI_INT, 0, 5, W, q); a->Wait(&r, s1); break; }
            case 2: { int r; a->Isend(v, 1, MPI_INT, 0, 5, W, &r); a->Irecv(v + 1, 1, MPI_INT, 0, 5, W, q); a->Wait(&r, s1); break; }
            case 3: a->Irecv(v + 1, 1, MPI_INT, 0, 5, W, q); a->Send(v, 1, MPI_INT, 0, 5, W); break;
            case 4: a->Isend(v, 1, MPI_INT, MPI_PROC_NULL, 5, W, q); break;
            case 5: a->Irecv(v, 1, MPI_INT, MPI_PROC_NULL, 5, W, q); break;
            }
            q[1] = MPI_REQUEST_NULL;
            switch (way) {
            case 0: a->Test(q, &f, s1); break;
            case 1: a->Wait(q, s1); break;
            case 2: a->Testany(2, q, &ix, &f, s1); break;
            case 3: a->Waitany(2, q, &ix, s1); break;
            case 4: a->Testall(2, q, &f, sn); break;
            case 5: a->Waitall(2, q, sn); break;
            case 6: a->Testsome(2, q, &oc, ixs, sn); break;
            case 7: a->Waitsome(2, q, &oc, ixs, sn); break;
            case 8: a->Request_free(q); break;
            }
            if (q[0] != MPI_REQUEST_NULL) fail("%s (%s) leaves the handle", WN[way], KN[kind]);
            if (k == 20) base = env::live_bytes;
        }
        if (env::live_bytes > base) fail("requests %s and completed by %s are not released: %ld bytes after 20 of them, %ld after 700", KN[kind], WN[way], base, env::live_bytes);
        state(mix(mix(kind, way), ign * 2 + kept));
    });
}
static void aged()
{
    guarded([] {
        int k = choose(AGE_ALL, "earlier operations"), g = choose(ages(), "how many"); if (!full_age(k, g) && AGE[g][1] != 65536) throw Skip();
        P2P &p = pp; p.begin(tier ? pick_api() : (k + g) & 1 ? api_f : api_c); p.stl = 1; p.handles = true;
        int other = -7;
        ok("Comm_dup", [&] { return p.api->Comm_dup(MPI_COMM_WORLD, &other); });
        age(p, k, AGE[g][0], other);
        auto op = [&] {
            int n = (int)p.reqs.size(), e = choose(3 + 2 * n, "operation"); char *b = p.fresh(2, p.t_int);
            if (e == 0) p.send(SM_ISEND, 0, 5, b, 2, p.t_int);
            else if (e < 3) p.irecv(0, e == 1 ? 5 : MPI_ANY_TAG, b, 2, p.t_int);
            else if ((e -= 3) < n) p.test(e);
            else if (p.reqs[e - n].op < 0) throw Skip();
            else p.request_free(e - n);
        };
        if (full_age(k, g)) { op(); op(); }
        if (k != 2 && k != 3 && k != 4 && (k < 6 || k == 13) && p.find_recv(0, 77) >= 0) throw Skip();      // they would take these messages
        age(p, k, AGE[g][1], other);
        op(); op();
        state(mix(p.fp(), k * 16 + g));
        p.drain();
    });
}
// every kind of request, completed in every way, with every tag value
static void tags()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        static const std::vector<int> tv = tag_values(true);
        int tag = pick(tv, "tag"), kind = choose(6, "request"), way = choose(8, "completed by"), ign = choose(2, "status ignored"), early = choose(2, "asked too early"), any = choose(2, "any tag"), q = -1, o = -1;
        if (any && (kind < 2 || kind > 3)) throw Skip();
        char *x = p.fresh(2, p.t_int), *y = p.fresh(2, p.t_int);
        auto ask = [&](bool now) {
            std::vector<int> sel = {q};
            switch (way) {
            case 0: p.test(q, ign); break;
            case 1: if (now) p.wait(q, ign); else p.test(q, ign); break;
            case 2: case 3: if (now || way == 2) p.any(sel, way == 3, ign); break;
            case 4: case 5: if (now || way == 4) p.all(sel, way == 5, ign); break;
            case 6: case 7: if (now || way == 6) p.some(sel, way == 7, ign); break;
            }
        };
        switch (kind) {
        case 0: q = p.send(SM_ISEND, 0, tag, x, 2, p.t_int); if (early) ask(false); p.recv(0, tag, y, 2, p.t_int); break;
        case 1: o = p.irecv(0, tag, y, 2, p.t_int); q = p.send(SM_ISEND, 0, tag, x, 2, p.t_int); break;
        case 2: o = p.send(SM_ISEND, 0, tag, x, 2, p.t_int); q = p.irecv(0, any ? MPI_ANY_TAG : tag, y, 2, p.t_int); break;
        case 3: q = p.irecv(0, any ? MPI_ANY_TAG : tag, y, 2, p.t_int); if (early) ask(false); p.send(SM_SEND, 0, tag, x, 2, p.t_int); break;
        case 4: q = p.send(SM_ISEND, 0, tag, x, 2, p.t_int, MPI_PROC_NULL); break;
        case 5: q = p.irecv(0, tag, y, 2, p.t_int, MPI_PROC_NULL); break;
        }
        if (early && kind != 0 && kind != 3) throw Skip();
        ask(true); ask(true && p.done(p.reqs[q]));
        if (o >= 0) p.wait(o, !ign);
        state(mix(mix(tag, kind), way * 8 + ign * 4 + early * 2 + any)); p.finish();
    });
}
std::vector<Space> mc_spaces()
{
    return {
        {"history", "all histories of 7 (thorough 9) calls over at most 4 request variables: Isend, Irecv exact/any tag, Test, Wait of complete or null requests, Request_free of pending or complete ones; then everything left is matched and completed", plain},
        {"rich", "all histories of 6 (thorough 7) calls with two send tags, MPI_PROC_NULL requests, empty messages, empty receives, Irsend with and without a receive, Send and Ssend as well", rich},
        {"aged", AGED_TEXT "all sequences of two and two of Isend, Irecv, Test and Request_free", aged},
        {"tags", "six kinds of requests with each of about 90 legal tag values, exact or any tag, completed in eight ways, asked too early or not, status given or ignored, asked again", tags},
        {"nulls", "three Test/Wait calls on a null request in five library states, status given or ignored", nulls},
        {"released", "six kinds of requests, each completed or freed in nine ways 700 times over, statuses given or ignored, with and without others pending: no memory is left behind", released},
        {"many", "3..257 (thorough 520) pending sends or receives, a subset freed while pending, optionally new requests created, then matched in rotated order", many},
    };
}
