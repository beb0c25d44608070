#define C06
#include "c04.cpp"
#include "lengthy.h"
#include "replaced.h"
const char *mc_property = "C06";
static RType T[12]; static int nT;
static void types(P2P &p)
{
    nT = 0; Api *a = p.api;
    auto add = [&]() -> RType & { return T[nT++]; };
    add() = r_basic(MPI_INT);
    { RType &t = add(); mk_contig(a, t, 2, T[0]); mk_commit(a, t); }
    { RType &t = add(); mk_contig(a, t, 3, T[0]); mk_commit(a, t); }
    { RType &t = add(); mk_vector(a, t, 2, 1, 2, T[0]); mk_commit(a, t); }
    { RType &t = add(); mk_contig(a, t, 0, T[0]); mk_commit(a, t); }
}
static void complete(P2P &p, int how, int r, int ign)
{
    std::vector<int> sel = {r};
    switch (how) {
    case 0: p.wait(r, ign); break;
    case 1: p.test(r, ign); break;
    case 2: p.any(sel, true, ign); break;
    case 3: p.any(sel, false, ign); break;
    case 4: p.all(sel, true, ign); break;
    case 5: p.all(sel, false, ign); break;
    case 6: p.some(sel, true, ign); break;
    case 7: p.some(sel, false, ign); break;
    }
}
static void shapes()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        types(p);
        RType *st = &T[choose(nT, "send type")]; int sn = choose(5, "send count");
        RType *rt = &T[choose(nT, "receive type")]; int rn = choose(5, "receive count");
        for (int i = 0; i < nT; i++) p.qtypes.push_back(&T[i]);
        int tag = choose(2, "tag") ? 0 : 77, any = choose(2, "any tag");
        int how = choose(10, "how it is completed"), ign = choose(2, "ignore status");
        p.pre = choose(P2P::PRES, "what the status holds before");
        char *sb = p.fresh(sn, *st), *rb = p.fresh(rn, *rt);
        if (how == 8) { p.send(SM_ISEND, 0, tag, sb, sn, *st); p.recv(0, any ? MPI_ANY_TAG : tag, rb, rn, *rt, 0, ign); }
        else if (how == 9) p.sendrecv(0, tag, sb, sn, *st, any ? MPI_ANY_TAG : tag, rb, rn, *rt, 0, MPI_ANY_SOURCE, ign);
        else {
            int first = choose(2, "receive posted first"), r;
            if (first) { r = p.irecv(0, any ? MPI_ANY_TAG : tag, rb, rn, *rt); p.send(choose(2, "Send") ? SM_SEND : SM_ISEND, 0, tag, sb, sn, *st); }
            else { p.send(SM_ISEND, 0, tag, sb, sn, *st); r = p.irecv(0, any ? MPI_ANY_TAG : tag, rb, rn, *rt, MPI_ANY_SOURCE); }
            complete(p, how, r, ign);
        }
        state(mix(mix(mix(p.fp(), how), sn * 16 + rn), st->h * 64 + rt->h));
        p.finish();
    });
}
static void aged_sp()
{
    guarded([] { aged_twice([](P2P &p, int late) {
        types(p); p.qtypes.clear(); for (int i = 0; i < nT; i++) p.qtypes.push_back(&T[i]);
        for (int i = 0; i < nT; i += 2) for (int j = 0; j < nT; j++) for (int sn = 0; sn < 3; sn++) for (int rn = 1; rn < 4; rn++) for (int how = 0; how < 10; how++) {
            p.forget(); int tag = 60 + sn + how; bool any = (i + j + how + late) & 1;
            RType *st = &T[i], *rt = &T[j]; char *sb = p.fresh(sn, *st), *rb = p.fresh(rn, *rt);
            if (how == 8) { p.send(SM_ISEND, 0, tag, sb, sn, *st); p.recv(0, any ? MPI_ANY_TAG : tag, rb, rn, *rt); }
            else if (how == 9) p.sendrecv(0, tag, sb, sn, *st, any ? MPI_ANY_TAG : tag, rb, rn, *rt);
            else {
                int r;
                if ((sn + rn) & 1) { r = p.irecv(0, any ? MPI_ANY_TAG : tag, rb, rn, *rt); p.send(SM_SEND, 0, tag, sb, sn, *st); }
                else { p.send(SM_ISEND, 0, tag, sb, sn, *st); r = p.irecv(0, any ? MPI_ANY_TAG : tag, rb, rn, *rt); }
                complete(p, how, r, 0);
            }
            p.finish();
        }
        for (int i = 1; i < nT; i++) mk_free(p.api, T[i]);
    }, 2); });
}
// types with several basic elements of different size
static void mixed()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        Api *a = p.api;
        static RType s, c, di, in, em, by; di = r_basic(MPI_DOUBLE_INT); in = r_basic(MPI_INT); by = r_basic(MPI_BYTE);
        int bl[2] = {1, 1}; long ds[2] = {0, 24}; RType d = p.t_double; const RType *o[2] = {&d, &in};
        mk_struct(a, s, 2, bl, ds, o); mk_commit(a, s);
        mk_contig(a, c, 2, di); mk_commit(a, c);
        mk_contig(a, em, 3, em = (mk_contig(a, em, 0, in), em)); mk_commit(a, em);
        std::vector<RType *> ts = {&di, &s, &c};
        RType *st = pick(ts, "send type"), *rt = pick(ts, "receive type");
        int sn = choose(6, "send count"), rn = choose(6, "receive count");
        p.qtypes = {&di, &s, &c, &in, &by, &em};
        int how = choose(10, "how it is completed");
        char *sb = p.fresh(sn, *st), *rb = p.fresh(rn, *rt);
        if (how == 8) { p.send(SM_ISEND, 0, 3, sb, sn, *st); p.recv(0, MPI_ANY_TAG, rb, rn, *rt); }
        else if (how == 9) p.sendrecv(0, 3, sb, sn, *st, 3, rb, rn, *rt);
        else {
            int r;
            if (choose(2, "receive posted first")) { r = p.irecv(0, 3, rb, rn, *rt); p.send(SM_SEND, 0, 3, sb, sn, *st); }
            else { p.send(SM_ISEND, 0, 3, sb, sn, *st); r = p.irecv(0, 3, rb, rn, *rt); }
            complete(p, how, r, 0);
        }
        state(mix(mix(mix(p.fp(), how), sn * 16 + rn), st->h * 64 + rt->h));
        p.finish();
    });
}
static void arrays2() { guarded([] { arrays(3, 6, 2, true, 2); }); }
static void longer2() { guarded([] { longer(); }); }
// a request variable used again and again: the status must be of the latest message
static void reuse()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        p.qtypes = {&p.t_int};
        p.pre = choose(P2P::PRES, "what the status holds before");
        for (int k = 0; k < (tier ? 5 : 4); k++) {
            int w = choose(6, "round"), n = 1 + (k * 2 + w) % 5, cap = n + w % 2, tag = 10 * k + w;
            int how = choose(3, "completed by");
            int r;
            if (w < 3) { r = p.irecv(0, MPI_ANY_TAG, p.fresh(cap, p.t_int), cap, p.t_int, w == 2 ? MPI_PROC_NULL : 0); if (w != 2) p.send(SM_SEND, 0, tag, p.fresh(n, p.t_int), n, p.t_int); }
            else { p.send(SM_ISEND, 0, tag, p.fresh(n, p.t_int), n, p.t_int); r = p.irecv(0, w == 4 ? MPI_ANY_TAG : tag, p.fresh(cap, p.t_int), cap, p.t_int); }
            complete(p, how == 0 ? 0 : how == 1 ? 3 : 7, r, 0);
            state(p.fp());
        }
        p.finish();
    });
}
// sendrecv with either half, both or none naming MPI_PROC_NULL
static void half()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        types(p); for (int i = 0; i < nT; i++) p.qtypes.push_back(&T[i]);
        p.pre = choose(P2P::PRES, "what the status holds before");
        int rounds = 1 + choose(2, "calls");
        while (rounds--) {
            int h = choose(4, "which half is null (bit 0: send, bit 1: receive)"), ign = choose(2, "ignore status"), posted = choose(3, "posted before");
            bool brief = rounds && !tier;
            RType *st = &T[brief ? 0 : choose(2, "send type")], *rt = &T[brief ? 0 : choose(2, "receive type")];
            int sn = brief ? 2 : choose(3, "send count"), rn = brief ? 2 : choose(3, "receive count"), any = choose(2, "any tag");
            int r = -1;
            if (posted == 1) { p.send(SM_ISEND, 0, 9, p.fresh(2, p.t_int), 2, p.t_int); r = (int)p.reqs.size() - 1; }
            if (posted == 2) r = p.irecv(0, 8, p.fresh(2, p.t_int), 2, p.t_int);
            char *sb = p.fresh(sn, *st), *rb = p.fresh(rn, *rt);
            p.sendrecv(0, posted == 2 ? 8 : 9, sb, sn, *st, any ? MPI_ANY_TAG : 9, rb, rn, *rt, h & 1 ? MPI_PROC_NULL : 0, h & 2 ? MPI_PROC_NULL : 0, ign);
            if (r >= 0 && p.done(p.reqs[r])) p.wait(r, 0);
            state(mix(p.fp(), (h * 2 + ign) * 16 + sn * 4 + rn));
        }
        p.finish();
    });
}
static void lengthy_recv() { guarded([] { lengthy(false); }); }
// counts asked with a datatype in the place of another
static void replaced_sp()
{
    P2P &p = pp; Api *a = pick_api(); p.begin(a); p.stl = 2;
    static const int B[] = {MPI_INT, MPI_DOUBLE_INT};
    static RType b; b = r_basic(B[choose(2, "base")]);
    int use = choose(3, "use of the first one (asked for the count, received, both)"), m0 = choose(8, "items sent at first"), m1 = choose(8, "items sent"), as = choose(2, "received as");
    auto go = [&](const RType &t, int m, bool ask, bool as) {
        p.qtypes.clear(); if (ask) p.qtypes.push_back(const_cast<RType *>(&t));
        if (as && overlaps(t, 3)) throw Skip();
        p.send(SM_ISEND, 0, 5, room(m, b), m, b); int r = (int)p.reqs.size() - 1;
        if (as) p.recv(0, 5, room(3, t), 3, t); else p.recv(0, 5, room(8, b), 8, b);
        p.wait(r, 1); p.qtypes.clear();
    };
    RType &t = replaced(a, b, b, [&](const RType &old) { go(old, m0, use != 1, use); });
    go(t, m1, true, as);
    p.finish();
}
std::vector<Space> mc_spaces()
{
    return {
        {"shapes", "send count 0..4 and receive count 0..4 of five int layouts (including an empty one) on either side, either side posted first, exact or any tag, ten ways of completing, status given or ignored; counts asked with all five types", shapes},
        {"mixed", "double+int layouts, counts 0..5 on both sides, counts asked with six types incl. ones that do not divide the message", mixed},
        {"arrays", "arrays of 0..3 requests in six states, two any/all/some calls, full statuses", arrays2},
        {"longer", "arrays of up to 20 entries, patterns of states, two calls", longer2},
        {"crowd", "arrays of 33..300 (thorough 1299) entries in one of five states but for one, two calls", crowd},
        {"reuse", "four (thorough five) receives in a row through recycled request slots, each in six variants and completed in three ways", reuse},
        {"half", "one or two sendrecvs with either half, both or none naming MPI_PROC_NULL, counts 0..2, two layouts on both sides, exact or any tag, a message or receive of the same tag pending before, status given or ignored", half},
        {"aged", AGED_TWICE_TEXT "messages of 0..2 items of three layouts received in 1..3 items of five, completed in ten ways", aged_sp},
        {"lengthy", "messages of up to 300000 (thorough 10^8, two beyond 2^31 and 2^32) elements in items of 1..1000, received in items of 1..1000 with as much, less or more room, completed in six ways; counts asked with five types", lengthy_recv},
        {"replaced", REPLACED_TEXT "messages of 0..7 items received and counted with it", replaced_sp},
    };
}
