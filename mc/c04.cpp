#include "p2p.h"
#include "aged.h"
using namespace mc;
#ifndef C06
const char *mc_property = "C04";
#endif
// builds a request in the wanted state: 0 null, 1 pending receive, 2 complete receive, 3 complete send,
// 4 pending send, 5 completed by PROC_NULL
static int entry(P2P &p, int kind, int i, int ci = 0)
{
    int tag = 50 + 7 * i, n = 1 + i % 3;
    switch (kind) {
    case 1: return p.irecv(ci, tag, p.fresh(n, p.t_int), n, p.t_int);
    case 2: { int r = p.irecv(ci, tag, p.fresh(n, p.t_int), n, p.t_int); p.send(SM_SEND, ci, tag, p.fresh(n, p.t_int), n, p.t_int); return r; }
    case 3: { int s = p.send(SM_ISEND, ci, tag, p.fresh(n, p.t_int), n, p.t_int); p.recv(ci, tag, p.fresh(n, p.t_int), n, p.t_int); return s; }
    case 4: return p.send(SM_ISEND, ci, tag, p.fresh(n, p.t_int), n, p.t_int);
    case 5: return p.irecv(ci, tag, p.fresh(n, p.t_int), n, p.t_int, MPI_PROC_NULL);
    default: p.reqs.push_back(P2P::R{0, -1}); return (int)p.reqs.size() - 1;
    }
}
static void call(P2P &p, const std::vector<int> &sel, int w, int ign)
{
    if (w < 2) p.any(sel, w == 1, ign);
    else if (w < 4) p.all(sel, w == 3, ign);
    else p.some(sel, w == 5, ign);
}
static void arrays(int maxn, int kinds, int calls, bool both, int stl)
{
    P2P &p = pp; p.begin(pick_api()); p.stl = stl;
    p.pre = choose(P2P::PRES, "what the statuses hold before");
    int n = choose(maxn + 1, "entries");
    std::vector<int> sel;
    for (int i = 0; i < n; i++) sel.push_back(entry(p, choose(kinds, "entry"), i));
    for (int k = 0; k < calls; k++) {
        state(mix(p.fp(), n));
        int w = choose(6, "call");
        call(p, sel, w, both ? choose(2, "ignore statuses") : (k + w) & 1);
    }
    state(mix(p.fp(), n));
    p.drain();
}
static void one() { guarded([] { arrays(tier ? 5 : 4, 6, 1, true, 1); }); }
static void two() { guarded([] { arrays(tier ? 4 : 3, 5, 3, true, 1); }); }
static void three() { guarded([] { arrays(3, 4, tier ? 5 : 4, false, 1); }); }

// requests completed between the calls, in any order
static void progress()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 1;
        std::vector<int> sel;
        for (int i = 0; i < 3; i++) sel.push_back(entry(p, choose(2, "side") ? 4 : 1, i));
        for (int d = 0; d < (tier ? 7 : 6); d++) {
            struct E { int k, x; }; std::vector<E> en;
            for (int i = 0; i < 3; i++) if (p.reqs[sel[i]].op >= 0 && !p.done(p.reqs[sel[i]])) en.push_back({0, i});
            for (int w = 0; w < 6; w += 2) en.push_back({1, w});
            if (p.reqs[sel[0]].op >= 0) en.push_back({2, 0});
            E e = en[choose((int)en.size(), "step")];
            if (e.k == 0) {
                Op o = p.ops[p.reqs[sel[e.x]].op];
                if (o.send) p.recv(0, o.tag, p.fresh(o.n, p.t_int), o.n, p.t_int); else p.send(SM_SEND, 0, o.tag, p.fresh(o.n, p.t_int), o.n, p.t_int);
            } else if (e.k == 1) call(p, sel, e.x, d & 1);
            else p.request_free(sel[0]);
            state(p.fp());
        }
        p.drain();
    });
}
// long arrays: a pattern of states repeated, then calls
static void longer()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 1;
        static const int Ns[] = {7, 13, 20};
        int n = Ns[choose(3, "entries")];
        int a = choose(5, "pattern"), b = choose(5, "pattern"), c = choose(5, "pattern");
        int first = choose(5, "first entry"), last = choose(5, "last entry");
        std::vector<int> sel;
        for (int i = 0; i < n; i++) sel.push_back(entry(p, i == 0 ? first : i == n - 1 ? last : i % 3 == 0 ? a : i % 3 == 1 ? b : c, i));
        int w = choose(6, "call"), ign = choose(2, "ignore statuses");
        call(p, sel, w, ign);
        call(p, sel, choose(3, "second call") * 2, !ign);
        state(mix(p.fp(), n));
        p.drain();
    });
}
// hundreds of entries: one odd entry at a boundary
static void crowd()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api());
#ifdef C06
        p.stl = 2;
#else
        p.stl = 1;
#endif
        static const std::vector<int> N = {33, 65, 129, 255, 256, 257, 300}, NT = {33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1025, 1299};
        int n = pick(tier ? NT : N, "entries"), a = choose(5, "entries"), odd = choose(5, "one odd entry"), at = choose(5, "where");
        at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? std::min(255, n - 1) : at == 3 ? n - 2 : n - 1;
        if (odd == a && at) throw Skip();
        p.memcheck = false;
        std::vector<int> sel;
        for (int i = 0; i < n; i++) sel.push_back(entry(p, i == at ? odd : a, i));
        int w = choose(6, "call"), ign = choose(2, "ignore statuses");
        p.memcheck = true;
        call(p, sel, w, ign);
        call(p, sel, choose(3, "second call") * 2, !ign);
        state(mix(p.fp(), n));
        p.memcheck = false;
        p.stl = 0; p.drain();
        um.check("the end");
    });
}
// tens of thousands of entries, all in one state but one
static void aged()
{
    guarded([] { aged_twice([](P2P &p, int late) {
        for (int n = 1; n <= 2; n++) for (int a = 0; a < (n == 1 ? 1 : 6); a++) for (int b = 0; b < 6; b++) for (int w = 0; w < 6; w++) for (int v = 0; v < 2; v++) {
            static std::vector<int> sel; sel.clear(); p.forget();
            if (n == 2) sel.push_back(entry(p, a, 0));
            sel.push_back(entry(p, b, 1));
            for (int k = 0; k < 2; k++) {
                int c = k ? (w + 1 + v * 2) % 6 : w, active = 0, done = 0;
                for (int x : sel) if (p.reqs[x].op >= 0) { active++; done += p.ops[p.reqs[x].op].done; }
                if (c == 3 ? done < active : c & 1 && active && !done) c--;     // it would end the process
                call(p, sel, c, (late + k + v) & 1);
            }
            p.drain();
        }
    }, 1); });
}
static void vast()
{
    static const int N[] = {4097, 32769, 65537, 70001, 1301, 2048, 4096, 32768, 65536, 131073};
    int n = N[choose(tier ? 10 : 4, "entries")], pat = choose(6, "states (all complete, all but one complete, one complete and all others null, one pending and all others null, one complete and all others pending, all null)");
    int at = choose(4, "where"), w = choose(6, "call"), ign = choose(2, "ignore statuses");
    if (at && (pat == 0 || pat == 5)) throw Skip();
    at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 2 : n - 1;
    Api *a = pick_api(); const int W = MPI_COMM_WORLD;
    static const char *const NM[] = {"Testany", "Waitany", "Testall", "Waitall", "Testsome", "Waitsome"}; const char *nm = NM[w];
    ok("Init", [&] { return a->Init(); });
    std::vector<int> h(n + 2, 0x33333333), was, d(n, -1), ix(n + 2, -99); std::vector<MPI_Status> st(n + 2); memset(st.data(), 0x5a, sizeof(MPI_Status) * (n + 2));
    std::vector<char> s(n);      // 0 null, 1 complete, 2 pending
    for (int i = 0; i < n; i++) s[i] = pat == 0 ? 1 : pat == 1 ? (i == at ? 2 : 1) : pat == 2 ? (i == at) : pat == 3 ? (i == at) * 2 : pat == 4 ? (i == at ? 1 : 2) : 0;
    note("%d entries, posted and matched", n);
    ok("posting", [&] {
        int rc = 0, q; MPI_Status t;
        // complete ones are matched at once, in front of the pending ones
        for (int i = 0; i < n && !rc; i++) {
            h[i] = 0;
            if (s[i] == 1) { q = i; rc = a->Isend(&q, 1, MPI_INT, 0, i + 1, W, &h[n]) | a->Irecv(&d[i], 1, MPI_INT, 0, i + 1, W, &h[i]) | a->Wait(&h[n], &t); h[n] = 0x33333333; }
        }
        for (int i = 0; i < n && !rc; i++) if (s[i] == 2) rc = a->Irecv(&d[i], 1, MPI_INT, 0, i + 1, W, &h[i]);
        return rc;
    });
    was = h; bool all = w == 2 || w == 3, any = w < 2, wait = w & 1, pend = pat == 1 || pat == 3 || pat == 4, comp = pat != 3 && pat != 5, act = pat != 5;
    int idx = -77, flag = -77, out = -77; MPI_Status *sp = ign ? MPI_STATUS_IGNORE : st.data();
    auto call = [&] {
        switch (w) {
        case 0: return a->Testany(n, h.data(), &idx, &flag, sp);
        case 1: return a->Waitany(n, h.data(), &idx, sp);
        case 2: return a->Testall(n, h.data(), &flag, ign ? MPI_STATUSES_IGNORE : sp);
        case 3: return a->Waitall(n, h.data(), ign ? MPI_STATUSES_IGNORE : sp);
        case 4: return a->Testsome(n, h.data(), &out, ix.data() + 1, ign ? MPI_STATUSES_IGNORE : sp);
        default: return a->Waitsome(n, h.data(), &out, ix.data() + 1, ign ? MPI_STATUSES_IGNORE : sp);
        }
    };
    note("%s of %d entries, the odd one at %d", nm, n, at);
    if (wait && (all ? pend : act && !comp)) { dies(nm, call); return; }
    ok(nm, call);
    if (h[n] != was[n] || h[n + 1] != was[n + 1] || ix[0] != -99 || ix[n + 1] != -99) fail("%s wrote outside an array", nm);
    auto stat = [&](int i, int k) {
        if (ign) return;
        if (s[i] ? st[k].MPI_TAG != i + 1 || st[k].MPI_SOURCE != 0 : st[k].MPI_TAG != MPI_ANY_TAG || st[k].MPI_SOURCE != MPI_ANY_SOURCE) fail("%s: status %d, of entry %d, has source %d and tag %d", nm, k, i, st[k].MPI_SOURCE, st[k].MPI_TAG);
    };
    int f = a == api_f;
    std::vector<char> told(n, 0); long reported = 0;
    if (any) {
        if (w == 0 && flag != (comp || !act)) fail("%s: flag %d", nm, flag);
        if (comp) { int i = idx - f; if (i < 0 || i >= n || s[i] != 1) fail("%s: index %d is not a completed request", nm, idx); told[i] = 1; reported = 1; stat(i, 0); }
        else { if (idx != MPI_UNDEFINED) fail("%s: index %d, expected MPI_UNDEFINED", nm, idx); if (!act) stat(0, 0); }
    } else if (all) {
        if (w == 2 && flag != !pend) fail("%s: flag %d", nm, flag);
        if (!pend) for (int i = 0; i < n; i++) { told[i] = 1; stat(i, i); }
        reported = pend ? 0 : n;
    } else {
        long want = !act ? MPI_UNDEFINED : pat == 0 ? n : pat == 1 ? n - 1 : pat == 3 ? 0 : 1;
        if (out != want) fail("%s: outcount %d, expected %ld", nm, out, want);
        for (int k = 0; k < out; k++) { int i = ix[k + 1] - f; if (i < 0 || i >= n || s[i] != 1 || told[i]) fail("%s: index %d (entry %d) is not a completed request reported once", nm, ix[k + 1], k); told[i] = 1; stat(i, k); }
        reported = out > 0 ? out : 0;
    }
    for (int i = 0; i < n; i++) {
        if (h[i] != (told[i] ? 0 : was[i])) fail("%s left entry %d, %s, at %d", nm, i, told[i] ? "which it reported" : "which it did not report", h[i]);
        if (d[i] != (s[i] == 1 ? i : -1)) fail("the data of entry %d are %d", i, d[i]);
    }
    bool stray = false; for (long k = ign ? 0 : any ? 1 : reported; k < n + 2; k++) { unsigned char *b = (unsigned char *)&st[k]; for (size_t j = 0; j < sizeof(MPI_Status); j++) stray |= b[j] != 0x5a; }
    if (stray && (ign || (reported && !all))) fail("%s wrote statuses beyond the ones it reports", nm);
    state(mix(mix(n, pat * 8 + w), at * 4 + ign * 2 + f));
}
#ifndef C06
std::vector<Space> mc_spaces()
{
    return {
        {"one", "arrays of 0..4 (thorough 5) entries, each null / pending or complete receive / pending or complete send / completed by PROC_NULL, one call of each of the six kinds, statuses given or ignored", one},
        {"two", "arrays of 0..3 (thorough 4) entries, three calls in a row on the same array", two},
        {"three", "arrays of 0..3 entries, four (thorough five) calls in a row", three},
        {"progress", "three requests, all histories of 6 (thorough 7) steps: a peer call completing one of them, an any/all/some test, Request_free", progress},
        {"longer", "arrays of 7, 13 and 20 entries with every repeated pattern of three states and every first and last state, two calls", longer},
        {"vast", "arrays of 4097..70001 (thorough ten sizes to 131073) entries in one state but for one at four places, one call of each kind, statuses given or ignored", vast},
        {"aged", AGED_TWICE_TEXT "arrays of one and two entries in six states, every call of six, then another of two", aged},
        {"crowd", "arrays of 33..300 (thorough 1299) entries in one of five states but for one at the start, middle, end or a boundary, two calls", crowd},
    };
}
#endif
