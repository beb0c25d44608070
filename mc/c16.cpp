#include "aged.h"
#include "ways.h"
#include "plain.h"
#include <deque>
using namespace mc;
const char *mc_property = "C16";
static std::deque<RType> ts;          // stable addresses; h == 0: freed
static std::vector<int> alive() { std::vector<int> v; for (size_t i = 0; i < ts.size(); i++) if (ts[i].h) v.push_back((int)i); return v; }
static void memory(int m)
{
    static const int F[2] = {0xA5, 0};
    fill = F[m % 2];
    env::reuse = m >= 1;     // 0: fresh memory, released memory poisoned; 1, 2: recycled
}
// layout, bounds and (if committed) a transfer of every live datatype
static void layout(P2P &p, const RType &t, const char *when)
{
    Api *a = p.api;
    check_type(a, t, when);
    if (!t.committed || t.count() == 0) return;
    char *src = room(2, t); long bytes = 2 * t.size(); char *out = um.alloc(bytes); int pos = 0;
    ok("Pack", [&] { return a->Pack(src, 2, t.h, out, (int)bytes, &pos, MPI_COMM_WORLD); });
    if (pos != bytes) fail("%s: packing 2 x %s gives %d bytes, expected %ld", when, t.str().c_str(), pos, bytes);
    char *r = um.ref(out); long ext = t.extent();
    for (int k = 0; k < 2; k++) for (auto &e : t.map) { memcpy(r, um.ref(src) + k * ext + e.disp, e.len); r += e.len; }
    um.check(when);
}
static void make(Api *a, int k, const RType &x, RType &o)
{
    RType I = r_basic(MPI_INT), C = r_basic(MPI_CHAR), UB = r_basic(MPI_UB);
    int bl[3] = {1, 2, 1}; long d[3] = {0, std::max<long>(0, x.upper()) + 8, x.upper() + 50}; const RType *tt[3] = {&x, &C, &UB}; int dd[2] = {3, 0};
    switch (k) {
    case 0: mk_dup(a, o, x); break;
    case 1: mk_struct(a, o, 3, bl, d, tt); break;
    case 2: mk_indexed(a, o, 2, bl, dd, x); break;
    case 3: mk_contig(a, o, 2, x); break;
    case 4: mk_vector(a, o, 2, 1, 3, x); break;
    }
    if (k) o.committed = false;
}
// all histories of constructions, duplications, commits and frees
static void history()
{
    memory(1 + choose(2, "memory"));
    P2P &p = pp; p.begin(pick_api()); Api *a = p.api;
    ts.clear();
    RType B = r_basic(MPI_DOUBLE_INT);
    int depth = tier ? 7 : 6; uint64_t h = 3;
    ts.emplace_back(); make(a, 2, B, ts.back());
    for (int s = 1; s < depth; s++) {
        auto v = alive(); int n = (int)v.size();
        int k = choose(5, "step");
        if (k < 3) {
            int x = choose(n + 1, "of which");
            RType old = x == n ? B : ts[v[x]];
            if (old.count() > 40) throw Skip();
            ts.emplace_back(); make(a, k, old, ts.back()); h = mix(h, k * 8 + x);
        } else {
            if (!n) throw Skip();
            int x = choose(n, "which");
            if (k == 3) { if (ts[v[x]].committed) throw Skip(); mk_commit(a, ts[v[x]]); }
            else mk_free(a, ts[v[x]]);
            h = mix(h, k * 8 + x);
        }
        for (int i : alive()) check_type(a, ts[i], "a datatype after other operations");
    }
    for (int i : alive()) layout(p, ts[i], "a datatype after other operations");
    // the commit state of each, shown by whether it may move data
    auto v = alive();
    if (!v.empty()) {
        RType &t = ts[v[choose((int)v.size(), "moved")]];
        char *s = room(1, t), *r = room(1, t);
        auto f = [&] { return a->Allgather(s, 1, t.h, r, 1, t.h, MPI_COMM_WORLD); };
        if (!t.committed) dies("moving data with an uncommitted datatype", f);
        else if (!overlaps(t, 1)) { ok("Allgather", f); r_copy(um.ref(s), 1, t, um.ref(r), 1, t, true); p.after("Allgather"); }
    }
    state(h);
}
// one original and one duplicate or derived datatype of every layout, freed in either order
static void relatives()
{
    memory(choose(3, "memory"));
    P2P &p = pp; p.begin(pick_api()); Api *a = p.api;
    ts.clear(); ts.resize(5);
    static const int B[] = {MPI_INT, MPI_DOUBLE_INT, MPI_CHAR};
    RType b = r_basic(B[choose(3, "base")]);
    int i = 1 + choose(ZOO - 1, "layout"), k = choose(5, "relative"), c = choose(4, "commits"), order = choose(3, "freed"), again = choose(2, "after");
    zoo(a, i, b, ts[0], c & 1);
    make(a, k, ts[0], ts[1]);
    if (c & 2) mk_commit(a, ts[1]);
    for (int j = 0; j < 2; j++) layout(p, ts[j], "a datatype");
    if (order < 2) {
        mk_free(a, ts[order]);
        layout(p, ts[1 - order], "a relative of a freed datatype");
        // new datatypes in the memory and handles released
        RType q = r_basic(MPI_SHORT);
        for (int j = 2; j < 4; j++) { make(a, again ? 1 : 4, q, ts[j]); layout(p, ts[j], "a new datatype"); }
        layout(p, ts[1 - order], "a relative of a freed datatype");
        make(a, 3, ts[1 - order], ts[4]); layout(p, ts[4], "a datatype made from it");
        mk_free(a, ts[1 - order]);
        for (int j = 2; j < 5; j++) layout(p, ts[j], "a remaining datatype");
    }
    state(mix(i * 8 + k, c * 8 + order * 2 + again));
}
// communication started, its datatypes freed, new datatypes made, then completed
static void inflight_body(int depth, bool small)
{
    memory(choose(3, "memory"));
    P2P &p = pp; p.begin(pick_api()); Api *a = p.api; p.stl = 2;
    ts.clear();
    RType I = r_basic(MPI_INT), D = r_basic(MPI_SHORT);
    int created = 0;
    auto create = [&] { ts.emplace_back(); RType &t = ts.back(); switch (created++ % 3) { case 0: make(a, 4, I, t); break; case 1: make(a, 2, I, t); break; default: make(a, 3, I, t); break; } mk_commit(a, t); };
    create(); if (!small) create();
    uint64_t h = 5;
    for (int s = 0; s < depth; s++) {
        auto v = alive();
        int k = choose(7, "step");
        switch (k) {
        case 0: case 1: case 2: {
            if (v.empty()) throw Skip();
            RType &t = ts[v[choose((int)v.size(), "type")]]; char *b = room(1, t);
            if (k == 0) p.send(SM_ISEND, 0, 5, b, 1, t); else if (k == 1) p.irecv(0, MPI_ANY_TAG, b, 1, t); else { if (p.find_send(0, 5) < 0) throw Skip(); p.recv(0, 5, b, 1, t); }
            break;
        }
        case 3: { if (v.empty()) throw Skip(); int x = choose((int)v.size(), "freed"); RType keep = ts[v[x]]; mk_free(a, ts[v[x]]); break; }
        case 4: create(); break;
        case 5: { int x = -1; for (size_t i = 0; i < p.reqs.size() && x < 0; i++) if (p.reqs[i].op >= 0 && p.done(p.reqs[i])) x = (int)i; if (x < 0) throw Skip(); p.wait(x, p.ops[p.reqs[x].op].t->h == 0); break; }
        case 6: { int x = -1; for (size_t i = 0; i < p.reqs.size() && x < 0; i++) if (p.reqs[i].op >= 0 && !p.done(p.reqs[i])) x = (int)i; if (x < 0) throw Skip(); p.request_free(x); break; }
        }
        for (int i : alive()) check_type(a, ts[i], "a datatype during communication");
        h = mix(h, p.fp() + k); state(mix(p.fp(), alive().size() * 8 + created));
    }
    // complete whatever is pending, with plain integers on the other side
    auto &C = p.comms[0];
    while (!C.sq.empty()) { Op o = p.ops[C.sq[0]]; int n = o.n * (int)o.t->count(); p.recv(0, MPI_ANY_TAG, p.fresh(n, I), n, I); }
    while (!C.rq.empty()) { Op o = p.ops[C.rq[0]]; int n = o.n * (int)o.t->count(); p.send(SM_SEND, 0, 5, p.fresh(n, I), n, I); }
    for (size_t i = 0; i < p.reqs.size(); i++) if (p.reqs[i].op >= 0) p.wait((int)i, p.ops[p.reqs[i].op].t->h == 0);
    for (int i : alive()) layout(p, ts[i], "a datatype after the communication");
    // and what was freed stays freed once: all objects can be released
    for (int i : alive()) mk_free(a, ts[i]);
    env::check_heap("end");
}
static void inflight() { guarded([] { inflight_body(tier ? 7 : 6, true); }); }
static void inflight2() { guarded([] { inflight_body(tier ? 6 : 5, false); }); }
// a freed datatype used by several requests, in every layout; also released with its communicator or at finalize
static void shared()
{
    guarded([] {
        memory(choose(3, "memory"));
        P2P &p = pp; p.begin(pick_api()); Api *a = p.api; p.stl = 2;
        ts.clear(); ts.resize(3);
        RType b = r_basic(MPI_INT);
        int i = 1 + choose(ZOO - 1, "layout"), n = 1 + choose(3, "requests"), side = choose(3, "side"), how = choose(5, "ending"), when = choose(3, "freed after"), cnt = 1 + choose(2, "count");
        zoo(a, i, b, ts[0], true); RType t0 = ts[0];
        if (overlaps(ts[0], cnt)) throw Skip();
        int ci = 0; if (how >= 2) ci = p.comm_new(0, 0);
        for (int k = 0; k < n; k++) {
            bool send = side == 0 || (side == 2 && k % 2 == 0);
            char *buf = room(cnt, ts[0]);
            if (send) p.send(SM_ISEND, ci, 5, buf, cnt, ts[0]); else p.irecv(ci, MPI_ANY_TAG, buf, cnt, ts[0]);
            if (k == when) { mk_free(a, ts[0]); break; }
        }
        if (ts[0].h) mk_free(a, ts[0]);
        // something else in the memory released
        make(a, 1, r_basic(MPI_SHORT), ts[1]); make(a, 4, r_basic(MPI_SHORT), ts[2]);
        layout(p, ts[1], "a new datatype");
        int per = (int)ts[0].count() * cnt;
        if (how == 0 || how == 2) {
            auto &C = p.comms[ci];
            while (!C.sq.empty()) p.recv(ci, MPI_ANY_TAG, p.fresh(per, b), per, b);
            while (!p.comms[ci].rq.empty()) p.send(SM_SEND, ci, 5, p.fresh(per, b), per, b);
            for (size_t k = 0; k < p.reqs.size(); k++) if (p.reqs[k].op >= 0) p.wait((int)k, 1);
        } else if (how == 1) { ok("Finalize", [&] { return a->Finalize(); }); p.after("Finalize"); env::check_heap("end"); return; }
        else if (how == 3) { for (size_t k = 0; k < p.reqs.size(); k++) if (p.reqs[k].op >= 0) p.request_free((int)k); p.comm_free(ci); }
        else p.comm_free(ci);
        layout(p, ts[1], "a new datatype"); layout(p, ts[2], "a new datatype");
        make(a, 3, b, ts[0]); layout(p, ts[0], "a datatype made later"); layout(p, ts[1], "a new datatype");
        env::check_heap("end");
        state(mix(i * 4 + n, side * 64 + how * 8 + when));
    });
}
// constructor arguments gone right after the call: the arrays lie in memory that is made inaccessible
#include <sys/mman.h>
static void arguments()
{
    static char *pg; if (!pg) pg = (char *)pages(3 * 4096);
    mprotect(pg, 3 * 4096, PROT_READ | PROT_WRITE);
    P2P &p = pp; p.begin(pick_api()); Api *a = p.api;
    int *bl = (int *)pg, *di = (int *)(pg + 4096), *ty = (int *)(pg + 8192), n = 1 + choose(tier ? 4 : 3, "count"), k = choose(4, "constructor");
    long *dl = (long *)(pg + 4096);
    RType I = r_basic(MPI_INT), t; const RType *o[4] = {&I, &I, &I, &I};
    int rbl[4], rdi[4]; long rdl[4];
    for (int i = 0; i < n; i++) { rbl[i] = choose(3, "blocklength"); rdi[i] = choose(3, "displacement") * 3 - 2; rdl[i] = rdi[i] * 5L; }
    for (int i = 0; i < n; i++) { bl[i] = rbl[i]; if (k == 0 || k == 2) di[i] = rdi[i]; else dl[i] = rdl[i]; ty[i] = MPI_INT; }
    int h = -9;
    ok("constructor", [&] {
        switch (k) { case 0: return a->Type_indexed(n, bl, di, MPI_INT, &h); case 1: return a->Type_hindexed(n, bl, dl, MPI_INT, &h); case 2: return a->Type_create_indexed_block(n, 2, di, MPI_INT, &h); default: return a->Type_struct(n, bl, dl, ty, &h); }
    });
    mprotect(pg, 3 * 4096, PROT_NONE);
    switch (k) { case 0: r_indexed(t, n, rbl, rdi, I); break; case 1: r_hindexed(t, n, rbl, rdl, I); break; case 2: r_iblock(t, n, 2, rdi, I); break; default: r_struct(t, n, rbl, rdl, o); }
    t.h = h; mk_commit(a, t); layout(p, t, "a datatype whose arguments are gone");
    RType u; mk_dup(a, u, t); mk_free(a, t); layout(p, u, "its duplicate"); mk_contig(a, t, 2, u); check_type(a, t, "a datatype made from it");
    mk_free(a, u); mk_free(a, t);
    mprotect(pg, 3 * 4096, PROT_READ | PROT_WRITE);
    uint64_t hh = k; for (int i = 0; i < n; i++) hh = mix(hh, rbl[i] * 16 + rdi[i]); state(hh);
}
// every constructor with no, one and two blocks and items: what is built is a datatype of its own
static void degenerate() { guarded([] { memory(choose(3, "memory")); P2P &p = pp; p.begin(pick_api()); plain_space(p, true); }); }
// hundreds of datatypes, freed in patterns, with new ones in between
static void many()
{
    memory(choose(3, "memory"));
    P2P &p = pp; p.begin(pick_api()); Api *a = p.api;
    static const int N[] = {3, 255, 300, 600};
    int n = N[choose(4, "types")], step = 2 + choose(3, "pattern"), kind = choose(5, "kind"), rounds = 1 + choose(2, "rounds");
    RType I = r_basic(MPI_INT); ts.clear();
    for (int i = 0; i < n; i++) { ts.emplace_back(); if (i < 2 || kind == 0) mk_contig(a, ts.back(), i % 7, I); else make(a, kind, ts[i % 2], ts.back()); }
    for (int r = 0; r < rounds; r++) {
        for (int i = r; i < n; i += step) if (ts[i].h) mk_free(a, ts[i]);
        for (int i = 0; i < n; i++) if (ts[i].h) check_type(a, ts[i], "a surviving datatype");
        for (int i = 0; i < n / 4; i++) { ts.emplace_back(); mk_vector(a, ts.back(), 2, 1, i % 5, I); }
        for (size_t i = 0; i < ts.size(); i++) if (ts[i].h) check_type(a, ts[i], "a datatype");
    }
    state(mix(n * 8 + step, kind * 2 + rounds));
}
// relatives with thousands of other operations between their construction, the release of one, and the use of the other
static void aged()
{
    int k = choose(AGE_ALL, "earlier operations"), g = choose(ages(), "how many"), i = choose(4, "layout"), rel = choose(5, "relative"), order = choose(2, "freed"); static const int L[] = {2, 9, 16, 20};
    P2P &p = pp; Api *a = tier ? pick_api() : (k + g) & 1 ? api_f : api_c; p.begin(a); p.heapcheck = false;
    ts.clear(); ts.resize(4); RType b = r_basic(MPI_INT);
    int other = -7; ok("Comm_dup", [&] { return a->Comm_dup(MPI_COMM_WORLD, &other); });
    zoo(a, L[i], b, ts[0]); age(p, k, AGE[g][0], other);
    make(a, rel, ts[0], ts[1]); mk_commit(a, ts[1]); zoo(a, L[i], b, ts[2]);
    mk_free(a, ts[order]); age(p, k, AGE[g][1], other); mk_free(a, ts[2]); make(a, 2, b, ts[3]); mk_commit(a, ts[3]);
    for (int j : {1 - order, 3}) layout(p, ts[j], "a datatype after thousands of operations");
    RType more[8]; for (int j = 0; j < 8; j++) make(a, j ? rel : 2, j ? more[j - 1] : b, more[j]);
    for (int j = 7; j >= 0; j--) mk_free(a, more[j]);
    make(a, rel, ts[3], ts[order]); mk_free(a, ts[3]); layout(p, ts[order], "a datatype whose relative was freed");
    state(mix(k * 16 + g, i * 16 + rel * 2 + order));
}
std::vector<Space> mc_spaces()
{
    return {
        {"history", "all histories of 6 (thorough 7) duplications, constructions, commits and frees with recycled memory of two kinds; every live datatype compared after each step, the commit state of each shown at the end", history},
        {"relatives", "29 layouts over three bases, each with a duplicate or one of four derived datatypes, committed or not, freed in either order, new datatypes put in the released memory", relatives},
        {"inflight", "all histories of 6 (thorough 7) sends, receives, datatype frees and constructions, completions and request frees with freed datatypes still in use", inflight},
        {"inflight2", "the same starting with two datatypes, histories of 5 (thorough 6)", inflight2},
        {"shared", "a freed datatype of each layout in use by 1..3 requests, completed or dropped with request, communicator or finalize", shared},
        {"arguments", "the four array constructors with argument arrays made inaccessible right after the call", arguments},
        {"degenerate", "eight constructors with 0..2 blocks of 0..2 items, with or without gaps, over three inner datatypes and three bases; either committed in any order or not, either freed; the other keeps its layout and commit state and is moved", degenerate},
        {"aged", "200..66000 (thorough 131071) operations (8, thorough 11 numbers) of sixteen kinds between a datatype of four layouts and its duplicate or derived datatype, and between the release of either and the use of the other", aged},
        {"many", "3 to 600 datatypes freed in patterns with new ones in between", many},
    };
}
