// The list library against sequences kept by the model.
#include "mc.h"
#include <string.h>
#include <deque>
#include <stdio.h>
#include <unistd.h>
#include <sys/mman.h>
using namespace mc;
const char *mc_property = "C29";
// what the rest of the library does not use may be absent
#pragma weak AP_listitem_verify
#pragma weak AP_list_print
#pragma weak AP_list_revprint
#pragma weak AP_list_braindead_next
#pragma weak AP_list_duplicate
#pragma weak AP_list_apply
#pragma weak AP_list_tail
#pragma weak AP_list_prepend
#pragma weak AP_list_delete
extern "C" {
typedef void *L; typedef void *I;
int AP_listitem_verify(void);
I AP_listitem_prev(I); I AP_listitem_next(I); void *AP_listitem_data(I);
L AP_list_new(void); void AP_list_free(L); int AP_list_size(L);
I AP_list_prepend(L, void *); I AP_list_append(L, void *);
int AP_list_delete(L, void *); void AP_list_delete_item(L, I);
I AP_list_head_item(L); int AP_list_head(L, void **); int AP_list_tail(L, void **);
void AP_list_print(char *, L); void AP_list_revprint(char *, L);
I AP_list_search(L, void *); int AP_list_next(L, void **, void **); void *AP_list_braindead_next(L, void **); L AP_list_duplicate(L);
I AP_list_search_func(L, int (*)(void *, void *), void *); int AP_list_apply(L, int (*)(void *, void *), void *);
}
struct Item { I i; long d; };
struct Cursor { int list = -1; I at = nullptr; };
struct Model {
    struct List { L h; std::vector<Item> v; bool live; };
    std::vector<List> ls; Cursor cur; int lists = 0;
    void reset() { ls.clear(); cur = Cursor(); lists = 0; }
} M;
static const long D[] = {0, 0x500000001L, 0x900000001L, -1, 0x7fffffffffffL};
static int n_data = 3;
template <class F> static void go(const char *what, F f) { ok(what, [&] { f(); return 0; }); }
static long called[512]; static int n_called; static void *fixed_seen;
static int geq(void *a, void *b) { return (long)a >= (long)b ? 5 : 0; }
static int odd_answer(void *a, void *b) { (void)b; return (long)a == D[1] ? -3 : 0; }
static int tally(void *a, void *b) { if (n_called < 512) called[n_called++] = (long)a; fixed_seen = b; return (int)((long)a % 7) + 2; }

// everything that can be asked about list k
static void look(int k, const char *after)
{
    Model::List &m = M.ls[k]; L l = m.h; int n = (int)m.v.size(), cap = n + 3;
    std::vector<I> fw(cap + 1), bw(cap + 1); std::vector<void *> fd(cap + 1), nx(cap + 1), nt(cap + 1), bd(cap + 1);
    int size = -1, nf = 0, nb = 0, nn = 0, hr = -1, tr = -1, end = -1, more = -1; void *hd = &size, *td = &size, *last = nullptr, *stay = nullptr;
    go("reading a list", [&] {
        size = AP_list_size(l); hr = AP_list_head(l, &hd); if (AP_list_tail) tr = AP_list_tail(l, &td); else { tr = n > 0; if (n) td = (void *)m.v[n - 1].d; }
        for (I i = AP_list_head_item(l); i && nf < cap; i = AP_listitem_next(i)) { fw[nf] = i; fd[nf++] = AP_listitem_data(i); }
        if (nf) for (I i = fw[nf - 1]; i && nb < cap; i = AP_listitem_prev(i)) bw[nb++] = i;
        void *t = nullptr, *d = nullptr; while (nn < cap && AP_list_next(l, &d, &t)) { nx[nn] = d; nt[nn++] = t; }
        last = t; end = AP_list_next(l, &d, &t); stay = t;
        t = nullptr; for (int i = 0; i < n && i < cap; i++) bd[i] = AP_list_braindead_next ? AP_list_braindead_next(l, &t) : nx[i];
        more = AP_list_braindead_next && AP_list_braindead_next(l, &t) != nullptr;
    });
    if (size != n) fail("after %s: AP_list_size gives %d, the list has %d items", after, size, n);
    if (nf != n) fail("after %s: %s%d items are reached from the head, expected %d", after, nf == cap ? "at least " : "", nf, n);
    if (nb != n) fail("after %s: %s%d items are reached backwards from the last one, expected %d", after, nb == cap ? "at least " : "", nb, n);
    if (nn != n) fail("after %s: AP_list_next visits %s%d items, expected %d", after, nn == cap ? "at least " : "", nn, n);
    if (n && end) fail("after %s: AP_list_next goes on behind the end", after);
    if (n && last != stay) fail("after %s: AP_list_next at the end moves the traversal", after);
    if (more) fail("after %s: AP_list_braindead_next goes on behind the end", after);
    if ((hr != 0) != (n > 0) || (tr != 0) != (n > 0)) fail("after %s: AP_list_head returns %d and AP_list_tail %d for %d items", after, hr, tr, n);
    if (n && ((long)hd != m.v[0].d || (long)td != m.v[n - 1].d)) fail("after %s: head %ld and tail %ld, expected %ld and %ld", after, (long)hd, (long)td, m.v[0].d, m.v[n - 1].d);
    if (!n && (hd != &size || td != &size)) fail("after %s: AP_list_head or AP_list_tail of an empty list wrote its result", after);
    for (int i = 0; i < n; i++) {
        if (!m.v[i].i) m.v[i].i = fw[i];
        if (fw[i] != m.v[i].i) fail("after %s: item %d of the list is another one", after, i);
        if (bw[n - 1 - i] != m.v[i].i) fail("after %s: going backwards, item %d is another one", after, i);
        if ((long)fd[i] != m.v[i].d) fail("after %s: item %d holds %ld, expected %ld", after, i, (long)fd[i], m.v[i].d);
        if ((long)nx[i] != m.v[i].d) fail("after %s: AP_list_next gives %ld for item %d, expected %ld", after, (long)nx[i], i, m.v[i].d);
        if ((long)bd[i] != m.v[i].d) fail("after %s: AP_list_braindead_next gives %ld for item %d, expected %ld", after, (long)bd[i], i, m.v[i].d);
    }
    for (int d = 0; d < n_data + 1; d++) {
        long x = d == n_data ? 77 : D[d]; I s, g, o; go("AP_list_search", [&] { s = AP_list_search(l, (void *)x); g = AP_list_search_func(l, geq, (void *)x); o = AP_list_search_func(l, odd_answer, (void *)x); });
        I ws = nullptr, wg = nullptr, wo = nullptr;
        for (int i = n - 1; i >= 0; i--) { if (m.v[i].d == x) ws = m.v[i].i; if (m.v[i].d >= x) wg = m.v[i].i; if (m.v[i].d == D[1]) wo = m.v[i].i; }
        if (s != ws) fail("after %s: AP_list_search of %ld %s", after, x, !s ? "does not find it" : !ws ? "finds an item that does not hold it" : "finds another item than the first one");
        if (g != wg || o != wo) fail("after %s: AP_list_search_func does not find the first item the function accepts", after);
    }
    if (!AP_list_apply) return;
    n_called = 0; fixed_seen = nullptr; int total = -1, want = 0; go("AP_list_apply", [&] { total = AP_list_apply(l, tally, &M); });
    for (int i = 0; i < n; i++) { want += (int)(m.v[i].d % 7) + 2; if (i < n_called && called[i] != m.v[i].d) fail("after %s: AP_list_apply passes %ld for item %d, expected %ld", after, called[i], i, m.v[i].d); }
    if (n_called != n || total != want || (n && fixed_seen != &M)) fail("after %s: AP_list_apply makes %d calls for %d items and returns %d, expected %d", after, n_called, n, total, want);
}
static void look_all(const char *after)
{
    bool out = false; for (auto &m : M.ls) out |= m.live;
    int v = -1; go("AP_listitem_verify", [&] { v = AP_listitem_verify ? AP_listitem_verify() : out; });
    if ((v != 0) != out) fail("after %s: AP_listitem_verify returns %d although lists are %s", after, v, out ? "left" : "all freed");
    for (int k = 0; k < (int)M.ls.size(); k++) if (M.ls[k].live) look(k, after);
}
static void distinct(I i, const char *what)
{
    if (!i) fail("%s returns no item", what);
    for (auto &m : M.ls) if (m.live) for (auto &x : m.v) if (x.i == i) fail("%s returns an item that is in use", what);
}
static void fresh_list(L h, const char *what) { if (!h) fail("%s returns no list", what); for (auto &m : M.ls) if (m.live && m.h == h) fail("%s returns a list that is in use", what); }
static void op_new() { L h = nullptr; note("list %d = AP_list_new()", (int)M.ls.size()); go("AP_list_new", [&] { h = AP_list_new(); }); fresh_list(h, "AP_list_new"); M.ls.push_back({h, {}, true}); }
static void op_add(int k, bool front, long d)
{
    if (front && !AP_list_prepend) throw Skip();
    I i = nullptr; note("%s(list %d, %ld)", front ? "AP_list_prepend" : "AP_list_append", k, d);
    go(front ? "AP_list_prepend" : "AP_list_append", [&] { i = front ? AP_list_prepend(M.ls[k].h, (void *)d) : AP_list_append(M.ls[k].h, (void *)d); });
    distinct(i, front ? "AP_list_prepend" : "AP_list_append");
    auto &v = M.ls[k].v; v.insert(front ? v.begin() : v.end(), Item{i, d});
}
static void op_delete(int k, long d)
{
    if (!AP_list_delete) throw Skip();
    int r = -1; note("AP_list_delete(list %d, %ld)", k, d); auto &v = M.ls[k].v; int at = -1;
    for (int i = 0; i < (int)v.size() && at < 0; i++) if (v[i].d == d) at = i;
    if (at >= 0 && M.cur.at == v[at].i) throw Skip();
    go("AP_list_delete", [&] { r = AP_list_delete(M.ls[k].h, (void *)d); });
    if ((r != 0) != (at >= 0)) fail("AP_list_delete of %ld returns %d, the list %s it", d, r, at < 0 ? "does not hold" : "holds");
    if (at >= 0) v.erase(v.begin() + at);
}
static void op_delete_item(int k, int at)
{
    auto &v = M.ls[k].v; if (M.cur.at == v[at].i) throw Skip();
    note("AP_list_delete_item(list %d, item %d)", k, at); I i = v[at].i;
    go("AP_list_delete_item", [&] { AP_list_delete_item(M.ls[k].h, i); });
    v.erase(v.begin() + at);
}
static void op_duplicate(int k)
{
    if (!AP_list_duplicate) throw Skip();
    L h = nullptr; note("list %d = AP_list_duplicate(list %d)", (int)M.ls.size(), k);
    go("AP_list_duplicate", [&] { h = AP_list_duplicate(M.ls[k].h); });
    fresh_list(h, "AP_list_duplicate");
    Model::List n{h, M.ls[k].v, true}; for (auto &x : n.v) x.i = nullptr;
    M.ls.push_back(n); look((int)M.ls.size() - 1, "AP_list_duplicate");
    auto &a = M.ls.back().v; for (int j = 0; j + 1 < (int)M.ls.size(); j++) if (M.ls[j].live) for (auto &x : M.ls[j].v) for (auto &y : a) if (x.i == y.i) fail("AP_list_duplicate shares an item with another list");
}
static void op_free(int k)
{
    note("AP_list_free(list %d)", k); if (M.cur.list == k) M.cur = Cursor();
    go("AP_list_free", [&] { AP_list_free(M.ls[k].h); });
    M.ls[k].live = false; M.ls[k].v.clear();
}
// a traversal under way while the list changes: it goes on with the item that now follows
static void op_step(int k)
{
    if (M.cur.list != k) { M.cur.list = k; M.cur.at = nullptr; }
    void *t = M.cur.at, *d = &t; int r = -1; note("AP_list_next(list %d) %s", k, t ? "going on" : "from the start");
    go("AP_list_next", [&] { r = AP_list_next(M.ls[k].h, &d, &t); });
    auto &v = M.ls[k].v; int at = 0; if (M.cur.at) while (v[at].i != M.cur.at) at++; else at = -1;
    if (at + 1 == (int)v.size()) { if (r) fail("AP_list_next goes on behind the end"); if (t != M.cur.at || d != &t) fail("AP_list_next at the end changes its arguments"); }
    else { if (!r || (long)d != v[at + 1].d) fail("AP_list_next gives %d, %ld, expected item %d, %ld", r, (long)d, at + 1, v[at + 1].d); M.cur.at = t; if (t != v[at + 1].i) fail("AP_list_next goes to another item"); }
}
static uint64_t fp() { uint64_t h = 1; for (auto &m : M.ls) { h = mix(h, m.live); for (auto &x : m.v) h = mix(h, x.d * 2 + (x.i == M.cur.at)); } return mix(h, M.cur.list); }
static void some_op(int maxlists)
{
    struct Op { int what, k; long x; }; std::vector<Op> en;
    int alive = 0; for (auto &m : M.ls) alive += m.live;
    if (alive < maxlists) en.push_back({0, 0, 0});
    for (int k = 0; k < (int)M.ls.size(); k++) if (M.ls[k].live) {
        for (int d = 0; d < n_data; d++) { en.push_back({1, k, D[d]}); en.push_back({2, k, D[d]}); en.push_back({3, k, D[d]}); }
        for (int i = 0; i < (int)M.ls[k].v.size(); i++) en.push_back({4, k, i});
        if (alive < maxlists) en.push_back({5, k, 0});
        en.push_back({6, k, 0}); en.push_back({7, k, 0});
    }
    Op o = en[choose((int)en.size(), "operation")];
    switch (o.what) {
    case 0: op_new(); break;
    case 1: op_add(o.k, false, o.x); break;
    case 2: op_add(o.k, true, o.x); break;
    case 3: op_delete(o.k, o.x); break;
    case 4: op_delete_item(o.k, (int)o.x); break;
    case 5: op_duplicate(o.k); break;
    case 6: op_free(o.k); break;
    case 7: op_step(o.k); break;
    }
    look_all("this call"); state(fp());
}
static void finish() { for (int k = 0; k < (int)M.ls.size(); k++) if (M.ls[k].live) { op_free(k); } look_all("freeing all lists"); env::check_heap("at the end"); }
static void histories()
{
    M.reset(); n_data = 2; op_new(); int depth = tier ? 7 : 6;
    for (int i = 0; i < depth; i++) some_op(2);
    finish();
}
static void several()
{
    M.reset(); n_data = 1; int depth = tier ? 8 : 7;
    for (int i = 0; i < depth; i++) some_op(3);
    finish();
}
// every pattern of data, every item deleted, every order
static void patterns()
{
    M.reset(); n_data = 3; op_new(); int n = choose(tier ? 7 : 6, "items");
    for (int i = 0; i < n; i++) op_add(0, choose(2, "front"), D[choose(3, "data")]);
    look_all("building the list");
    if (choose(2, "duplicate")) op_duplicate(0);
    while (!M.ls[0].v.empty()) { int c = choose(tier ? 4 : 3, "delete"), s = (int)M.ls[0].v.size(); int at = c == 0 ? 0 : c == 1 ? s - 1 : c == 2 ? s / 2 : 1; if (c == 3 && s < 3) throw Skip(); op_delete_item(0, at); look_all("deleting an item"); state(fp()); }
    op_add(0, false, 2); op_add(0, true, 1); look_all("filling it again"); finish();
}
// the debugging output
static void printed()
{
    if (!AP_list_print || !AP_list_revprint) throw Skip();
    M.reset(); n_data = 5; op_new(); int n = choose(5, "items"); std::string want, rev;
    for (int i = 0; i < n; i++) op_add(0, choose(2, "front"), choose(3, "data"));
    if (n && choose(2, "delete one")) op_delete_item(0, n / 2);
    auto &v = M.ls[0].v; char head[64]; snprintf(head, sizeof head, "text (%d items): ", (int)v.size());
    for (auto &x : v) { want += std::to_string((int)x.d) + " "; rev = std::to_string((int)x.d) + " " + rev; }
    for (int back = 0; back < 2; back++) {
        static char got[4096]; static int fd = memfd_create("out", 0); if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET);
        fflush(stdout); int old = dup(1); dup2(fd, 1);
        Term t = run([&] { if (back) AP_list_revprint((char *)"text", M.ls[0].h); else AP_list_print((char *)"text", M.ls[0].h); });
        fflush(stdout); dup2(old, 1); close(old);
        if (t.kind != RETURNED) fail("AP_list_print %s", kindname(t.kind));
        ssize_t l = pread(fd, got, sizeof got - 1, 0); got[l < 0 ? 0 : l] = 0;
        std::string w = head + (back ? rev : want) + "\n";
        if (w != got) fail("%s prints \"%s\", expected \"%s\"", back ? "AP_list_revprint" : "AP_list_print", got, w.c_str());
        look_all("printing");
    }
    state(fp()); finish();
}
// long lists
static void longs()
{
    M.reset(); n_data = 3; op_new();
    static const int N[] = {15, 16, 17, 64, 127, 128, 255, 256, 257, 300}; int n = N[choose(tier ? 10 : 8, "items")], how = choose(3, "built"), del = choose(6, "deleted"), dup = choose(2, "duplicate");
    for (int i = 0; i < n; i++) op_add(0, how == 2 ? i & 1 : how, i % 5 == 0 ? 0 : 1000 + i);
    look_all("building the list"); if (dup) { op_duplicate(0); look_all("duplicating it"); }
    for (int r = 0; r < n - 2; r++) { auto &v = M.ls[0].v; int s = (int)v.size();
        if (del == 0) op_delete_item(0, 0); else if (del == 1) op_delete_item(0, s - 1); else if (del == 2) op_delete_item(0, s / 2); else if (del == 3) op_delete(0, v[s - 1].d); else if (del == 4) op_delete_item(0, (r * 7) % s); else op_delete(0, 0);
        if (r % 16 == 0) look_all("deleting"); }
    look_all("deleting nearly all"); if (dup) op_add(1, false, 3); op_add(0, true, 4); look_all("adding again"); state(mix(n, how * 8 + del)); finish();
}
// lists of the user next to a library in use
static void beside()
{
    M.reset(); n_data = 2; int v = -1;
    ok("MPI_Init", [&] { return MPI_Init(nullptr, nullptr); });
    L a = nullptr; go("AP_list_new", [&] { a = AP_list_new(); }); M.ls.push_back({a, {}, true});
    int q[8], nq = 0, x[8], y[8]; MPI_Status st;
    for (int i = 0; i < (tier ? 7 : 6); i++) {
        switch (choose(6, "operation")) {
        case 0: op_add(0, false, 1); break;
        case 1: op_add(0, true, 0); break;
        case 2: op_delete(0, 1); break;
        case 3: x[nq] = 40 + nq; ok("MPI_Isend", [&] { return MPI_Isend(&x[nq], 1, MPI_INT, 0, nq, MPI_COMM_WORLD, &q[nq]); }); nq++; break;
        case 4: { if (!nq) throw Skip(); nq--; y[nq] = -1; ok("MPI_Recv", [&] { return MPI_Recv(&y[nq], 1, MPI_INT, 0, nq, MPI_COMM_WORLD, &st); }); if (y[nq] != 40 + nq) fail("a message was received wrongly"); ok("MPI_Wait", [&] { return MPI_Wait(&q[nq], &st); }); } break;
        case 5: { int c = 0; ok("MPI_Comm_dup", [&] { return MPI_Comm_dup(MPI_COMM_WORLD, &c); }); ok("MPI_Comm_free", [&] { return MPI_Comm_free(&c); }); } break;
        }
        look(0, "this call"); state(mix(fp(), nq));
    }
    bool left = choose(2, "messages left pending");
    while (nq && !left) { nq--; ok("MPI_Recv", [&] { return MPI_Recv(&y[nq], 1, MPI_INT, 0, nq, MPI_COMM_WORLD, &st); }); ok("MPI_Wait", [&] { return MPI_Wait(&q[nq], &st); }); look(0, "MPI_Recv"); }
    bool first = choose(2, "list freed before MPI_Finalize"); if (first) op_free(0);
    ok("MPI_Finalize", [&] { return MPI_Finalize(); });
    if (!first) { look(0, "MPI_Finalize"); go("AP_listitem_verify", [&] { v = !AP_listitem_verify || AP_listitem_verify(); }); if (!v) fail("AP_listitem_verify does not report the list that is left"); op_free(0); }
    go("AP_listitem_verify", [&] { v = AP_listitem_verify && AP_listitem_verify(); });
    if (v) fail("AP_listitem_verify reports lists or items left after MPI_Finalize");
}
// memory runs out
static void nomem()
{
    M.reset(); n_data = 2; op_new(); int n = choose(4, "items"); for (int i = 0; i < n; i++) op_add(0, i & 1, i & 1);
    env::fault_at = env::alloc_count + choose(6, "the allocation that fails"); env::fault_sticky = choose(2, "all later ones fail as well"); env::faulting = true;
    try { switch (choose(4, "operation")) { case 0: op_new(); break; case 1: op_add(0, false, 1); break; case 2: op_add(0, true, 1); break; case 3: op_duplicate(0); break; } }
    catch (FaultDeath &) { env::faulting = false; env::fault_at = -1; state(mix(n, 7)); return; }
    env::faulting = false; env::fault_at = -1; look_all("this call"); state(fp()); finish();
}
std::vector<Space> mc_spaces()
{
    return {
        {"histories", "every history of up to 6 (thorough 7) operations over at most two lists: new, append, prepend, delete by data or item, duplicate, free, a traversal in progress; data of two values (one of them NULL); every list examined completely after every operation", histories},
        {"several", "every history of up to 7 (thorough 8) operations over at most three lists, data all equal", several},
        {"patterns", "lists of 0..5 (thorough 6) items of three values added at either end, emptied by deleting items at the front, back or middle, next to a duplicate or not, filled again", patterns},
        {"printed", "AP_list_print and AP_list_revprint of all lists of 0..4 items", printed},
        {"longs", "lists of 15..256 (thorough 300) items built in three ways, six orders of deleting, with or without a duplicate", longs},
        {"beside", "histories of 6 (thorough 7) operations on a list of the user and on the library (sends, receives, communicators), with messages left pending or not, finalized before or after the list is freed: nothing is left at the end", beside},
        {"nomem", "memory running out at any allocation of a list operation", nomem},
    };
}
