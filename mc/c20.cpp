#include "p2p.h"
#include "aged.h"
using namespace mc;
const char *mc_property = "C20";
static P2P &p = pp;
// groups of the model: the null handle, the empty group, the group of the process
enum { NUL, EMPTY, ONE };
struct G { int h, set; };
static std::vector<G> gs;
static int *list_end(const std::vector<int> &v)      // a list that ends at inaccessible memory
{
    static char *pg; if (!pg) pg = (char *)pages(1 << 19);
    int *q = (int *)(pg + (1 << 19)) - v.size();
    for (size_t i = 0; i < v.size(); i++) q[i] = v[i];
    return q;
}
static int *second_end(size_t n) { static char *pg; if (!pg) pg = (char *)pages(1 << 19); int *q = (int *)(pg + (1 << 19)) - n; for (size_t i = 0; i < n; i++) q[i] = -4242; return q; }
static void translate(Api *a, const G &g1, const std::vector<int> &r, const G &g2)
{
    int n = (int)r.size(); int *in = list_end(r), *out = second_end(n);
    bool bad = g1.set == NUL || g2.set == NUL; for (int x : r) if (g1.set != ONE || x != 0) bad = true;
    note("Group_translate_ranks(%d, %d ranks, %d)", g1.set, n, g2.set);
    auto f = [&] { return a->Group_translate_ranks(g1.h, n, in, g2.h, out); };
    if (bad) { dies("Group_translate_ranks", f); throw Finished(); }
    ok("Group_translate_ranks", f);
    for (int i = 0; i < n; i++) {
        if (in[i] != r[i]) fail("Group_translate_ranks changed its input");
        int want = g2.set == ONE ? 0 : MPI_UNDEFINED;
        if (out[i] != want) fail("Group_translate_ranks: entry %d is %d, expected %d", i, out[i], want);
    }
}
// the group is what the model says
static void look(Api *a, const char *what, const G &g)
{
    if (g.set == NUL) { if (g.h != MPI_GROUP_NULL) fail("%s: handle %d, expected MPI_GROUP_NULL", what, g.h); return; }
    if (g.h == MPI_GROUP_NULL) fail("%s gives MPI_GROUP_NULL", what);
    if ((g.h == MPI_GROUP_EMPTY) != (g.set == EMPTY)) fail("%s gives %s, expected %s", what, g.h == MPI_GROUP_EMPTY ? "the empty group" : "a group that is not empty", g.set == EMPTY ? "the empty group" : "the group of the process");
    int z = 0, r = -77;
    ok("Group_translate_ranks", [&] { return a->Group_translate_ranks(gs[1].h, 1, &z, g.h, &r); });
    if (r != (g.set == ONE ? 0 : MPI_UNDEFINED)) fail("%s: rank 0 translates to %d in the result", what, r);
}
static void start(Api *a)
{
    p.begin(a); gs.clear();
    gs.push_back({MPI_GROUP_EMPTY, EMPTY});
    int g = -4242;
    ok("Comm_group", [&] { return a->Comm_group(MPI_COMM_WORLD, &g); });
    gs.push_back({g, ONE});
    look(a, "Comm_group", gs[1]);
}
static void added(Api *a, const char *what, int h, int set) { G g{h, set}; look(a, what, g); gs.push_back(g); p.after(what); }
static void setop(Api *a, int k, const G &x, const G &y)
{
    static const char *const N[] = {"Group_union", "Group_intersection", "Group_difference"};
    int h = -4242;
    note("%s(%d, %d)", N[k], x.set, y.set);
    auto f = [&] { return k == 0 ? a->Group_union(x.h, y.h, &h) : k == 1 ? a->Group_intersection(x.h, y.h, &h) : a->Group_difference(x.h, y.h, &h); };
    if (x.set == NUL || y.set == NUL) { dies(N[k], f); throw Finished(); }
    ok(N[k], f);
    bool X = x.set == ONE, Y = y.set == ONE, r = k == 0 ? X || Y : k == 1 ? X && Y : X && !Y;
    added(a, N[k], h, r ? ONE : EMPTY);
}
static void incl(Api *a, const G &g, const std::vector<int> &ranks)
{
    int h = -4242, n = (int)ranks.size(); int *l = n ? list_end(ranks) : nullptr;
    note("Group_incl(%d, %d ranks)", g.set, n);
    auto f = [&] { return a->Group_incl(g.h, n, l, &h); };
    bool bad = g.set == NUL || (g.set == ONE && !(n == 0 || (n == 1 && ranks[0] == 0)));
    if (bad) { dies("Group_incl", f); throw Finished(); }
    ok("Group_incl", f);
    added(a, "Group_incl", h, g.set == ONE && n ? ONE : EMPTY);
}
// a range from rank 0 has no other rank
static bool just_first(int last, int stride) { return last == 0 || (last > 0 && stride > last) || (last < 0 && stride < last); }
static void range(Api *a, const G &g, const std::vector<int> &r)
{
    int h = -4242, n = (int)r.size() / 3; int (*l)[3] = n ? (int(*)[3])list_end(r) : nullptr;
    note("Group_range_incl(%d, %d ranges)", g.set, n);
    auto f = [&] { return a->Group_range_incl(g.h, n, l, &h); };
    bool bad = g.set == NUL || (g.set == ONE && !(n == 0 || (n == 1 && r[0] == 0 && just_first(r[1], r[2]))));
    if (bad) { dies("Group_range_incl", f); throw Finished(); }
    ok("Group_range_incl", f);
    added(a, "Group_range_incl", h, g.set == ONE && n ? ONE : EMPTY);
}
static void free_group(Api *a, int i)
{
    int h = gs[i].h; note("Group_free(%d)", gs[i].set);
    ok("Group_free", [&] { return a->Group_free(&h); });
    if (h != MPI_GROUP_NULL) fail("Group_free left the handle at %d", h);
    p.after("Group_free");
}
static const std::vector<std::vector<int>> LISTS = {{}, {0}, {1}, {-1}, {0, 0}, {0, 1}, {1, 0}, {MPI_PROC_NULL}, {0x7fffffff}, {256}};
static const std::vector<std::vector<int>> RANGES = {{}, {0, 0, 1}, {0, 0, -1}, {0, 0, 7}, {0, 1, 1}, {1, 1, 1}, {1, 0, -1}, {0, 0, 1, 0, 0, 1}, {0, 0, 1, 1, 1, 1}, {-1, -1, 1}, {0, 0x7fffffff, 1}, {0, 256, 256}, {0, 5, 7}, {0, 1, 2}, {0, 0x7ffffffe, 0x7fffffff}, {0, -3, -5}, {0, -1, -2}, {0, 5, 5}, {0, 5, 4}, {0, 0x7fffffff, 0x7fffffff}, {5, 0, 7}, {1, 5, 7}, {0, -5, -5}, {0, 5, 7, 0, 5, 7}};
static const std::vector<std::vector<int>> TLISTS = {{}, {0}, {0, 0}, {0, 0, 0, 0, 0}, {1}, {0, 1}, {-1}, {0, 0, MPI_PROC_NULL}, {MPI_UNDEFINED, 0}, {0x40000000}};
// every operation on every pair of groups, null ones included
static void pairs()
{
    guarded([] {
        Api *a = pick_api(); start(a);
        // where the one-process group comes from
        int from = choose(9, "origin"); G one = gs[1], nul{MPI_GROUP_NULL, NUL};
        if (from >= 1 && from <= 6) { int c = p.comm_new(from - 1, 0), h = -1; ok("Comm_group", [&] { return a->Comm_group(p.comms[c].h, &h); }); one.h = h; look(a, "Comm_group", one); if (choose(2, "communicator freed")) p.comm_free(c); }
        if (from == 7) { setop(a, 0, gs[0], gs[1]); one = gs.back(); }
        if (from == 8) { incl(a, gs[1], {0}); one = gs.back(); free_group(a, 1); }
        G all[3] = {nul, gs[0], one}; G x = all[choose(3, "first group")], y = all[choose(3, "second group")];
        int op = choose(6, "operation"); uint64_t arg = 0;
        if (op < 3) setop(a, op, x, y);
        else if (op == 3) { if (y.set != ONE) throw Skip(); int i = choose((int)LISTS.size(), "ranks"); arg = i; incl(a, x, LISTS[i]); }
        else if (op == 4) { if (y.set != ONE) throw Skip(); int i = choose((int)RANGES.size(), "ranges"); arg = i; range(a, x, RANGES[i]); }
        else { int i = choose((int)TLISTS.size(), "ranks"); arg = i; translate(a, x, TLISTS[i], y); }
        state(mix(mix(from, x.set * 3 + y.set), mix(op, arg)));
    });
}
// all sequences of operations that succeed, each on any live groups
static void history()
{
    guarded([] {
        Api *base = pick_api(); start(base); int mixed = choose(2, "languages mixed");
        int len = tier ? 4 : 3;
        for (int d = 0; d < len; d++) {
            Api *a = mixed && d % 2 ? (base == api_c ? api_f : api_c) : base;
            struct E { int k, x, y; }; static std::vector<E> en; en.clear();
            int n = (int)gs.size();
            for (int x = 0; x < n; x++) {
                if (gs[x].set == NUL) continue;
                for (int y = 0; y < n; y++) if (gs[y].set != NUL) { for (int k = 0; k < 3; k++) en.push_back({k, x, y}); en.push_back({3, x, y}); }
                en.push_back({4, x, 0}); en.push_back({4, x, 1}); en.push_back({5, x, 0}); en.push_back({5, x, 1});
                if (x >= 2) en.push_back({6, x, 0});
            }
            en.push_back({7, 0, 0}); en.push_back({8, 0, 0});
            E e = en[choose((int)en.size(), "operation")];
            if (e.k < 3) setop(a, e.k, gs[e.x], gs[e.y]);
            else if (e.k == 3) translate(a, gs[e.x], gs[e.x].set == ONE ? std::vector<int>{0, 0} : std::vector<int>{}, gs[e.y]);
            else if (e.k == 4) incl(a, gs[e.x], LISTS[e.y]);
            else if (e.k == 5) range(a, gs[e.x], RANGES[e.y]);
            else if (e.k == 6) { free_group(a, e.x); gs[e.x].set = NUL; gs[e.x].h = MPI_GROUP_NULL; }
            else { int c = p.comm_new(e.k == 7 ? 0 : 3, 0), h = -1; ok("Comm_group", [&] { return a->Comm_group(p.comms[c].h, &h); }); added(a, "Comm_group", h, ONE); if (e.k == 8) p.comm_free(c); }
            // nothing else changed
            uint64_t f = 5; for (auto &g : gs) { look(a, "a group", g); f = mix(f, g.set); }
            state(mix(f, d));
        }
    });
}
// longer chains over a small alphabet
static void chain()
{
    guarded([] {
        Api *a = pick_api(); start(a);
        int len = tier ? 9 : 7; uint64_t f = 1;
        for (int d = 0; d < len; d++) {
            int e = choose(7, "operation"), n = (int)gs.size(); G x = gs[n - 1], y = gs[n - 2];
            f = mix(f, e);
            if (e < 3) setop(a, e, x, y); else if (e == 3) setop(a, 2, y, x); else if (e == 4) incl(a, x, {0}); else if (e == 5) range(a, y, {0, 0, 1}); else translate(a, gs[1], {0}, x);
            state(mix(f, d));
        }
        for (auto &g : gs) look(a, "a group", g);
    });
}
// translating many ranks
static void many()
{
    guarded([] {
        Api *a = pick_api(); start(a);
        static const int N[] = {1, 2, 255, 1000, 32768, 40000, 70001}; int n = N[choose(7, "ranks")], to = choose(2, "target"), bad = choose(4, "bad rank");
        std::vector<int> r(n, 0); if (bad) r[bad == 1 ? 0 : bad == 2 ? n - 1 : n / 2] = bad;
        state(n * 8 + to * 4 + bad);
        translate(a, gs[1], r, gs[to]);
    });
}
// conversion between the languages
static void convert()
{
    start(api_c);
    static const int H[] = {MPI_GROUP_NULL, MPI_GROUP_EMPTY};
    for (int i = -1; i < 2; i++) { int h = i < 0 ? gs[1].h : H[i]; note("Group_c2f and f2c of %d", h); if (MPI_Group_f2c(MPI_Group_c2f(h)) != h) fail("group handle %d changes through Fortran", h); if (MPI_Group_c2f(h) != h) fail("group handle %d is %d in Fortran", h, MPI_Group_c2f(h)); state(i + 1); }
    int h = -1; ok("Comm_group", [&] { return api_f->Comm_group(MPI_COMM_WORLD, &h); });
    look(api_c, "Comm_group from Fortran", G{h, ONE});
    ok("Comm_group", [&] { return api_f->Comm_group(MPI_COMM_NULL, &h); });
    if (h != MPI_GROUP_NULL) fail("Comm_group of MPI_COMM_NULL gives %d", h);
}
// after many other operations
static void aged()
{
    guarded([] { aged_twice([](P2P &p, int late) {
        Api *a = p.api; int g = -1; gs.clear(); gs.push_back({MPI_GROUP_EMPTY, EMPTY}); ok("Comm_group", [&] { return a->Comm_group(MPI_COMM_WORLD, &g); }); gs.push_back({g, ONE}); look(a, "Comm_group", gs[1]);
        for (int x = 0; x < 2; x++) for (int y = 0; y < 2; y++) {
            for (int k = 0; k < 3; k++) setop(a, k, gs[x], gs[y]);
            translate(a, gs[x], x ? std::vector<int>{0, 0} : std::vector<int>{}, gs[y]);
            incl(a, gs[x], LISTS[y]); range(a, gs[x], RANGES[y]);
        }
        for (int i = 2; i < (int)gs.size(); i++) free_group(a, i);
        if (late) for (int r : {1, -1}) { std::vector<int> l = {r}; int h = -1; int *q = list_end(l); dies("Group_incl", [&] { return a->Group_incl(g, 1, q, &h); }); }
    }, 0); });
}
std::vector<Space> mc_spaces()
{
    return {
        {"pairs", "every operation on every pair of null, empty and one-process groups from nine origins, ten rank lists, 24 range lists, ten translation lists; arrays end at inaccessible memory", pairs},
        {"history", "all sequences of three (thorough four) operations over all live groups, in one or both languages", history},
        {"chain", "all sequences of seven (thorough nine) of seven operations on the latest groups", chain},
        {"aged", AGED_TWICE_TEXT "every operation on the empty and the one-process group", aged},
        {"many", "translation of up to 70001 ranks, bad ranks at the start, middle and end", many},
        {"convert", "group handles through both languages", convert},
    };
}
