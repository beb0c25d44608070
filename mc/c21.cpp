#include "p2p.h"
#include "aged.h"
using namespace mc;
const char *mc_property = "C21";
static P2P &p = pp;
static Api *a;
struct Cart { int ci; std::vector<int> per; };
static std::vector<Cart> carts;
// every live communicator has size 1 and rank 0; the Cartesian ones describe themselves
static void look(Api *x)
{
    for (auto &c : p.comms) if (c.live) {
        int s = -77, r = -77;
        ok("Comm_size", [&] { return x->Comm_size(c.h, &s); }); ok("Comm_rank", [&] { return x->Comm_rank(c.h, &r); });
        if (s != 1) fail("Comm_size of a communicator is %d", s);
        if (r != 0) fail("Comm_rank in a communicator is %d", r);
    }
    for (auto &k : carts) if (p.comms[k.ci].live) {
        int n = (int)k.per.size(), h = p.comms[k.ci].h; static int d[70010], q[70010], c[70010], c2[70010]; int ask = n;
        for (int i = 0; i < n + 8; i++) d[i] = q[i] = c[i] = c2[i] = 0x33333333;
        ok("Cart_get", [&] { return x->Cart_get(h, ask, d + 1, q + 1, c + 1); });
        ok("Cart_coords", [&] { return x->Cart_coords(h, 0, ask, c2 + 1); });
        for (int i = 0; i < ask; i++) {
            if (d[i + 1] != 1) fail("Cart_get: dimension %d of %d is %d", i, n, d[i + 1]);
            if (q[i + 1] != k.per[i]) fail("Cart_get: periodicity %d of %d is %d, was created with %d", i, n, q[i + 1], k.per[i]);
            if (c[i + 1] || c2[i + 1]) fail("Cart_get or Cart_coords: coordinate %d of %d is %d, %d", i, n, c[i + 1], c2[i + 1]);
        }
        for (int *v : {d, q, c, c2}) if (v[0] != 0x33333333 || v[ask + 1] != 0x33333333) fail("Cart_get or Cart_coords wrote outside its arrays");
    }
    p.after("the queries");
}
static int made(const char *what, int h, bool null)
{
    if (null) { if (h != MPI_COMM_NULL) fail("%s gives handle %d, expected MPI_COMM_NULL", what, h); return -1; }
    return p.comm_added(what, h);
}
static int cart(int from, const std::vector<int> &dims, const std::vector<int> &per, int reorder)
{
    int h = -4242; bool bad = false; std::vector<int> d = dims, q = per; std::string s;
    for (int x : dims) { if (x > 1) bad = true; s += std::to_string(x) + " "; }
    note("Cart_create(comm %d, dims %s)", from, s.c_str());
    auto f = [&] { return a->Cart_create(p.comms[from].h, (int)dims.size(), d.data(), q.data(), reorder, &h); };
    if (bad) { dies("Cart_create", f); throw Finished(); }
    ok("Cart_create", f);
    if (d != dims || q != per) fail("Cart_create changed its arguments");
    std::fill(d.begin(), d.end(), 99); std::fill(q.begin(), q.end(), 99);
    int ci = made("Cart_create", h, false);
    std::vector<int> w; for (int x : per) w.push_back(x != 0);
    carts.push_back({ci, w});
    return ci;
}
static void dup(int from)
{
    int h = -4242; note("Comm_dup(comm %d)", from);
    ok("Comm_dup", [&] { return a->Comm_dup(p.comms[from].h, &h); });
    int ci = made("Comm_dup", h, false);
    for (size_t i = 0; i < carts.size(); i++) if (carts[i].ci == from) { Cart k = carts[i]; k.ci = ci; carts.push_back(k); break; }
}
static void split(int from, int color, int key)
{
    int h = -4242; note("Comm_split(comm %d, %d, %d)", from, color, key);
    ok("Comm_split", [&] { return a->Comm_split(p.comms[from].h, color, key, &h); });
    made("Comm_split", h, color == MPI_UNDEFINED);
}
static void create(int from, bool empty)
{
    int h = -4242, g = MPI_GROUP_EMPTY; note("Comm_create(comm %d, %s)", from, empty ? "empty group" : "group of the process");
    if (!empty) ok("Comm_group", [&] { return a->Comm_group(p.comms[from].h, &g); });
    ok("Comm_create", [&] { return a->Comm_create(p.comms[from].h, g, &h); });
    made("Comm_create", h, empty);
    int h2 = g; ok("Group_free", [&] { return a->Group_free(&h2); });
}
static void inter(int lc, int pc)        // -1: null
{
    int h = -4242, x = lc < 0 ? 0 : p.comms[lc].h, y = pc < 0 ? 0 : p.comms[pc].h; note("Intercomm_create(%d, %d)", lc, pc);
    ok("Intercomm_create", [&] { return a->Intercomm_create(x, 0, y, 0, 7, &h); });
    made("Intercomm_create", h, lc < 0 && pc < 0);
}
static void merge(int from, int high)
{
    int h = -4242; note("Intercomm_merge(comm %d, %d)", from, high);
    ok("Intercomm_merge", [&] { return api_c->Intercomm_merge(p.comms[from].h, high, &h); });
    made("Intercomm_merge", h, false);
}
static void begin() { a = pick_api(); p.begin(a); p.handles = true; carts.clear(); }
static void history_body(int len, bool all)
{
    guarded([&] {
        begin();
        for (int d = 0; d < len; d++) {
            struct E { int k, c; }; static std::vector<E> en; en.clear();
            for (int c = 0; c < (int)p.comms.size(); c++) if (p.comms[c].live) {
                if (!all && c && c != (int)p.comms.size() - 1) { en.push_back({9, c}); continue; }
                for (int k = 0; k < (c ? 10 : 9); k++) en.push_back({k, c});
            }
            en.push_back({10, 0});
            E e = en[choose((int)en.size(), "operation")];
            switch (e.k) {
            case 0: dup(e.c); break;
            case 1: split(e.c, d, -d); break;
            case 2: split(e.c, MPI_UNDEFINED, 3); break;
            case 3: create(e.c, false); break;
            case 4: create(e.c, true); break;
            case 5: cart(e.c, {1, 1}, {1, 0}, 0); break;
            case 6: cart(e.c, {1}, {0}, 1); break;
            case 7: inter(e.c, 0); break;
            case 8: merge(e.c, d & 1); break;
            case 9: p.comm_free(e.c); break;
            case 10: inter(-1, -1); break;
            }
            look(a);
            uint64_t h = d; for (auto &c : p.comms) h = mix(h, c.live); for (auto &k : carts) h = mix(h, k.ci * 4 + k.per.size()); state(h);
        }
        look(a == api_c ? api_f : api_c);
    });
}
static void history() { history_body(tier ? 5 : 4, true); }
static void longer() { history_body(tier ? 6 : 5, false); }
// Cartesian topologies: every dimension list and periodicity
static void cartesian()
{
    guarded([] {
        begin();
        int n = choose(6, "dimensions"), from = choose(7, "from"), reorder = choose(2, "reorder"); std::vector<int> d, q;
        static const int D[] = {1, 0, 2, 7};
        int odd = choose(n ? 2 * n + 1 : 1, "odd dimension");      // at most one that is not 1
        for (int i = 0; i < n; i++) { d.push_back(odd && (odd - 1) / 2 == i ? D[1 + ((odd - 1) % 2) * (1 + i % 2)] : 1); q.push_back(choose(2, "period")); }
        if (from) p.comm_new(from - 1, 0);
        int ci = cart(from ? 1 : 0, d, q, reorder);
        look(a);
        // another one, then the first again; duplicates
        std::vector<int> q2; for (int x : q) q2.push_back(!x); q2.push_back(1); std::vector<int> d2(q2.size(), 1);
        cart(ci, d2, q2, 0); dup(ci); look(a); dup((int)p.comms.size() - 1);
        p.comm_free(ci); look(a);
        dup(0); create((int)p.comms.size() - 1, false); look(a == api_c ? api_f : api_c);
        uint64_t h = n; for (int x : q) h = h * 2 + x; state(mix(h, from * 64 + odd * 2 + reorder));
    });
}
// every list of dimension sizes, whatever the others are
static void grids()
{
    guarded([] {
        begin();
        static const int D[] = {1, 0, 2, 0x7fffffff};
        int n = choose(tier ? 7 : 6, "dimensions"), per = choose(3, "periods"), from = choose(3, "from"); std::vector<int> d, q; uint64_t h = n;
        for (int i = 0; i < n; i++) { int v = choose(4, "size"); d.push_back(D[v]); q.push_back(per == 2 ? i & 1 : per); h = h * 4 + v; }
        if (from) p.comm_new(from == 1 ? 0 : 4, 0);
        state(mix(h, per * 4 + from));
        cart(from ? 1 : 0, d, q, per == 1); look(a);
    });
}
static void periods()    // any non-zero value is periodic in C
{
    guarded([] {
        p.begin(api_c); a = api_c; p.handles = true; carts.clear();
        static const int V[] = {0, 1, -1, 2, 256, 0x10000, (int)0x80000000};
        int n = 1 + choose(3, "dimensions"); std::vector<int> q, d(n, 1); uint64_t h = 0;
        for (int i = 0; i < n; i++) { int v = choose(7, "period"); q.push_back(V[v]); h = h * 8 + v; }
        cart(0, d, q, 0); look(api_c); look(api_f); state(h);
    });
}
static void large_cart()
{
    guarded([] {
        begin(); static const int N[] = {6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 41, 63, 64, 65, 300, 5000, 32768, 40000, 70001}; int n = N[choose(19, "dimensions")], at = choose(5, "large dimension"), form = choose(4, "periods");
        std::vector<int> d(n, 1), q; for (int i = 0; i < n; i++) q.push_back(form == 3 || (n - 1 - i) % 3 == form);
        if (at) d[at == 1 ? 0 : at == 2 ? n - 1 : at == 3 ? n / 2 : n - 2] = at == 3 ? 0x7fffffff : 2;
        state(n * 32 + at * 4 + form); cart(0, d, q, 0); look(a); dup(1); look(a);
    });
}
static void coords()
{
    guarded([] {
        begin(); int n = 1 + choose(3, "dimensions"); static const int R[] = {0, 1, -1, 2, 256, 0x7fffffff, (int)0x80000000, 0x10000}; int r = R[choose(8, "rank")];
        std::vector<int> d(n, 1), q(n, 0); int ci = cart(0, d, q, 0), h = p.comms[ci].h, c[5] = {9, 9, 9, 9, 9}; int m = 1 + choose(n, "asked");
        auto f = [&] { return a->Cart_coords(h, r, m, c); }; state(n * 64 + m * 16 + (r & 15));
        note("Cart_coords of rank %d", r);
        if (r) { dies("Cart_coords", f); for (int x : c) if (x != 9) fail("Cart_coords of an invalid rank wrote coordinates"); return; }
        ok("Cart_coords", f); for (int i = 0; i < 5; i++) if (c[i] != (i < m ? 0 : 9)) fail("Cart_coords: entry %d of %d is %d", i, m, c[i]);
        // fewer dimensions than there are
        int dd[5] = {9, 9, 9, 9, 9}, pp_[5] = {1, 9, 9, 9, 9}; ok("Cart_get", [&] { return a->Cart_get(h, m, dd, pp_, c); });
        for (int i = 0; i < 5; i++) if (dd[i] != (i < m ? 1 : 9)) fail("Cart_get of %d dimensions: entry %d is %d", m, i, dd[i]);
    });
}
static void dims()
{
    guarded([] {
        begin(); int n = choose(5, "dimensions"), nn = choose(5, "processes"); static const int NN[] = {1, 2, 3, 256, 0x7fffffff}; static const int V[] = {0, 1, 2, 0x7fffffff};
        static char *pg; if (!pg) pg = (char *)pages(4096); int *d = (int *)(pg + 4096) - n; bool bad = nn != 0; uint64_t h = nn;
        for (int i = 0; i < n; i++) { int v = choose(4, "given"); d[i] = V[v]; if (v > 1) bad = true; h = h * 4 + v; }
        state(mix(h, n)); auto f = [&] { return a->Dims_create(NN[nn], n, d); };
        note("Dims_create(%d processes, %d dimensions)", NN[nn], n);
        if (bad) { dies("Dims_create", f); return; }
        ok("Dims_create", f); for (int i = 0; i < n; i++) if (d[i] != 1) fail("Dims_create: dimension %d is %d", i, d[i]);
        // usable for a topology
        std::vector<int> dv(d, d + n), q(n, 1); cart(0, dv, q, 0); look(a);
    });
}
static void splits()
{
    guarded([] {
        begin(); static const int C[] = {0, 1, 2, 255, 256, 65536, 0x7fffffff, MPI_UNDEFINED}, K[] = {0, 1, -1, 0x7fffffff, (int)0x80000000};
        int c = C[choose(8, "color")], k = K[choose(5, "key")], from = choose(7, "from"); if (from) p.comm_new(from - 1, 0);
        split(from ? 1 : 0, c, k); look(a); split((int)p.comms.size() - 1, c, k); look(a); state(mix(c, k) + from);
    });
}
static void inters()
{
    guarded([] {
        begin(); p.comm_new(0, 0); p.comm_new(4, 0); p.comm_new(3, 0); carts.clear();
        int l = choose(5, "local") - 1, q = choose(5, "peer") - 1; inter(l, q); look(a);
        if (l >= 0 || q >= 0) { int i = (int)p.comms.size() - 1; merge(i, choose(2, "high")); look(a); p.comm_free(i); look(a); merge((int)p.comms.size() - 1, 0); look(a); }
        else for (int high = 0; high < 2; high++) { int h = 4711; ok("Intercomm_merge", [&] { return a->Intercomm_merge(MPI_COMM_NULL, high, &h); }); if (h != MPI_COMM_NULL) fail("Intercomm_merge of MPI_COMM_NULL gives %d", h); look(a); }
        int h = -1; ok("Intercomm_create", [&] { return a->Intercomm_create(p.comms[0].h, 0, 0, 0, 7, &h); }); made("Intercomm_create", h, false);
        state(l * 8 + q);
    });
}
// hundreds of communicators alive, with their own topologies
static void many()
{
    guarded([] {
        begin(); static const int N[] = {3, 254, 255, 256, 520}; int n = N[choose(5, "communicators")], keep = choose(3, "freed");
        for (int i = 0; i < n; i++) { if (i % 3 == 2) cart(0, std::vector<int>(1 + i % 5, 1), std::vector<int>(1 + i % 5, i % 2), 0); else if (i % 3) p.comm_new(i % 6 == 3 ? 1 : i % 6, i / 2); else dup(i); }
        look(a);
        for (int i = 1; i <= n; i++) if (keep == 1 ? i % 2 : keep == 2 ? i > 3 : 0) p.comm_free(i);
        look(a); for (int i = 0; i < 5; i++) dup(0); look(a); state(n * 4 + keep);
    });
}
static void convert()
{
    begin();
    for (int h : {MPI_COMM_NULL, MPI_COMM_WORLD}) { if (MPI_Comm_c2f(h) != h || MPI_Comm_f2c(h) != h) fail("communicator handle %d changes between the languages", h); state(h); }
    int h = -1; ok("Comm_dup", [&] { return api_f->Comm_dup(MPI_COMM_WORLD, &h); }); made("Comm_dup", MPI_Comm_f2c(h), false); look(api_c);
    ok("Comm_dup", [&] { return api_c->Comm_dup(MPI_COMM_WORLD, &h); }); made("Comm_dup", MPI_Comm_c2f(h), false); look(api_f);
}
// after many other operations
static void aged()
{
    guarded([] { aged_twice([](P2P &p, int late) {
        a = p.api; carts.clear();
        int from = late; if (late && !p.comms[from].live) from = 0;
        dup(from); split(0, 3, 1); split(from, MPI_UNDEFINED, 0); create(0, false); create(from, true); cart(0, {1, 0, 1}, {1, 0, 1}, 0); cart(from, {1}, {1}, 1); inter(0, 0); inter(-1, -1); merge((int)p.comms.size() - 1, late);
        look(a); look(a == api_c ? api_f : api_c);
        for (int i = 1 + late; i < (int)p.comms.size(); i += 2) if (p.comms[i].live) p.comm_free(i);
        look(a);
        int h = -1, one[2] = {1, 2}, per[2] = {0, 1};
        dies("Cart_create", [&] { return a->Cart_create(MPI_COMM_WORLD, 2, one, per, 0, &h); }); dies("Dims_create", [&] { return a->Dims_create(2, 1, per); });
    }, 0); });
}
std::vector<Space> mc_spaces()
{
    return {
        {"history", "all sequences of four (thorough five) of eleven constructors and frees, each from any live communicator", history},
        {"longer", "all sequences of five (thorough six) from the first or latest communicator, any freed", longer},
        {"cartesian", "up to five dimensions, every periodicity, one dimension of another size, from seven kinds of communicator; second topologies and duplicates", cartesian},
        {"grids", "up to five (thorough six) dimensions of size 0, 1, 2 or INT_MAX each, three kinds of periods, from three kinds of communicator", grids},
        {"periods", "seven integer truth values in up to three dimensions", periods},
        {"large_cart", "nineteen numbers of dimensions from 6 to 70001, four patterns of periods, too large dimensions at four places", large_cart},
        {"coords", "eight ranks, up to three dimensions", coords},
        {"dims", "five process counts, up to four dimensions with four given values each", dims},
        {"splits", "eight colors, five keys, seven kinds of communicator", splits},
        {"inters", "intercommunicators between five kinds of communicator or null, merged both ways", inters},
        {"aged", AGED_TWICE_TEXT "every constructor, half of the communicators freed", aged},
        {"many", "up to 520 communicators alive", many},
        {"convert", "communicator handles through both languages", convert},
    };
}
