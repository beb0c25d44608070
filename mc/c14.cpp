#include "ways.h"
#include "aged.h"
#include <string>
using namespace mc;
const char *mc_property = "C14";
extern "C" { void mcf_const_(const char *name, int *len, int *value, int *found); void mcf_sizes_(int *); }
static bool fconst(const std::string &n, int &v) { int l = (int)n.size(), f = 0; mcf_const_(n.c_str(), &l, &v, &f); return f; }
// constants of the same name have the same value
static void constants()
{
    static const struct { const char *name; long value; } C[] = {
#undef FNAMES
#include CONSTS_H
    };
    int n = sizeof C / sizeof *C;
    if (n < 80) fail("only %d constants of mpif.h are also in mpi.h", n);
    auto &c = C[choose(n, "constant")];
    int v = 0;
    if (!fconst(c.name, v)) fail("%s is not an integer constant of mpif.h", c.name);
    note("%s = %ld", c.name, c.value);
    if (v != c.value) fail("%s is %ld in mpi.h and %d in mpif.h", c.name, c.value, v);
    state(mix(v, (uint64_t)c.name[4] * 256 + c.name[5]));
}
// the Fortran module gives the same view as mpif.h
extern "C" { void mcf_mod_const_(const char *name, int *len, int *value, int *found); void mcf_mod_kinds_(int *); void mcf_mod_addrs_(void (*)(int *, int *, int *, int *)); void mcf_mod_calls_(long *, long *); }
static int *special[4];
static void take(int *a, int *b, int *c, int *d) { special[0] = a; special[1] = b; special[2] = c; special[3] = d; }
extern int *f_status_ignore, *f_statuses_ignore, *f_in_place, *f_bottom;
static void module()
{
    static const char *const N[] = {
#define FNAMES
#include CONSTS_H
    };
    int n = sizeof N / sizeof *N, i = choose(n + 5, "constant");
    if (i < n) {
        int a = -1, b = -2, l = (int)strlen(N[i]), f = 0;
        if (!fconst(N[i], a)) fail("harness: %s", N[i]);
        mcf_mod_const_(N[i], &l, &b, &f);
        if (!f || a != b) fail("%s is %d in mpif.h and %d in the Fortran module", N[i], a, b);
    } else if (i == n) {
        int s[4]; mcf_mod_kinds_(s);
        if (s[0] != (int)sizeof(MPI_Aint)) fail("integers of the kind MPI_ADDRESS_KIND have %d bytes, MPI_Aint has %zu", s[0], sizeof(MPI_Aint));
        if (s[1] != 8) fail("integers of the kind MPI_OFFSET_KIND have %d bytes", s[1]);
        if (s[2] != s[3]) fail("MPI_Wtime gives %d bytes in the module, a DOUBLE PRECISION has %d", s[2], s[3]);
    } else if (i == n + 1) {
        mcf_mod_addrs_(take);
        int *w[4] = {f_status_ignore, f_statuses_ignore, f_in_place, f_bottom};
        for (int k = 0; k < 4; k++) if (special[k] != w[k]) fail("special address %d of the module is not the one of mpif.h", k);
    } else {
        static const long D[] = {40, 1L << 31, -(5L << 32)}; long d = D[i - n - 2], out[4] = {0, 0, 0, 0};
        P2P &p = pp; p.begin(api_f);
        ok("calls through the module", [&] { mcf_mod_calls_(&d, out); return 0; });
        if (out[0] != -77 || out[2] != -77) fail("MPI_Type_extent wrote beyond an integer of MPI_ADDRESS_KIND");
        if (out[1] != (d < 0 ? -d : d) + 4) fail("a vector of stride %ld made through the module has extent %ld", d, out[1]);
        if (out[3] != 8) fail("addresses of neighbouring variables obtained through the module differ by %ld", out[3]);
    }
    state(i);
}
// every pair of predefined datatypes
static void distinct()
{
    std::vector<std::pair<std::string, int>> h;
    for (auto &b : basics()) h.push_back({b.name, b.handle});
    h.push_back({"MPI_LB", MPI_LB}); h.push_back({"MPI_UB", MPI_UB}); h.push_back({"MPI_DATATYPE_NULL", MPI_DATATYPE_NULL});
    int i = choose((int)h.size(), "type"), j = choose((int)h.size(), "type");
    if (i != j && h[i].second == h[j].second) fail("%s and %s are the same handle %d", h[i].first.c_str(), h[j].first.c_str(), h[i].second);
    if (MPI_LONG_LONG != MPI_LONG_LONG_INT) fail("MPI_LONG_LONG is not MPI_LONG_LONG_INT");
    if (h[i].second == MPI_LONG_LONG && h[i].first != "MPI_LONG_LONG_INT") fail("MPI_LONG_LONG is %s", h[i].first.c_str());
    state(i * 64 + j);
}
// the sizes this program's compilers give to the types
static void sizes()
{
    P2P &p = pp; p.begin(pick_api());
    int s[7]; mcf_sizes_(s);
    static const int H[7] = {MPI_INTEGER, MPI_REAL, MPI_DOUBLE_PRECISION, MPI_COMPLEX, MPI_DOUBLE_COMPLEX, MPI_LOGICAL, MPI_CHARACTER};
    for (int i = 0; i < 7; i++) {
        int sz = -1; long e = -1;
        ok("Type_size", [&] { return p.api->Type_size(H[i], &sz); });
        ok("Type_extent", [&] { return p.api->Type_extent(H[i], &e); });
        if (sz != s[i] || e != s[i]) fail("%s has size %d and extent %ld; the Fortran type has %d bytes", basic_name(H[i]), sz, e, s[i]);
    }
    RType t = r_basic(basics()[choose((int)basics().size(), "type")].handle);
    check_type(p.api, t, basic_name(t.h));
    int sz = -1, n = choose(4, "count");
    ok("Pack_size", [&] { return p.api->Pack_size(n, t.h, MPI_COMM_WORLD, &sz); });
    if (sz != n * t.size()) fail("Pack_size of %d x %s gives %d, expected %ld", n, basic_name(t.h), sz, n * t.size());
    p.after("queries");
    state(mix(t.h, n));
}
// every way of moving data, with every predefined type, never committed
static void moving()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        RType t = r_basic(basics()[choose((int)basics().size(), "type")].handle);
        int n = choose(tier ? 6 : 4, "count"), way = choose(21, "way");
        move(p.api, p, way, t, n, t, n);
        check_type(p.api, t, basic_name(t.h));
        state(mix(t.h, n * 32 + way));
    });
}
// two moves with two types: no type depends on another's use
static void two()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        int k = (int)basics().size();
        RType t = r_basic(basics()[choose(k, "type")].handle), u = r_basic(basics()[choose(k, "type")].handle);
        static const int WS[] = {0, 1, 7, 8, 13, 15, 20};
        int w1 = WS[choose(7, "way")], w2 = WS[choose(7, "way")];
        move(p.api, p, w1, t, 2, t, 2);
        move(p.api, p, w2, u, 3, u, 3);
        check_type(p.api, t, "the first type"); check_type(p.api, u, "the second type");
        RType o; mk_contig(p.api, o, 2, u); check_type(p.api, o, "two of the second type");
        state(mix(mix(t.h, u.h), w1 * 32 + w2));
    });
}
// the layouts of equal element sequences: pair types against their members
static void pairs()
{
    guarded([] {
        P2P &p = pp; p.begin(pick_api()); p.stl = 2;
        std::vector<Basic> ps; for (auto &b : basics()) if (b.kind2) ps.push_back(b);
        Basic b = ps[choose((int)ps.size(), "pair")];
        RType t = r_basic(b.handle), m1, m2, u;
        for (auto &x : basics()) { if (!x.kind2 && x.kind == b.kind) m1 = r_basic(x.handle); if (!x.kind2 && x.kind == b.kind2) m2 = r_basic(x.handle); }
        int bl[3] = {1, 1, 1}; long d[3] = {0, b.disp2, b.ext}; RType UB = r_basic(MPI_UB); const RType *o[3] = {&m1, &m2, &UB};
        int way = choose(8, "way");     // the collectives' type checks are another property's concern
        mk_struct(p.api, u, 3, bl, d, o); mk_commit(p.api, u);
        int dir = choose(2, "direction"), n = choose(4, "count");
        if (dir) move(p.api, p, way, t, n, u, n); else move(p.api, p, way, u, n, t, n);
        long e = -1; ok("Type_extent", [&] { return p.api->Type_extent(t.h, &e); });
        if (e != b.ext) fail("the extent of %s is %ld, the C struct has %d bytes", b.name, e, b.ext);
        state(mix(t.h, way * 8 + n * 2 + dir));
    });
}
// reserved values against the values they must be told apart from
static void reserved()
{
    P2P &p = pp; p.begin(pick_api());
    auto differ = [](const char *a, long x, const char *b, long y) { if (x == y) fail("%s and %s are both %ld", a, b, x); };
    int tub = 0; if (!fconst("MPI_TAG_UB", tub)) fail("mpif.h does not define MPI_TAG_UB");
    switch (choose(8, "which")) {
    case 0:     // ranks
        differ("MPI_ANY_SOURCE", MPI_ANY_SOURCE, "MPI_PROC_NULL", MPI_PROC_NULL); differ("MPI_ANY_SOURCE", MPI_ANY_SOURCE, "MPI_ROOT", MPI_ROOT); differ("MPI_PROC_NULL", MPI_PROC_NULL, "MPI_ROOT", MPI_ROOT);
        for (long v : {(long)MPI_ANY_SOURCE, (long)MPI_PROC_NULL, (long)MPI_ROOT, (long)MPI_UNDEFINED}) if (v >= 0) fail("a reserved rank is %ld, a legal rank", v);
        break;
    case 1:     // tags
        if (MPI_ANY_TAG >= 0) fail("MPI_ANY_TAG is %d, a legal tag", MPI_ANY_TAG);
        if (tub < 32767) fail("MPI_TAG_UB is %d, less than 32767", tub);
        break;
    case 2:     // groups
    {
        int g = -77, e = MPI_GROUP_EMPTY;
        ok("Comm_group", [&] { return p.api->Comm_group(MPI_COMM_WORLD, &g); });
        differ("the group of MPI_COMM_WORLD", g, "MPI_GROUP_EMPTY", e); differ("the group of MPI_COMM_WORLD", g, "MPI_GROUP_NULL", MPI_GROUP_NULL); differ("MPI_GROUP_EMPTY", e, "MPI_GROUP_NULL", MPI_GROUP_NULL);
        break;
    }
    case 3:     // communicators and requests
    {
        differ("MPI_COMM_WORLD", MPI_COMM_WORLD, "MPI_COMM_NULL", MPI_COMM_NULL);
        char *b = p.fresh(1, p.t_int); int k = 1 + choose(600, "objects");
        p.handles = true;
        for (int i = 0; i < k; i++) { if (i % 3 == 0) p.comm_new(0, 0); else p.irecv(0, i, b, 1, p.t_int); }
        for (auto &r : p.reqs) { differ("a live request", r.h, "MPI_REQUEST_NULL", MPI_REQUEST_NULL); }
        for (auto &c : p.comms) differ("a live communicator", c.h, "MPI_COMM_NULL", MPI_COMM_NULL);
        break;
    }
    case 4:     // datatypes
    {
        int k = 1 + choose(600, "objects");
        for (int i = 0; i < k; i++) {
            RType t; mk_contig(p.api, t, 1 + i % 3, p.t_int);
            for (auto &b : basics()) differ("a derived datatype", t.h, b.name, b.handle);
            differ("a derived datatype", t.h, "MPI_LB", MPI_LB); differ("a derived datatype", t.h, "MPI_UB", MPI_UB); differ("a derived datatype", t.h, "MPI_DATATYPE_NULL", MPI_DATATYPE_NULL);
        }
        break;
    }
    case 5:     // addresses
    {
        if ((long)MPI_IN_PLACE == (long)MPI_BOTTOM) fail("MPI_IN_PLACE is MPI_BOTTOM");
        if ((char *)f_in_place == (char *)f_status_ignore || (char *)f_in_place == (char *)f_statuses_ignore || (char *)f_status_ignore == (char *)f_statuses_ignore) fail("two of Fortran's MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE and MPI_IN_PLACE are at one address");
        int sz = 0; if (!fconst("MPI_STATUS_SIZE", sz) || sz * sizeof(int) != sizeof(MPI_Status)) fail("MPI_STATUS_SIZE is %d, MPI_Status has %zu bytes", sz, sizeof(MPI_Status));
        int i = 0;
        fconst("MPI_SOURCE", i); if ((i - 1) * sizeof(int) != offsetof(MPI_Status, MPI_SOURCE)) fail("MPI_SOURCE is %d", i);
        fconst("MPI_TAG", i); if ((i - 1) * sizeof(int) != offsetof(MPI_Status, MPI_TAG)) fail("MPI_TAG is %d", i);
        fconst("MPI_ERROR", i); if ((i - 1) * sizeof(int) != offsetof(MPI_Status, MPI_ERROR)) fail("MPI_ERROR is %d", i);
        break;
    }
    case 6:     // thread levels, error codes, counts
        if (!(MPI_THREAD_SINGLE < MPI_THREAD_FUNNELED && MPI_THREAD_FUNNELED < MPI_THREAD_SERIALIZED && MPI_THREAD_SERIALIZED < MPI_THREAD_MULTIPLE)) fail("the thread levels are not increasing");
        if (MPI_UNDEFINED >= 0) fail("MPI_UNDEFINED is %d, a legal count, index or color", MPI_UNDEFINED);
        for (int e : {MPI_ERR_BUFFER, MPI_ERR_COUNT, MPI_ERR_TYPE, MPI_ERR_TAG, MPI_ERR_COMM, MPI_ERR_RANK, MPI_ERR_REQUEST, MPI_ERR_ROOT, MPI_ERR_GROUP, MPI_ERR_OP, MPI_ERR_TOPOLOGY, MPI_ERR_DIMS, MPI_ERR_ARG, MPI_ERR_UNKNOWN,
                      MPI_ERR_TRUNCATE, MPI_ERR_OTHER, MPI_ERR_INTERN, MPI_PENDING, MPI_ERR_IN_STATUS, MPI_ERR_LASTCODE}) if (e == MPI_SUCCESS) fail("an error code is MPI_SUCCESS");
        break;
    case 7:     // the largest legal tag is no wildcard and is told apart
        guarded([&] {
            static const int T[] = {0, 1, 32767, 0x10000, 0x40000000};
            int t = choose(6, "tag"), u = choose(6, "tag"); t = t == 5 ? tub : T[t]; u = u == 5 ? tub : T[u];
            char *b = p.fresh(1, p.t_int); p.stl = 1;
            p.send(SM_ISEND, 0, t, b, 1, p.t_int);
            p.iprobe(0, u, 0); p.irecv(0, u, p.fresh(1, p.t_int), 1, p.t_int); p.test(1); p.iprobe(0, MPI_ANY_TAG, MPI_ANY_SOURCE);
            p.drain();
        });
        break;
    }
    p.after("reserved values");
    state(p.fp());
}
static void aged_sp()
{
    guarded([] { aged_twice([](P2P &p, int late) {
        int j = 0;
        for (auto &b : basics()) { p.forget(); RType t = r_basic(b.handle); check_type(p.api, t, b.name); int way = (j++ + late * 3) % 14; move(p.api, p, way, t, 1 + late, t, 1 + late); }
    }, 1); });
}
std::vector<Space> mc_spaces()
{
    return {
        {"constants", "every integer constant that both mpi.h and mpif.h define", constants},
        {"module", "every constant, both kinds and the special addresses of the Fortran module against mpif.h; calls with addresses of the module's kind", module},
        {"distinct", "every pair of predefined datatypes", distinct},
        {"sizes", "every predefined datatype: size, extent, bounds and pack size for counts 0..3, both languages; default Fortran types against the compiler's storage sizes", sizes},
        {"moving", "every predefined datatype in 21 ways of moving data, counts 0..3 (thorough 0..5), never committed, every byte compared, both languages", moving},
        {"two", "every ordered pair of predefined datatypes in every pair of 7 ways of moving data", two},
        {"aged", AGED_TWICE_TEXT "every predefined type queried and moved in one of fourteen ways", aged_sp},
        {"pairs", "each pair datatype against a struct of its members at the C struct's offsets, both directions, 8 ways, counts 0..3", pairs},
        {"reserved", "reserved ranks, tags, handles, groups, addresses and levels against up to 600 live objects", reserved},
    };
}
