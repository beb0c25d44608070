#include "ops.h"
#include <sys/mman.h>
#include <string>
using namespace mc;
const char *mc_property = "C24";
// live objects made beforehand so that the program meets the end of a block of handles
static void prelude(P2P &p, int n)
{
    for (int i = 0; i < n; i++) { int h = -1; ok("Type_dup", [&] { return p.api->Type_dup(MPI_INT, &h); }); }
}
typedef std::vector<std::vector<char>> Images;
static void image(Images &v) { v.emplace_back(um.m, um.m + um.used); }
// every byte is as before the call that ended, or as after it when it succeeds
static void untouched(const char *what, const Images &v, int step)
{
    for (size_t k = 0; k < um.used; k++) {
        if (um.m[k] == um.s[k]) continue;
        if (step >= 0 && step < (int)v.size() && k < v[step].size() && um.m[k] == v[step][k]) continue;
        fail("%s ran out of memory and wrote user memory at offset %zu", what, k);
    }
    if (const char *b = api_bad()) fail("%s ran out of memory: %s", what, b);
    env::check_heap(what);
}
static void faulty(const std::vector<int> &fillers, int depth, bool commed, const std::vector<int> &opset)
{
    guarded([&] {
        P2P &p = pp; Api *a = pick_api(); int pre = pick(fillers, "objects made before"), reuse = choose(2, "recycled memory"), first = choose(2, "initialized beforehand");
        if (pre && !first) throw Skip();
        env::reuse = reuse;
        std::vector<int> prog; Images img; ty.clear();
        if (first) { p.begin(a); prelude(p, pre); } else p.reset(a);
        long base = env::alloc_count;
        if (!first) { ok("Init", [&] { return a->Init(); }); image(img); }
        for (int d = 0; d < depth; d++) {
            int e = opset[choose((int)opset.size(), "operation")];
            if (!apply(p, e)) throw Skip();
            prog.push_back(e); image(img);
        }
        long total = env::alloc_count;
        state(mix(p.fp(), total * 64 + pre));
        if (total == base) return;
        long at = base + choose((int)(total - base), "failing allocation"); int sticky = choose(2, "all later ones fail as well");
        pristine();
        env::reuse = reuse; ty.clear();
        int step = -1;
        note("-- again, allocation %ld%s fails", at, sticky ? " and all later ones" : "");
        try {
            if (first) { p.begin(a); prelude(p, pre); env::fault_at = at; env::fault_sticky = sticky; env::faulting = true; }
            else { p.reset(a); env::fault_at = at; env::fault_sticky = sticky; env::faulting = true; ok("Init", [&] { return a->Init(); }); }
            for (size_t d = 0; d < prog.size(); d++) { step = (int)d; apply(p, prog[d]); }
        } catch (FaultDeath &f) {
            note("%s ended the process", f.what);
            untouched(f.what, img, step + (first ? 0 : 1));
            return;
        }
        fail("allocation %ld of the program failed but no call ended the process", at);
    });
}
static std::vector<int> allops() { std::vector<int> v; for (int i = 0; i < NOPS; i++) v.push_back(i); return v; }
static void every() { static std::vector<int> o = allops(); faulty({0}, 3, true, o); }
static void deeper() { static std::vector<int> o = {0, 1, 2, 3, 4, 5, 6, 12, 14, 20, 21, 22, 23, 24, 26, 27, 32, 38}; faulty({0}, tier ? 5 : 4, true, o); }
static void blocks() { static std::vector<int> o = allops(); std::vector<int> f; for (int i = tier ? 245 : 250; i <= 255; i++) f.push_back(i); if (tier) f.push_back(510); faulty(f, tier ? 2 : 1, true, o); }
static void blocks2() { static std::vector<int> o = {0, 1, 5, 6, 8, 9, 14, 20, 21, 37, 38}; faulty({251, 252, 253, 254, 255}, tier ? 3 : 2, true, o); }

// from some point on there is no memory at all: calls that need none behave as ever
static void dry_body(int before, int after, const std::vector<int> &opset)
{
    guarded([&] {
        P2P &p = pp; Api *a = pick_api(); env::reuse = choose(2, "recycled memory"); ty.clear();
        p.stl = 2;
        p.begin(a);
        Images img; int n = 0;
        try {
            for (int d = 0; d < before; d++) { if (!apply(p, opset[choose((int)opset.size(), "operation")])) throw Skip(); }
            env::fault_at = env::alloc_count; env::fault_sticky = true; env::faulting = true;
            note("-- no memory from here on");
            for (int d = 0; d < after; d++) { if (!apply(p, opset[choose((int)opset.size(), "operation")])) throw Skip(); n++; state(mix(p.fp(), d)); }
            env::faulting = false; env::fault_at = -1; env::fault_sticky = false;
            note("-- memory again");
            for (auto &o : p.ops) if (!o.done && !o.t->h) return;      // its datatype is gone
            p.drain();
        } catch (FaultDeath &f) {
            note("%s ended the process", f.what);
            env::check_heap(f.what);
            if (const char *b = api_bad()) fail("%s ran out of memory: %s", f.what, b);
            state(mix(p.fp(), 1000 + n));
        }
    });
}
static void dry() { static std::vector<int> o = {0, 1, 2, 3, 4, 5, 6, 9, 12, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 32, 33, 35, 39}; dry_body(3, tier ? 3 : 2, o); }

// memory is there, but not as much as a datatype or topology needs
static void toolarge()
{
    guarded([&] {
        P2P &p = pp; Api *a = pick_api();
        static const long LIM[] = {1 << 12, 1 << 16, 1 << 20};
        static const int N[] = {0, 1, 100, 1000, 5000, 32767, 46341, 65536, 1 << 20, 1 << 26, 1 << 27, 1 << 28, (1 << 28) + 1, 1 << 29, 1 << 30, INT32_MAX - 1, INT32_MAX};
        static const int M[] = {0, 1, 2, 3, 16, 1024, 46341, 65535, 65536, 65537, 1 << 20, 1 << 29, 1 << 30, INT32_MAX};
        int k = choose(6, "constructor"); long lim = LIM[choose(3, "largest block there is")]; int n = N[choose(17, "count")], m = k == 0 ? 1 : M[choose(14, "block length")], b = choose(3, "base");
        p.begin(a);
        RType base = r_basic(MPI_CHAR); int bc = 1;
        if (b == 1) { RType x; mk_contig(a, x, 3, base); base = x; bc = 3; }
        if (b == 2) { RType x; mk_contig(a, x, 0, base); base = x; bc = 0; }
        double elems = (double)n * m * bc;
        if (elems == 0 && (double)n * std::max(m, 1) > 2e6) throw Skip();     // only time consuming
        if (k >= 2 && n > 70000) throw Skip();          // the argument arrays themselves
        env::alloc_max = lim; env::faulting = true;
        static std::vector<int> bl, dd; static std::vector<long> ld;
        if (k >= 2) { bl.assign(n + 1, m); dd.assign(n + 1, 0); ld.assign(n + 1, 0); for (int i = 0; i < n; i++) { dd[i] = i; ld[i] = i; } }
        int h = -4242; volatile int rc = -1;
        Term t = run([&] {
            switch (k) {
            case 0: rc = a->Type_contiguous(n, base.h, &h); break;
            case 1: rc = a->Type_vector(n, m, 1, base.h, &h); break;
            case 2: rc = a->Type_indexed(n, bl.data(), dd.data(), base.h, &h); break;
            case 3: rc = a->Type_hindexed(n, bl.data(), ld.data(), base.h, &h); break;
            case 4: rc = a->Type_create_indexed_block(n, m, dd.data(), base.h, &h); break;
            case 5: { std::vector<int> o(n + 1, base.h); rc = a->Type_struct(n, bl.data(), ld.data(), o.data(), &h); } break;
            }
        });
        if (t.kind == RETURNED) {
            if (env::fault_hits) fail("constructor %d of %d x %d returned %d although memory ran out", k, n, m, (int)rc);
            if (rc != MPI_SUCCESS) fail("constructor %d of %d x %d returned %d", k, n, m, (int)rc);
            if (elems > 4.0 * lim) fail("a datatype of %.0f elements was made without room for it", elems);
            int sz = -5;
            ok("Type_size", [&] { return a->Type_size(h, &sz); });
            if (sz != (int)elems) fail("a datatype of %.0f characters has size %d", elems, sz);
        } else {
            if (t.kind == CRASHED || t.kind == HUNG || (t.kind == EXITED && !(t.code & 255))) fail("constructor %d of %d x %d: %s (%s)", k, n, m, kindname(t.kind), t.why ? t.why : "");
            if (!env::fault_hits && elems <= INT32_MAX) fail("constructor %d of %d x %d ended the process although memory was there", k, n, m);
        }
        env::check_heap("constructor");
        state(mix(mix(k, n), mix(m, b)) + lim);
    });
}
// a topology whose description does not fit
static void hugecart()
{
    P2P &p = pp; Api *a = pick_api(); p.begin(a);
    static const int N[] = {1 << 20, 1 << 29, 1 << 30, (1 << 30) + 1};
    int n = N[choose(4, "dimensions")];
    static int *zeros = (int *)mmap(NULL, (size_t)INT32_MAX * 4 + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (zeros == MAP_FAILED) fail("harness: no address space");
    env::alloc_max = 1 << 16;
    int h = -4242; volatile int rc = -1;
    Term t = run([&] { rc = a->Cart_create(MPI_COMM_WORLD, n, zeros, zeros, 0, &h); });
    if (t.kind == RETURNED) {
        if (env::fault_hits) fail("Cart_create of %d dimensions returned %d although memory ran out", n, (int)rc);
        int r = -1; ok("Comm_rank", [&] { return a->Comm_rank(h, &r); });
        if (rc != MPI_SUCCESS || r != 0) fail("Cart_create of %d dimensions: returned %d, rank %d", n, (int)rc, r);
    } else if (t.kind == CRASHED || t.kind == HUNG || (t.kind == EXITED && !(t.code & 255))) fail("Cart_create of %d dimensions: %s (%s)", n, kindname(t.kind), t.why ? t.why : "");
    else if (!env::fault_hits) fail("Cart_create of %d dimensions ended the process although memory was there", n);
    env::check_heap("Cart_create");
    state(n);
}
std::vector<Space> mc_spaces()
{
    return {
        {"every", "every program of three operations out of 56, from before or after initialization, every allocation it makes failing, alone or with all later ones", every},
        {"deeper", "every program of four (thorough five) operations out of 18", deeper},
        {"blocks", "one (thorough two) operations when 250..255 objects exist, so that the handle table has to grow", blocks},
        {"blocks2", "two (thorough three) operations out of 11 at the end of a block of handles", blocks2},
        {"dry", "three operations, then two (thorough three) with no memory left at all: each ends the process cleanly or behaves as the model says; then memory is back and everything is drained", dry},
        {"toolarge", "six constructors, counts and block lengths up to INT_MAX, largest available block of 4 KB, 64 KB or 1 MB", toolarge},
        {"hugecart", "topologies of up to 2^30+1 dimensions, largest available block of 64 KB", hugecart},
    };
}
