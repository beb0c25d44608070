#include "p2p.h"
using namespace mc;
const char *mc_property = "C28";
// The Fortran side passes its own constants and two consecutive elements of an array of each type; the library
// compares them with its own. Here the Fortran side is played with every deviation from the right values.
extern "C" {
void mpi_init_fort_(int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *,
                    int *, int *, int *, int *, int *, void *, void *, int *, void *, void *, int *, void *, void *, int *, void *, void *, int *, void *, void *, int *) __attribute__((weak));
void mcf_sizes_(int *);
}
#ifndef FREAL
#define FREAL 4
#endif
#ifndef FDOUBLE
#define FDOUBLE 8
#endif
#ifndef FMISFIT
#define FMISFIT 0
#endif
enum { SRC = 13, TAG_ = 14, ERR_ = 15, INT_ = 16, LOG_, REAL_, DBL_, CPX_, NCONST };
static const char *const NAME[NCONST] = {"MPI_COMM_WORLD", "MPI_ANY_SOURCE", "MPI_ANY_TAG", "MPI_PROC_NULL", "MPI_ROOT", "MPI_COMM_NULL", "MPI_REQUEST_NULL", "MPI_GROUP_NULL", "MPI_GROUP_EMPTY",
    "MPI_UNDEFINED", "MPI_MAX_ERROR_STRING", "MPI_MAX_PROCESSOR_NAME", "MPI_STATUS_SIZE", "MPI_SOURCE", "MPI_TAG", "MPI_ERROR", "MPI_INTEGER", "MPI_LOGICAL", "MPI_REAL", "MPI_DOUBLE_PRECISION", "MPI_COMPLEX"};
struct Side { int c[NCONST]; int size[5]; };
static const int RIGHT_SIZE[5] = {4, 4, FREAL, FDOUBLE, 2 * FREAL};
static Side right()
{
    Side s = {{MPI_COMM_WORLD, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_PROC_NULL, MPI_ROOT, MPI_COMM_NULL, MPI_REQUEST_NULL, MPI_GROUP_NULL, MPI_GROUP_EMPTY, MPI_UNDEFINED, MPI_MAX_ERROR_STRING, MPI_MAX_PROCESSOR_NAME,
               (int)(sizeof(MPI_Status) / sizeof(int)), 1 + (int)(offsetof(MPI_Status, MPI_SOURCE) / sizeof(int)), 1 + (int)(offsetof(MPI_Status, MPI_TAG) / sizeof(int)), 1 + (int)(offsetof(MPI_Status, MPI_ERROR) / sizeof(int)),
               MPI_INTEGER, MPI_LOGICAL, MPI_REAL, MPI_DOUBLE_PRECISION, MPI_COMPLEX}, {}};
    for (int i = 0; i < 5; i++) s.size[i] = RIGHT_SIZE[i];
    return s;
}
// predefined types of one element, and its size
static const std::vector<Basic> &plain() { static std::vector<Basic> v; if (v.empty()) for (auto &b : basics()) if (!b.kind2) v.push_back(b); return v; }
static int size_named(int h) { for (auto &b : plain()) if (b.handle == h) return b.size; return -1; }
static bool fits(const Side &s)
{
    Side r = right();
    for (int i = 0; i < NCONST; i++) if (i != LOG_ && i != REAL_ && i != CPX_ && s.c[i] != r.c[i]) return false;
    for (int i = 0; i < 5; i++) if (s.size[i] != size_named(s.c[INT_ + i])) return false;
    return true;
}
static void works(P2P &p)
{
    int s = -1; ok("Comm_size", [&] { return p.api->Comm_size(MPI_COMM_WORLD, &s); }); if (s != 1) fail("after initialization MPI_COMM_WORLD has size %d", s);
    RType I = r_basic(MPI_INT); char *a = p.fresh(2, I), *b = p.fresh(2, I);
    p.irecv(0, 5, b, 2, I); p.send(SM_SEND, 0, 5, a, 2, I); p.wait(0);
}
static void start(Side s)
{
    P2P &p = pp; p.begin(pick_api());
    int f = 0; ok("Finalize", [&] { return p.api->Finalize(); });
    static char mem[5 * 64]; static int status[8]; Side was = s; int ierr = -777;
    auto at = [&](int i, int k) { return (void *)(mem + 64 * i + (k ? s.size[i] : 0)); };
    auto f_ = [&] {
        mpi_init_fort_(s.c, s.c + 1, s.c + 2, s.c + 3, s.c + 4, s.c + 5, s.c + 6, s.c + 7, s.c + 8, s.c + 9, s.c + 10, s.c + 11, s.c + 12, s.c + 13, s.c + 14, s.c + 15,
                       status, status + was.c[SRC] - 1, status + was.c[TAG_] - 1, status + was.c[ERR_] - 1,
                       s.c + 16, at(0, 0), at(0, 1), s.c + 17, at(1, 0), at(1, 1), s.c + 18, at(2, 0), at(2, 1), s.c + 19, at(3, 0), at(3, 1), s.c + 20, at(4, 0), at(4, 1), &ierr);
        return ierr;
    };
    (void)f;
    if (!fits(s)) { dies("initialization with a Fortran side that does not fit", f_); return; }
    ok("initialization with a Fortran side that fits", f_);
    if (memcmp(&s, &was, sizeof s)) fail("initialization changed a constant of the Fortran side");
    works(p);
}
static std::vector<int> values(int i)
{
    Side r = right(); std::vector<int> v = {r.c[i]};
    auto add = [&](int x) { if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); };
    if (i >= INT_) { for (auto &b : plain()) add(b.handle); return v; }
    if (i >= SRC) { for (int x = 1; x <= 5; x++) add(x); return v; }
    for (int x : {r.c[i] + 1, r.c[i] - 1, -r.c[i], 0, 1, -1, -2, 2, r.c[i] + 256, r.c[i] ^ 0x10000, 0x7fffffff, (int)0x80000000, 127, 129, 64, 256}) add(x);
    return v;
}
// one constant is wrong
static void one()
{
    Side s = right(); int i = choose(NCONST, "constant"); auto v = values(i); s.c[i] = v[choose((int)v.size(), "value")];
    note("%s is %d", NAME[i], s.c[i]); state(mix(i, (unsigned)s.c[i])); start(s);
}
// two constants are wrong, also by being exchanged
static void two()
{
    Side s = right(); int i = choose(NCONST, "constant"), j = choose(NCONST, "other constant"); if (j <= i) throw Skip();
    auto v = values(i), w = values(j); int a = choose(std::min(7, (int)v.size()), "value"), b = choose(std::min(7, (int)w.size()), "value");
    if (a == 0 && b == 0) { std::swap(s.c[i], s.c[j]); if (i < SRC && j >= INT_) throw Skip(); if (j >= INT_ && i < INT_) throw Skip(); }
    else { s.c[i] = v[a]; s.c[j] = w[b]; }
    note("%s is %d, %s is %d", NAME[i], s.c[i], NAME[j], s.c[j]); state(mix(i * 32 + j, a * 8 + b)); start(s);
}
// storage sizes of the five types
static void sizes()
{
    Side s = right(); static const int S[] = {4, 8, 16, 2, 1, 32, 0}; uint64_t h = 0;
    for (int i = 0; i < 5; i++) { int k = choose(tier ? 7 : 5, "size"); s.size[i] = S[k]; h = h * 8 + k; }
    note("INTEGER %d, LOGICAL %d, REAL %d, DOUBLE PRECISION %d, COMPLEX %d bytes", s.size[0], s.size[1], s.size[2], s.size[3], s.size[4]); state(h); start(s);
}
// a type named by another handle, with any size
static void named()
{
    Side s = right(); int i = choose(5, "type"); auto &v = plain(); int k = choose((int)v.size(), "handle"); static const int S[] = {1, 2, 4, 8, 16, 32, 3, 12, 0}; int z = choose(9, "size");
    s.c[INT_ + i] = v[k].handle; s.size[i] = S[z]; note("%s is %d, its type has %d bytes", NAME[INT_ + i], s.c[INT_ + i], s.size[i]); state(i * 1024 + k * 16 + z); start(s);
}
// places of the fields in a Fortran status
static void fields()
{
    Side s = right(); uint64_t h = 0; for (int i = SRC; i <= ERR_; i++) { s.c[i] = 1 + choose(7, "index"); h = h * 8 + s.c[i]; }
    note("MPI_SOURCE %d, MPI_TAG %d, MPI_ERROR %d", s.c[SRC], s.c[TAG_], s.c[ERR_]); state(h); start(s);
}
// the real Fortran side, compiled with sizes that fit the library or not
static void compiled()
{
    pristine(); int how = choose(3, "initialization"), again = choose(2, "earlier initialization from C"), prov = -1; P2P &p = pp;
    if (again) { ok("Init", [&] { return api_c->Init(); }); ok("Finalize", [&] { return api_c->Finalize(); }); }
    auto f = [&] { return how == 0 ? api_f->Init() : api_f->Init_thread(how - 1, &prov); };
    state(how * 2 + again);
    if (FMISFIT) { dies("initialization from Fortran code of other sizes", f); return; }
    ok("initialization from Fortran", f);
    ok("Finalize", [&] { return api_f->Finalize(); }); p.begin(api_f); works(p);
}
std::vector<Space> mc_spaces()
{
    if (FMISFIT) return {{"compiled", "Fortran code compiled with other sizes than the library, three initializations, also after one from C", compiled}};
    if (!mpi_init_fort_) return {{"compiled", "the Fortran code compiled to fit the library", compiled}};   // the comparison goes by another name
    return {
        {"one", "each of 21 constants with up to 16 values (types: every predefined one)", one},
        {"two", "every pair of constants with up to seven values each, or exchanged", two},
        {"sizes", "every combination of five (thorough seven) sizes of the five types", sizes},
        {"named", "each type named by every predefined type, with nine sizes", named},
        {"fields", "all indices 1..7 of the three status fields", fields},
        {"compiled", "the Fortran code compiled to fit the library", compiled},
    };
}
