#include "p2p.h"
#include <string>
#include <math.h>
using namespace mc;
const char *mc_property = "C23";
extern "C" {
void mcf_const_(const char *name, int *len, int *value, int *found);
int mpi_error_string_(int *, char *, int *, int *, long);
void mpi_get_library_version_(char *, int *, int *, long);
int mpi_get_processor_name_(char *, int *, int *, long);
void mpi_get_version_(int *, int *, int *);
double mpi_wtime_(void);
}
static bool fconst(const std::string &n, int &v) { int l = (int)n.size(), f = 0; mcf_const_(n.c_str(), &l, &v, &f); return f; }

// a library state in which the queries are made
static void stage(int k)
{
    static P2P &p = pp;
    if (k == 0) return;
    p.begin(api_c);
    if (k >= 2) { p.send(SM_ISEND, 0, 5, p.fresh(1, p.t_int), 1, p.t_int); p.comm_new(0, 0); p.irecv(1, 6, p.fresh(1, p.t_int), 1, p.t_int); }
    if (k == 3) ok("Finalize", [&] { return p.api->Finalize(); });
}
// a buffer of n bytes with an inaccessible page right behind or before it; b: the byte it is filled with
struct Buf {
    char *page, *p; size_t n; int where; unsigned char b;
    Buf(size_t n_, int where_, int b_) : n(n_), where(where_), b((unsigned char)b_)
    {
        static char *pg = (char *)pages(8192);
        page = pg; memset(page, b, 8192);
        p = where == 0 ? page + 8192 - n : where == 1 ? page : page + 3001;
    }
    void outside(const char *what)
    {
        for (char *c = page; c < page + 8192; c++) if ((c < p || c >= p + n) && (unsigned char)*c != b) fail("%s wrote %ld bytes %s its buffer", what, (long)(c < p ? p - c : c - (p + n) + 1), c < p ? "before" : "past");
    }
};
static const int FILLS[] = {0, ' ', 'x', 0xff};
struct Out { int g0, v, g1; Out() : g0(0x31313131), v(-4242), g1(0x31313131) {} void check(const char *w) { if (g0 != 0x31313131 || g1 != 0x31313131) fail("%s wrote outside the result length", w); } };
static void text_ok(const char *what, Buf &b, Out &len, size_t cap)
{
    b.outside(what); len.check(what);
    size_t l = strnlen(b.p, cap);
    if (l >= cap) fail("%s: the text is not terminated within %zu bytes", what, cap);
    if (len.v != (int)l) fail("%s: result length %d, the text has %zu characters", what, len.v, l);
}

// ---- clock
static double ask_time(bool f) { volatile double t = -1; Term e = run([&] { t = f ? mpi_wtime_() : MPI_Wtime(); }); if (e.kind != RETURNED) fail("MPI_Wtime %s", kindname(e.kind)); return t; }
// is t the double nearest to s + u/10^6, up to rounding
static void time_is(double t, int64_t s, int64_t u)
{
    long double want = (long double)s + (long double)u / 1e6L;
    long double ulp = nextafter((double)want, INFINITY) - (double)want;
    if (fabsl((long double)t - want) > 2 * ulp + 1e-10L) fail("MPI_Wtime gives %.7f at %lld.%06lld", t, (long long)s, (long long)u);
}
static const int64_t SECS[] = {0, 1, 59, 1000000, 2147483646LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 8589934591LL};
// every microsecond value
static void micros()
{
    int64_t s = SECS[choose(10, "seconds")]; int blk = choose(500, "block of 2000 microseconds"), f = choose(2, "binding");
    double last = -1; bool fine = s < 4000000000LL;
    for (int u = blk * 2000; u < blk * 2000 + 2000; u++) {
        env::clock_sec = s; env::clock_usec = u;
        double t = ask_time(f);
        time_is(t, s, u);
        if (fine && last >= 0 && !(t > last)) fail("MPI_Wtime gives %.7f at %lld.%06d and %.7f one microsecond before", t, (long long)s, u, last);
        last = t;
    }
    state(mix(s, blk));
}
// elapsed times between any two of a set of instants, in any library state
static void elapsed()
{
    static const int64_t U[] = {0, 1, 2, 499999, 500000, 999998, 999999};
    static const int64_t S2[] = {0, 1, 2, 3, 60, 86400, 31536000, 1700000000, 2147483647LL, 2147483648LL, 4294967296LL};
    int st = choose(4, "library state");
    int64_t s1 = SECS[choose(10, "seconds")], u1 = U[choose(7, "microseconds")], ds = S2[choose(11, "seconds later")], u2 = U[choose(7, "microseconds")];
    if (s1 + ds > 9000000000LL) throw Skip();
    if (ds == 0 && u2 < u1) throw Skip();
    int f = choose(4, "bindings");
    env::clock_sec = s1; env::clock_usec = u1;
    stage(st);
    double a = ask_time(f & 1);
    env::clock_sec = s1 + ds; env::clock_usec = u2;
    double b = ask_time(f & 2);
    time_is(a, s1, u1); time_is(b, s1 + ds, u2);
    double want = (double)ds + (double)(u2 - u1) / 1e6;
    if (fabs((b - a) - want) > 4e-6) fail("elapsed time %.7f measured as %.7f", want, b - a);
    // the clock set back is reported as well
    env::clock_sec = s1; env::clock_usec = u1;
    if (ask_time(f & 2) != a) fail("MPI_Wtime does not follow the clock");
    state(mix(mix(s1, u1), mix(ds, u2)));
}
// a clock that cannot be read ends the process
static void noclock()
{
    int st = choose(4, "library state"), f = choose(2, "binding"), n = choose(3, "readings before");
    stage(st);
    for (int i = 0; i < n; i++) { env::clock_sec = 100 + i; time_is(ask_time(f), 100 + i, 0); }
    env::clock_fail = 1;
    Term t = run([&] { volatile double x = f ? mpi_wtime_() : MPI_Wtime(); (void)x; });
    if (t.kind == RETURNED) fail("MPI_Wtime returned although the clock cannot be read");
    if (t.kind == CRASHED || t.kind == HUNG || (t.kind == EXITED && !(t.code & 255))) fail("MPI_Wtime %s", kindname(t.kind));
    state(st * 8 + f * 4 + n);
}

// ---- processor name
static int get_name(bool f, char *p, int *l)
{
    Out ie;
    if (!f) return MPI_Get_processor_name(p, l);
    mpi_get_processor_name_(p, l, &ie.v, MPI_MAX_PROCESSOR_NAME);
    ie.check("mpi_get_processor_name"); return ie.v;
}
static void names()
{
    int st = choose(4, "library state"), f = choose(2, "binding"), kind = choose(3, "characters"), len = choose(tier ? 1100 : 301, "length of the host name"), strict = choose(2, "long names refused"), where = choose(3, "buffer"), fl = FILLS[choose(4, "fill")];
    static char host[1200];
    for (int i = 0; i < len; i++) host[i] = kind == 0 ? "abcdefghij-0123456789."[i % 22] : kind == 1 ? (char)(1 + (i * 7) % 255) : ' ';
    host[len] = 0;
    env::hostname = host; env::hostname_strict = strict;
    stage(st);
    Buf b(MPI_MAX_PROCESSOR_NAME, where, fl); Out l;
    note("host name of %d characters", len);
    ok("Get_processor_name", [&] { return get_name(f, b.p, &l.v); });
    text_ok("Get_processor_name", b, l, MPI_MAX_PROCESSOR_NAME);
    int want = std::min(len, MPI_MAX_PROCESSOR_NAME - 1);
    bool obtained = l.v == want && !memcmp(b.p, host, want);
    if (!obtained && (len < MPI_MAX_PROCESSOR_NAME || !strict)) fail("host name of %d characters reported as \"%.200s\"", len, b.p);
    if (!obtained) {      // the system refused the long name: the fixed text
        std::string a = b.p;
        env::hostname_fail = 1; Buf b2(MPI_MAX_PROCESSOR_NAME, where, fl ^ 0x15); Out l2;
        ok("Get_processor_name", [&] { return get_name(f, b2.p, &l2.v); });
        if (a != b2.p) fail("host name of %d characters reported as \"%.200s\"", len, a.c_str());
    }
    state(mix(len, kind * 4 + strict * 2));
}
static void noname()
{
    int st = choose(4, "library state"), f = choose(2, "binding"), f2 = choose(2, "binding"), fl = choose(4, "fill"), fl2 = choose(4, "fill"), where = choose(3, "buffer");
    stage(st);
    env::hostname_fail = 1;
    static char keep[MPI_MAX_PROCESSOR_NAME]; int keepl;
    { Buf b(MPI_MAX_PROCESSOR_NAME, where, FILLS[fl]); Out l; ok("Get_processor_name", [&] { return get_name(f, b.p, &l.v); }); text_ok("Get_processor_name", b, l, MPI_MAX_PROCESSOR_NAME); memcpy(keep, b.p, l.v + 1); keepl = l.v; }
    if (keepl == 0) fail("no text when the host name cannot be obtained");
    env::hostname_fail = 0; env::hostname = "between";
    { Buf b(MPI_MAX_PROCESSOR_NAME, where, FILLS[fl]); Out l; ok("Get_processor_name", [&] { return get_name(f2, b.p, &l.v); }); text_ok("Get_processor_name", b, l, MPI_MAX_PROCESSOR_NAME); if (strcmp(b.p, "between")) fail("host name reported as \"%.150s\"", b.p); }
    env::hostname_fail = 1; env::hostname = "other";
    { Buf b(MPI_MAX_PROCESSOR_NAME, where, FILLS[fl2]); Out l; ok("Get_processor_name", [&] { return get_name(f2, b.p, &l.v); }); text_ok("Get_processor_name", b, l, MPI_MAX_PROCESSOR_NAME); if (l.v != keepl || strcmp(b.p, keep)) fail("the text for an unknown host name differs: \"%.150s\" and \"%.150s\"", keep, b.p); }
    state(st * 64 + f * 32 + fl * 4 + fl2);
}

// ---- error strings
static int get_err(bool f, int c, char *p, int *l)
{
    Out ie; int cc = c;
    if (!f) return MPI_Error_string(c, p, l);
    mpi_error_string_(&cc, p, l, &ie.v, MPI_MAX_ERROR_STRING);
    if (cc != c) fail("mpi_error_string changed the error code");
    ie.check("mpi_error_string"); return ie.v;
}
static void one_error(int f, int c, int where, int fl)
{
    static char *pg = (char *)pages(4096);
    char *p = where == 0 ? pg + 4096 - MPI_MAX_ERROR_STRING : pg + 64;
    char *lo = where == 0 ? pg + 4096 - MPI_MAX_ERROR_STRING - 64 : pg, *hi = where == 0 ? pg + 4096 : pg + 64 + MPI_MAX_ERROR_STRING + 64;
    memset(lo, fl, hi - lo);
    Out l;
    ok("Error_string", [&] { return get_err(f, c, p, &l.v); });
    l.check("Error_string");
    for (char *q = lo; q < hi; q++) if ((q < p || q >= p + MPI_MAX_ERROR_STRING) && (unsigned char)*q != (unsigned char)fl) fail("Error_string(%d) wrote outside its buffer", c);
    size_t n = strnlen(p, MPI_MAX_ERROR_STRING);
    if (n >= MPI_MAX_ERROR_STRING) fail("Error_string(%d): not terminated", c);
    if (l.v != (int)n) fail("Error_string(%d): result length %d, the text has %zu characters", c, l.v, n);
    char num[32]; snprintf(num, sizeof num, "%d", c);
    const char *at = strstr(p, num);
    bool okay = false;
    for (; at && !okay; at = strstr(at + 1, num)) { char after = at[strlen(num)]; bool dig = after >= '0' && after <= '9'; bool pre = at > p && ((at[-1] >= '0' && at[-1] <= '9') || (c >= 0 && at[-1] == '-')); okay = !dig && !pre; }
    if (!okay) fail("Error_string(%d) gives \"%.120s\", which does not name the code", c, p);
}
static void errors()
{
    int f = choose(2, "binding"), where = choose(2, "buffer"), fl = FILLS[choose(4, "fill")], k = choose(tier ? 1024 : 128, "block of 512 codes");
    int from = (k - (tier ? 512 : 64)) * 512;
    for (int c = from; c < from + 512; c++) one_error(f, c, where, fl);
    state(mix(k, f * 8 + where));
}
static void error_edges()
{
    int st = choose(4, "library state"), f = choose(2, "binding"), where = choose(2, "buffer"), fl = FILLS[choose(4, "fill")], sh = choose(32, "power of two"), d = choose(9, "offset") - 4, sg = choose(2, "sign");
    long v = (sg ? -(1L << sh) : (1L << sh)) + d;
    if (v > INT32_MAX || v < INT32_MIN) throw Skip();
    stage(st);
    one_error(f, (int)v, where, fl);
    long p10 = 1; for (int i = 0; i < sh % 10; i++) p10 *= 10;
    v = (sg ? -p10 : p10) + d;
    if (v <= INT32_MAX && v >= INT32_MIN) one_error(f, (int)v, where, fl);
    state(mix(v, st));
}

// ---- versions
static void versions()
{
    int st = choose(4, "library state"), st2 = choose(2, "asked again later"), where = choose(3, "buffer"), fl = FILLS[choose(4, "fill")];
    stage(st);
    static char ctext[MPI_MAX_LIBRARY_VERSION_STRING]; int clen;
    for (int round = 0; round <= st2; round++) {
        { Buf b(MPI_MAX_LIBRARY_VERSION_STRING, where, fl); Out l;
          ok("Get_library_version", [&] { return MPI_Get_library_version(b.p, &l.v); });
          text_ok("Get_library_version", b, l, MPI_MAX_LIBRARY_VERSION_STRING);
          if (round && (l.v != clen || strcmp(b.p, ctext))) fail("the library version changed to \"%.100s\"", b.p);
          clen = l.v; memcpy(ctext, b.p, clen + 1); }
        if (clen == 0 || ctext[clen - 1] == ' ') fail("library version is \"%s\"", ctext);
        if (strncmp(ctext, "mpi-serial", 10)) fail("library version is \"%s\"", ctext);
        { Buf b(MPI_MAX_LIBRARY_VERSION_STRING, where, fl); Out l, ie;
          Term t = run([&] { mpi_get_library_version_(b.p, &l.v, &ie.v, MPI_MAX_LIBRARY_VERSION_STRING); });
          if (t.kind != RETURNED) fail("mpi_get_library_version %s", kindname(t.kind));
          b.outside("mpi_get_library_version"); l.check("mpi_get_library_version"); ie.check("mpi_get_library_version");
          if (ie.v != MPI_SUCCESS) fail("mpi_get_library_version: error %d", ie.v);
          if (l.v != clen || memcmp(b.p, ctext, clen)) fail("mpi_get_library_version gives \"%.80s\", length %d", b.p, l.v);
          for (int i = clen; i < MPI_MAX_LIBRARY_VERSION_STRING; i++) if (b.p[i] != ' ') fail("mpi_get_library_version: character %d is %d, not a blank", i + 1, b.p[i]); }
        int cv = 0, cs = 0, wantv = -1, wants = -1;
        if (!fconst("MPI_VERSION", wantv) || !fconst("MPI_SUBVERSION", wants)) fail("mpif.h does not define the version");
        Out v, s; ok("Get_Version", [&] { return MPI_Get_Version(&v.v, &s.v); }); v.check("Get_Version"); s.check("Get_Version");
        Out v2, s2, ie; Term t = run([&] { mpi_get_version_(&v2.v, &s2.v, &ie.v); });
        if (t.kind != RETURNED) fail("mpi_get_version %s", kindname(t.kind));
        v2.check("mpi_get_version"); s2.check("mpi_get_version"); ie.check("mpi_get_version");
        if (ie.v != MPI_SUCCESS) fail("mpi_get_version: error %d", ie.v);
        if (v.v != wantv || s.v != wants || v2.v != wantv || s2.v != wants) fail("version is %d.%d in C, %d.%d in Fortran, mpif.h says %d.%d", v.v, s.v, v2.v, s2.v, wantv, wants);
        if (st == 1 && st2) { pp.send(SM_ISEND, 0, 5, pp.fresh(1, pp.t_int), 1, pp.t_int); }
    }
    state(st * 8 + st2);
}
std::vector<Space> mc_spaces()
{
    return {
        {"micros", "every microsecond of ten seconds between 0 and 2^33, both languages", micros},
        {"elapsed", "all pairs of instants from 70 first and 77 second ones in four library states", elapsed},
        {"noclock", "the clock fails after 0..2 readings", noclock},
        {"names", "host names of each length 0..300 (thorough 1100), three kinds of characters, cut silently or refused, buffer before or behind inaccessible memory, four contents", names},
        {"noname", "host name not obtainable, then obtainable, then not", noname},
        {"errors", "every error code within 32768 (thorough 262144) of zero, buffer at the end of memory or not", errors},
        {"error_edges", "error codes around every power of two and ten, both signs, four library states", error_edges},
        {"versions", "library and numeric version in four library states, both languages", versions},
    };
}
