// The clock as compiled Fortran code sees it, for every size of DOUBLE PRECISION the library can be configured for.
#include "mc.h"
using namespace mc;
const char *mc_property = "C23";
extern "C" { void mcf_wtime_(int64_t *); void mcf_mod_wtime_(int64_t *); double MPI_Wtime(void); }
static const int64_t SECS[] = {0, 1, 59, 1000000, 1000000000, 2147483646LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 8589934591LL};
static void clock_seen()
{
    int64_t s = SECS[choose(11, "seconds")], us = -1; int k = choose(2000, "microseconds"), module = choose(2, "module");
    int64_t u = k < 1000 ? k * 1000 + k % 7 : 999999 - (k - 1000) * 13;
    env::clock_sec = s; env::clock_usec = u;
    ok("MPI_WTIME", [&] { module ? mcf_mod_wtime_(&us) : mcf_wtime_(&us); return 0; });
    int64_t want = s * 1000000 + u;
    if (us < want - 1 || us > want + 1) fail("MPI_WTIME in Fortran gives %lld microseconds at %lld.%06lld", (long long)us, (long long)s, (long long)u);
    double c = -1; ok("MPI_Wtime", [&] { c = MPI_Wtime(); return 0; });
    if (c < want / 1e6 - 2e-6 || c > want / 1e6 + 2e-6) fail("MPI_Wtime gives %.7f at %lld.%06lld", c, (long long)s, (long long)u);
    state(mix(s, u));
}
std::vector<Space> mc_spaces() { return {{"fortran_clock", "22000 instants read by compiled Fortran code through mpif.h and through the module", clock_seen}}; }
