// Stateless exhaustive explorer for the real mpi-serial library.
// A space is a body of code that calls choose(n); the explorer runs the body once for every
// possible sequence of choices, each time from the pristine library image.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <setjmp.h>
#include <string>
#include <vector>
extern "C" {
#include "mpi.h"
// public entry points that mpi.h of some versions does not declare
int MPI_Init_thread(int *argc, char **argv[], int required, int *provided);
int MPI_Get_address(void *loc, MPI_Aint *address);
int MPI_Address(void *loc, MPI_Aint *address);
int MPI_Info_free(MPI_Info *info);
int MPI_Get_Version(int *v, int *s);
}

namespace mc {
extern int tier;        // 0 quick, 1 thorough
extern int hang_limit;     // seconds a call may take
extern bool tracing;    // replay or sample: note() records text
extern int fill;        // byte for fresh heap and scrubbed stack memory

struct Violation { std::string key, msg; };
struct PrefixStop {};
struct Skip {};         // the execution is outside the space (a redundant combination)
struct FaultDeath { const char *what; };   // the process ended cleanly because an allocation failed

int choose(int n, const char *label = nullptr);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void failk(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void state(uint64_t h); // fingerprint of a state of the model (plus what distinguishes it)
inline uint64_t mix(uint64_t h, uint64_t v) { h = (h + 0x9e3779b97f4a7c15ULL) * 0xbf58476d1ce4e5b9ULL; h ^= h >> 29; h = (h ^ v) * 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }

// ---- calling the library -------------------------------------------------------------------
enum { RETURNED = 0, ABORTED, EXITED, CRASHED, HUNG };
struct Term { int kind; int code; const char *why; };
const char *kindname(int k);
extern volatile int in_guard;
extern sigjmp_buf guard_env;
extern volatile Term guard_term;
void guard_enter();
void guard_leave();
void scrub();
extern uint64_t *op_counter;
namespace env {
extern long fault_hits;             // allocations that failed so far
extern bool faulting;               // call() then expects a clean termination exactly when one has failed
}

template <class F> __attribute__((noinline)) Term run_here(F &f)
{
    guard_enter();
    if (sigsetjmp(guard_env, 0) == 0) {
        f();
        guard_leave();
        return Term{RETURNED, 0, ""};
    }
    guard_leave();
    return Term{guard_term.kind, guard_term.code, (const char *)guard_term.why};
}
// calls may be made by another thread (see threads.h)
extern Term (*remote)(Term (*fn)(void *), void *arg);
template <class F> Term run(F f)
{
    if (!remote) return run_here(f);
    return remote([](void *p) { return run_here(*(F *)p); }, &f);
}
// the call must return; gives the library's return code
template <class F> int call(const char *what, F f)
{
    volatile int rc = -12345;
    Term t = run([&] { rc = f(); });
    if (env::faulting && env::fault_hits) {
        if (t.kind == RETURNED) fail("%s: returned %d although memory ran out", what, (int)rc);
        if (t.kind == CRASHED || t.kind == HUNG || (t.kind == EXITED && (t.code & 0xff) == 0)) fail("%s: memory ran out and it %s (code %d %s), expected a clean termination", what, kindname(t.kind), t.code, t.why ? t.why : "");
        throw FaultDeath{what};
    }
    if (t.kind != RETURNED) fail("%s: did not return but %s (code %d %s)", what, kindname(t.kind), t.code, t.why ? t.why : "");
    return rc;
}
// the call must return MPI_SUCCESS
template <class F> void ok(const char *what, F f)
{
    int rc = call(what, f);
    if (rc != MPI_SUCCESS) fail("%s: returned %d, expected MPI_SUCCESS", what, rc);
}
// the call must end the process with a failure status
template <class F> Term dies(const char *what, F f)
{
    volatile int rc = 0;
    Term t = run([&] { rc = f(); });
    if (t.kind == RETURNED) fail("%s: returned %d, expected the process to end", what, (int)rc);
    if (t.kind == EXITED && (t.code & 0xff) == 0) fail("%s: exited with a success status", what);
    if (t.kind == CRASHED || t.kind == HUNG) fail("%s: %s (%s), expected a clean termination", what, kindname(t.kind), t.why ? t.why : "");
    return t;
}

// ---- environment seen by the library -------------------------------------------------------
namespace env {
extern bool reuse;                  // recycle freed blocks (LIFO), keeping stale contents
extern long alloc_count, live_blocks, live_bytes;
extern long fault_at;               // index of the allocation that fails (-1: none)
extern bool fault_sticky;           // all later ones fail as well
extern int64_t clock_sec, clock_usec; extern int clock_fail; extern long clock_reads;
extern const char *hostname; extern int hostname_fail, hostname_strict;
extern size_t alloc_min;            // allocations of at least this size only are counted as fault points
extern size_t alloc_max;            // larger allocations fail (0: no limit)
void check_heap(const char *when);  // canaries, freed blocks
}

extern void (*at_start)(); extern const char *(*at_end)();      // hooks of every execution
void pristine();                    // the library image and its memory as at the start of an execution

// ---- harness memory ------------------------------------------------------------------------
void *pages(size_t bytes);          // fresh pages outside the arena, PROT_NONE on both sides, kept for the process

struct Space {
    const char *name;
    const char *bounds;             // what is enumerated, in words
    void (*body)();
    int min_tier = 0;               // 1: only in the thorough tier
    int serial = 0;                 // do not parallelise (few, heavy executions)
};
} // namespace mc

extern const char *mc_property;
extern std::vector<mc::Space> mc_spaces();
