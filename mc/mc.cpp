#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <signal.h>
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/utsname.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <atomic>
#include <algorithm>

namespace mc {
int tier = 0;
bool tracing = false;
int fill = 0xA5;

// ------------------------------------------------------------------ guarded calls
volatile int in_guard = 0;
sigjmp_buf guard_env;
volatile Term guard_term;
static uint64_t local_ops;
uint64_t *op_counter = &local_ops;
static volatile int hang_ticks;
static uint64_t hang_last;
int hang_limit = 20;       // seconds without return

const char *kindname(int k)
{
    static const char *n[] = {"returned", "aborted", "exited", "crashed", "hung"};
    return n[k];
}
__attribute__((noinline)) void scrub()
{
    volatile unsigned char a[6144];
    memset((void *)a, fill, sizeof a);
    __asm__ volatile("" : : "r"(a) : "memory");
}
Term (*remote)(Term (*)(void *), void *);
static volatile pthread_t guard_thread;
void guard_enter() { ++*op_counter; scrub(); guard_thread = pthread_self(); in_guard = 1; }
void guard_leave() { in_guard = 0; }
[[noreturn]] static void leave(int kind, int code, const char *why)
{
    guard_term.kind = kind; guard_term.code = code; guard_term.why = why;
    siglongjmp(guard_env, 1);
}

// ------------------------------------------------------------------ arena
namespace env {
bool reuse;
long alloc_count, live_blocks, live_bytes, fault_at = -1, fault_hits;
bool fault_sticky, faulting;
size_t alloc_min, alloc_max;
int64_t clock_sec, clock_usec; int clock_fail; long clock_reads;
const char *hostname; int hostname_fail, hostname_strict;
}
struct Hdr { uint64_t size; uint32_t magic; uint32_t live; };
static const uint32_t MAGIC = 0x6d63a110;
static const size_t ARENA = (size_t)3 << 30;
static const int TAIL = 16, CLASSES = 128;
static char *arena, *arena_top, *arena_hi;
static std::vector<Hdr *> freelist[CLASSES];
static bool freelist_used;
static char heap_msg[200];

static size_t span(size_t n) { return sizeof(Hdr) + ((n + 15) & ~(size_t)15) + TAIL; }
static void arena_reset()
{
    arena_top = arena;
    if (freelist_used) { for (auto &v : freelist) v.clear(); freelist_used = false; }
    env::reuse = false;
    env::alloc_count = env::live_blocks = env::live_bytes = env::fault_hits = 0;
    env::fault_at = -1; env::fault_sticky = false; env::alloc_min = env::alloc_max = 0; env::faulting = false;
    env::clock_sec = 1000000; env::clock_usec = 0; env::clock_fail = 0; env::clock_reads = 0;
    env::hostname = "mc-host"; env::hostname_fail = env::hostname_strict = 0;
    heap_msg[0] = 0;
}
static bool bad(Hdr *h, char *why, size_t cap)
{
    if (h->magic != MAGIC || h->live > 1) { snprintf(why, cap, "heap block header overwritten"); return true; }
    unsigned char *p = (unsigned char *)(h + 1);
    size_t full = (h->size + 15) & ~(size_t)15;
    for (size_t i = h->size; i < full + TAIL; i++)
        if (p[i] != 0xCB) { snprintf(why, cap, "write past the end of a %lu byte heap block (offset %zu)", (unsigned long)h->size, i); return true; }
    if (!h->live && !env::reuse) {
        size_t m = std::min<size_t>(h->size, 512);
        for (size_t i = 0; i < m; i++)
            if (p[i] != 0xDD) { snprintf(why, cap, "write into a freed %lu byte heap block (offset %zu)", (unsigned long)h->size, i); return true; }
    }
    return false;
}
void env::check_heap(const char *when)
{
    for (char *c = arena; c < arena_top;) {
        Hdr *h = (Hdr *)c;
        char why[160];
        if (bad(h, why, sizeof why)) fail("%s: %s", when, why);
        c += span(h->size);
    }
}
static void heap_fault(const char *why)
{
    snprintf(heap_msg, sizeof heap_msg, "%s", why);
    if (in_guard) leave(CRASHED, 0, heap_msg);
    fprintf(stderr, "mc: %s outside a guarded call\n", why);
    _exit(9);
}
static void *arena_alloc(size_t n, bool zero)
{
    long idx = -1;
    if (n >= env::alloc_min) idx = env::alloc_count++;
    if (env::fault_at >= 0 && idx >= 0 && (idx == env::fault_at || (env::fault_sticky && idx > env::fault_at))) { env::fault_hits++; errno = ENOMEM; return NULL; }
    if (env::alloc_max && n > env::alloc_max) { env::fault_hits++; errno = ENOMEM; return NULL; }
    if (n > ARENA) { env::fault_hits++; errno = ENOMEM; return NULL; }
    size_t cls = (n + 15) / 16;
    Hdr *h;
    if (env::reuse && cls < CLASSES && !freelist[cls].empty()) {
        h = freelist[cls].back(); freelist[cls].pop_back();
        h->size = n; h->live = 1;
        memset((char *)(h + 1) + n, 0xCB, ((n + 15) & ~(size_t)15) - n);
        if (zero) memset(h + 1, 0, n);
    } else {
        size_t s = span(n);
        if ((size_t)(arena + ARENA - arena_top) < s) { env::fault_hits++; errno = ENOMEM; return NULL; }
        h = (Hdr *)arena_top; arena_top += s;
        if (arena_top > arena_hi) arena_hi = arena_top;
        h->size = n; h->magic = MAGIC; h->live = 1;
        memset(h + 1, zero ? 0 : fill, n);
        memset((char *)(h + 1) + n, 0xCB, ((n + 15) & ~(size_t)15) - n + TAIL);
    }
    env::live_blocks++; env::live_bytes += n;
    return h + 1;
}
static void arena_free(void *p)
{
    if (!p) return;
    if ((char *)p < arena || (char *)p >= arena_top) { heap_fault("free of a pointer that was not allocated"); return; }
    Hdr *h = (Hdr *)p - 1;
    char why[160];
    if (h->magic == MAGIC && h->live == 0) { heap_fault("memory released twice"); return; }
    if (bad(h, why, sizeof why)) { heap_fault(why); return; }
    h->live = 0;
    env::live_blocks--; env::live_bytes -= h->size;
    size_t cls = (h->size + 15) / 16;
    if (env::reuse) { if (cls < CLASSES) { freelist[cls].push_back(h); freelist_used = true; } }
    else memset(p, 0xDD, h->size);
}
static size_t arena_size(void *p) { return ((Hdr *)p - 1)->size; }

void *pages(size_t bytes)
{
    size_t n = (bytes + 4095) & ~(size_t)4095;
    char *p = (char *)mmap(NULL, n + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || mprotect(p + 4096, n, PROT_READ | PROT_WRITE)) { perror("mc: pages"); _exit(3); }
    return p + 4096;
}

// ------------------------------------------------------------------ library image
struct Seg { char *base; size_t len; char *copy; };
static std::vector<Seg> segs;
static int find_seg(struct dl_phdr_info *info, size_t, void *)
{
    if (!info->dlpi_name || !strstr(info->dlpi_name, "libmpimc")) return 0;
    uintptr_t rs = 0, re = 0;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
            rs = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
            re = (rs + info->dlpi_phdr[i].p_memsz + 4095) & ~(uintptr_t)4095;
        }
    for (int i = 0; i < info->dlpi_phnum; i++) {
        const ElfW(Phdr) &ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
            uintptr_t s = info->dlpi_addr + ph.p_vaddr, e = s + ph.p_memsz;
            if (re > rs && s < re && e > rs) s = std::min(std::max(s, re), e);
            if (s < e) segs.push_back(Seg{(char *)s, (size_t)(e - s), NULL});
        }
        if (ph.p_type == PT_TLS && info->dlpi_tls_data) segs.push_back(Seg{(char *)info->dlpi_tls_data, (size_t)ph.p_memsz, NULL});
    }
    return 1;
}
static void image_save()
{
    dl_iterate_phdr(find_seg, NULL);
    if (segs.empty()) { fprintf(stderr, "mc: library image not found\n"); _exit(3); }
    for (auto &s : segs) { s.copy = (char *)malloc(s.len); memcpy(s.copy, s.base, s.len); }
}
static void image_restore() { for (auto &s : segs) memcpy(s.base, s.copy, s.len); }
void (*at_start)(); const char *(*at_end)();
void pristine() { image_restore(); arena_reset(); if (at_start) at_start(); }

// ------------------------------------------------------------------ exploration
static const int MAXC = 20000, SLOTS = 8;
struct Rec { char key[96]; char msg[1200]; int n; uint16_t c[MAXC]; int space; };
struct Shared {
    std::atomic<uint64_t> ticket;
    std::atomic<int> stop;
    std::atomic<int> nviol;
    std::atomic<int> nknown;
    std::atomic<uint64_t> execs, ops, states, skipped, choices;
    std::atomic<int> maxdepth;
    std::atomic<int> statefull;
    std::atomic<int> diverged;
    Rec viol[SLOTS];
    Rec known[SLOTS];
    struct { volatile int n; volatile int busy; uint16_t c[MAXC]; } cur[64];
    Rec sample[3];
};
static Shared *sh;
static std::atomic<uint64_t> *seen; static size_t seen_mask;
static uint64_t space_salt;

static std::vector<uint16_t> ch, lim;     // current choice vector and alternatives at each point
static size_t pos, forced, stop_at = SIZE_MAX;
static int wid = 0;
static std::string tracebuf;
static std::vector<std::string> known_keys;

int choose(int n, const char *label)
{
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) %s\n", n, label ? label : ""); _exit(3); }
    if (n == 1) return 0;
    if (pos >= stop_at) throw PrefixStop();
    if (pos >= (size_t)MAXC) { fprintf(stderr, "mc: too many choices\n"); _exit(3); }
    int v;
    if (pos < ch.size()) {
        v = ch[pos];
        if (lim[pos] == 0) lim[pos] = n;            // forced by a replay or a prefix
        if (lim[pos] != n || v >= n) {
            if (sh) sh->diverged = 1;
            fprintf(stderr, "mc: divergence at choice %zu: %d alternatives, %d before (value %d)\n", pos, n, lim[pos], v);
            _exit(4);
        }
    } else {
        v = 0;
        ch.push_back(0); lim.push_back(n);
    }
    if (sh) { sh->cur[wid].c[pos] = v; sh->cur[wid].n = (int)pos + 1; }
    pos++;
    if (tracing && label) note("  choose %s = %d of %d", label, v, n);
    return v;
}
void note(const char *fmt, ...)
{
    if (!tracing) return;
    char b[1000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    tracebuf += b; tracebuf += '\n';
}
static std::string vfmt(const char *fmt, va_list ap) { char b[1200]; vsnprintf(b, sizeof b, fmt, ap); return b; }
void fail(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); std::string s = vfmt(fmt, ap); va_end(ap);
    throw Violation{"", s};
}
void failk(const char *key, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); std::string s = vfmt(fmt, ap); va_end(ap);
    throw Violation{key, s};
}
void state(uint64_t h)
{
    if (!seen) return;
    h = mix(h, space_salt);
    if (!h) h = 1;
    for (size_t i = h & seen_mask, k = 0; k < 64; k++, i = (i + 1) & seen_mask) {
        uint64_t v = seen[i].load(std::memory_order_relaxed);
        if (v == h) return;
        if (!v) {
            if (seen[i].compare_exchange_strong(v, h)) { sh->states++; return; }
            if (v == h) return;
        }
    }
    sh->statefull = 1;
}

enum Outcome { DONE, VIOL, STOPPED, SKIPPED };
static Outcome execute(const Space &sp, Violation &v)
{
    fill = 0xA5;
    pristine();
    pos = 0;
    if (sh) { sh->cur[wid].n = 0; sh->cur[wid].busy = 1; }
    Outcome o = DONE;
    try {
        sp.body();
        env::check_heap("end of execution");
        if (at_end) if (const char *b = at_end()) fail("%s", b);
    }
    catch (Violation &x) { v = x; o = VIOL; }
    catch (PrefixStop &) { o = STOPPED; }
    catch (Skip &) { o = SKIPPED; }
    if (sh) sh->cur[wid].busy = 0;
    return o;
}
static bool is_known(const std::string &k)
{
    if (k.empty()) return false;
    return std::find(known_keys.begin(), known_keys.end(), k) != known_keys.end();
}
static void record(Rec &r, const Violation &v, int space)
{
    snprintf(r.key, sizeof r.key, "%s", v.key.c_str());
    snprintf(r.msg, sizeof r.msg, "%s", v.msg.c_str());
    r.n = (int)std::min<size_t>(pos, MAXC);
    for (int i = 0; i < r.n; i++) r.c[i] = ch[i];
    r.space = space;
}
static void handle_violation(const Violation &v, int space)
{
    if (is_known(v.key)) {
        int i = sh->nknown++;
        if (i < SLOTS) record(sh->known[i], v, space);
        return;
    }
    int i = sh->nviol++;
    if (i < SLOTS) record(sh->viol[i], v, space);
    sh->stop = 1;
}
static bool advance(size_t floor)   // next choice vector below the fixed prefix
{
    while (ch.size() > floor && ch.back() + 1 >= lim.back()) { ch.pop_back(); lim.pop_back(); }
    if (ch.size() <= floor) return false;
    ch.back()++;
    return true;
}

static void worker(const std::vector<Space> &sps, int si, const std::vector<std::vector<uint16_t>> &pre, const std::vector<std::vector<uint16_t>> &prelim)
{
    const Space &sp = sps[si];
    uint64_t ex = 0, sk = 0, nch = 0; int md = 0;
    op_counter = &local_ops; local_ops = 0;
    for (;;) {
        uint64_t t = sh->ticket++;
        if (t >= pre.size() || sh->stop) break;
        ch = pre[t]; lim = prelim[t];
        size_t floor = ch.size();
        do {
            Violation v;
            Outcome o = execute(sp, v);
            if (pos < ch.size()) {
                sh->diverged = 1;
                fprintf(stderr, "mc: divergence: execution ended after %zu choices, %zu expected\n", pos, ch.size());
                _exit(4);
            }
            if (o == SKIPPED) sk++; else { ex++; nch += pos; }
            if ((int)pos > md) md = (int)pos;
            if (o == VIOL) { handle_violation(v, si); if (sh->stop) break; }
            if (o == DONE) {
                if (t == 0 && ex == 1) record(sh->sample[0], Violation{"", ""}, si);
                else if (t == pre.size() / 2 && sh->sample[1].space < 0) record(sh->sample[1], Violation{"", ""}, si);
                else if (t == pre.size() - 1) record(sh->sample[2], Violation{"", ""}, si);
            }
            if (sh->stop) break;
        } while (advance(floor));
    }
    sh->execs += ex; sh->skipped += sk; sh->ops += local_ops; sh->choices += nch;
    int m = sh->maxdepth; while (md > m && !sh->maxdepth.compare_exchange_weak(m, md)) {}
}

// ------------------------------------------------------------------ signals
static char altstack[65536];
static void on_fault(int sig, siginfo_t *si, void *)
{
    static char why[80];
    if (in_guard) {
        snprintf(why, sizeof why, "signal %d", sig);
        leave(CRASHED, sig, why);
    }
    (void)si;
    // crash in the harness: memory was corrupted earlier, or the harness is wrong
    static const char m[] = "mc: fault outside a guarded call\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(9);
}
static void on_tick(int)
{
    if (!in_guard) { hang_ticks = 0; return; }
    if (!pthread_equal(guard_thread, pthread_self())) { pthread_kill(guard_thread, SIGALRM); return; }
    if (*op_counter != hang_last) { hang_last = *op_counter; hang_ticks = 0; return; }
    if (++hang_ticks >= hang_limit) { hang_ticks = 0; leave(HUNG, 0, "no return"); }
}
static void signals()
{
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
    sigaltstack(&ss, NULL);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, NULL);
    sa.sa_sigaction = NULL; sa.sa_handler = on_tick; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_RESTART;
    sigaction(SIGALRM, &sa, NULL);
    struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_REAL, &it, NULL);
}
static void quiet()
{
    fflush(stdout);
    int n = open("/dev/null", O_WRONLY);
    if (n >= 0) { dup2(n, 1); if (!getenv("MC_DEBUG")) dup2(n, 2); close(n); }
}

// ------------------------------------------------------------------ output
static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string jchoices(const uint16_t *c, int n) { std::string o = "["; for (int i = 0; i < n; i++) { if (i) o += ","; o += std::to_string(c[i]); } return o + "]"; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

static bool replay(const Space &sp, const std::vector<int> &c, std::string &msg, std::string &key)
{
    ch.assign(c.begin(), c.end()); lim.assign(c.size(), 0);
    tracing = true; tracebuf.clear();
    Violation v;
    Outcome o = execute(sp, v);
    tracing = false;
    msg = v.msg; key = v.key;
    return o == VIOL;
}
} // namespace mc

using namespace mc;

// ------------------------------------------------------------------ what the library links against
extern "C" {
void *mc_malloc(size_t n) { return arena_alloc(n, false); }
void *mc_calloc(size_t a, size_t b) { if (b && a > SIZE_MAX / b) { env::fault_hits++; return NULL; } return arena_alloc(a * b, true); }
void mc_free(void *p) { arena_free(p); }
void *mc_realloc(void *p, size_t n)
{
    if (!p) return arena_alloc(n, false);
    if (!n) { arena_free(p); return NULL; }
    void *q = arena_alloc(n, false);
    if (q) { memcpy(q, p, std::min(n, arena_size(p))); arena_free(p); }
    return q;
}
void *mc_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) return NULL; return mc_realloc(p, a * b); }
void *mc_aligned_alloc(size_t, size_t n) { return arena_alloc(n, false); }
int mc_posix_memalign(void **p, size_t, size_t n) { void *q = arena_alloc(n, false); if (!q) return ENOMEM; *p = q; return 0; }
char *mc_strdup(const char *s) { size_t n = strlen(s) + 1; char *q = (char *)arena_alloc(n, false); if (q) memcpy(q, s, n); return q; }
char *mc_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *q = (char *)arena_alloc(n + 1, false); if (q) { memcpy(q, s, n); q[n] = 0; } return q; }
[[noreturn]] static void ended(int kind, int code, const char *why)
{
    if (in_guard) leave(kind, code, why);
    fprintf(stderr, "mc: termination outside a guarded call\n"); _exit(9);
}
void mc_abort(void) { ended(ABORTED, 0, "abort"); }
void mc_exit(int c) { ended(EXITED, c, "exit"); }
void mc__exit(int c) { ended(EXITED, c, "_exit"); }
int mc_raise(int s) { ended(s == SIGABRT ? ABORTED : CRASHED, s, "raise"); }
void mc___assert_fail(const char *, const char *, unsigned, const char *) { ended(ABORTED, 0, "assert"); }
int mc_gettimeofday(struct timeval *tv, void *)
{
    env::clock_reads++;
    if (env::clock_fail) { errno = EINVAL; return -1; }
    tv->tv_sec = env::clock_sec; tv->tv_usec = env::clock_usec; return 0;
}
int mc_clock_gettime(int, struct timespec *ts)
{
    env::clock_reads++;
    if (env::clock_fail) { errno = EINVAL; return -1; }
    ts->tv_sec = env::clock_sec; ts->tv_nsec = env::clock_usec * 1000; return 0;
}
time_t mc_time(time_t *t) { env::clock_reads++; if (t) *t = env::clock_sec; return env::clock_sec; }
int mc_gethostname(char *name, size_t len)
{
    if (env::hostname_fail) { errno = EFAULT; return -1; }
    size_t n = strlen(env::hostname);
    // POSIX: copies what fits; a name that is too long is cut, possibly unterminated, and glibc fails as well
    memcpy(name, env::hostname, std::min(n + 1, len));
    if (n + 1 > len && env::hostname_strict) { errno = ENAMETOOLONG; return -1; }
    return 0;
}
int mc_uname(struct utsname *u)
{
    if (env::hostname_fail) { errno = EFAULT; return -1; }
    memset(u, 0, sizeof *u); snprintf(u->nodename, sizeof u->nodename, "%s", env::hostname); return 0;
}
}

int main(int argc, char **argv)
{
    // a fixed address-space layout makes every address the library sees reproducible
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("MC_NOREEXEC")) {
        setenv("MC_NOREEXEC", "1", 1);
        if (personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    const char *out = NULL, *rspace = NULL, *rch = NULL, *only = NULL;
    int jobs = 8; bool list = false; double cap = 0, spacecap = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") out = val();
        else if (a == "--replay") { rspace = val(); rch = val(); }
        else if (a == "--space") only = val();
        else if (a == "--jobs") jobs = atoi(val());
        else if (a == "--tier") tier = !strcmp(val(), "thorough");
        else if (a == "--known") known_keys.push_back(val());
        else if (a == "--cap") cap = atof(val());
        else if (a == "--spacecap") spacecap = atof(val());      // for experiments: part of each space, spread over it
        else if (a == "--list") list = true;
    }
    if (jobs > 60) jobs = 60;
    int outfd = dup(1);
    FILE *o = out ? fopen(out, "w") : fdopen(outfd, "w");
    arena = (char *)mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) { perror("mc: arena"); return 3; }
    arena_top = arena_hi = arena;
    image_save();
    std::vector<Space> sps = mc_spaces();
    if (list) { for (auto &s : sps) fprintf(o, "%s\n", s.name); fclose(o); return 0; }
    signals();
    quiet();

    if (rspace) {
        std::vector<int> c;
        for (const char *p = rch; *p;) { c.push_back(strtol(p, (char **)&p, 10)); if (*p == ',') p++; }
        for (auto &s : sps) if (!strcmp(s.name, rspace)) {
            std::string m, k;
            bool v = replay(s, c, m, k);
            fprintf(o, "space: %s\n%s%s: %s\n", s.name, tracebuf.c_str(), v ? "VIOLATED" : "held", m.c_str());
            fclose(o);
            return v ? 1 : 0;
        }
        return 3;
    }

    sh = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t slots = (size_t)1 << (tier ? 28 : 26);
    seen = (std::atomic<uint64_t> *)mmap(NULL, slots * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || seen == MAP_FAILED) { perror("mc: shared"); return 3; }
    seen_mask = slots - 1;

    double t0 = now();
    bool first = true, anyviol = false, broken = false;
    fprintf(o, "{\"spaces\":[");
    for (size_t si = 0; si < sps.size(); si++) {
        const Space &sp = sps[si];
        if (sp.min_tier > tier) continue;
        if (only && strcmp(only, sp.name)) continue;
        double ts = now();
        space_salt = mix(0x1234567, si + 1);
        sh->ticket = 0; sh->stop = 0; sh->nviol = 0; sh->nknown = 0; sh->execs = 0; sh->ops = 0; sh->states = 0; sh->skipped = 0; sh->choices = 0; sh->maxdepth = 0; sh->statefull = 0;
        for (auto &r : sh->sample) r.space = -1;

        // prefixes: the subtrees handed to the workers; enumerated by a worker process of its own so
        // that the parent never runs library code
        size_t plen = 0;
        std::vector<std::vector<uint16_t>> pre, prelim;
        if (!sp.serial && jobs > 1) {
            int fd[2];
            if (pipe(fd)) return 3;
            pid_t p = fork();
            if (p == 0) {
                signals();
                wid = 62; sh = NULL;
                std::atomic<uint64_t> *sv = seen; seen = NULL; (void)sv;
                std::vector<uint16_t> buf;
                for (size_t K = 1; K <= 12; K++) {
                    buf.clear(); size_t cnt = 0; bool anystop = false;
                    ch.clear(); lim.clear(); stop_at = K;
                    do {
                        Violation v;
                        Outcome oc = execute(sp, v);
                        if (oc == STOPPED) anystop = true;
                        cnt++;
                        buf.push_back((uint16_t)ch.size());
                        buf.insert(buf.end(), ch.begin(), ch.end());
                        buf.insert(buf.end(), lim.begin(), lim.end());
                        if (cnt > 200000) break;
                    } while (advance(0));
                    if (!anystop || cnt >= 600) break;
                }
                size_t n = buf.size(), w = 0;
                while (w < n * 2) { ssize_t r = write(fd[1], (char *)buf.data() + w, n * 2 - w); if (r <= 0) _exit(3); w += r; }
                _exit(0);
            }
            close(fd[1]);
            std::string data; char b[65536]; ssize_t r;
            while ((r = read(fd[0], b, sizeof b)) > 0) data.append(b, r);
            close(fd[0]);
            int st; waitpid(p, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                const uint16_t *q = (const uint16_t *)data.data(), *e = q + data.size() / 2;
                while (q < e) { int n = *q++; pre.emplace_back(q, q + n); q += n; prelim.emplace_back(q, q + n); q += n; }
            } else if (WIFEXITED(st) && WEXITSTATUS(st) == 4) broken = true;
            for (auto &x : pre) plen = std::max(plen, x.size());
        }
        if (pre.empty()) { pre.push_back({}); prelim.push_back({}); }
        if (spacecap > 0) { uint64_t x = 12345; for (size_t i = pre.size(); i > 1; i--) { x = mix(x, i); size_t j = x % i; std::swap(pre[i - 1], pre[j]); std::swap(prelim[i - 1], prelim[j]); } }
        // leaves that are shorter than the prefix length are whole executions: floor == size is fine,
        // because advance() never goes below the floor
        int nw = sp.serial ? 1 : (int)std::min<size_t>(jobs, pre.size());
        std::vector<pid_t> pids(nw);
        for (int w = 0; w < nw; w++) {
            pids[w] = fork();
            if (pids[w] == 0) { signals(); wid = w; worker(sps, (int)si, pre, prelim); _exit(0); }
        }
        bool capped = false;
        for (int left = nw; left > 0;) {
            int st; pid_t p = waitpid(-1, &st, cap > 0 || spacecap > 0 ? WNOHANG : 0);
            if (p == 0) {
                if (((cap > 0 && now() - t0 > cap) || (spacecap > 0 && now() - ts > spacecap)) && !capped) { capped = true; sh->stop = 1; }
                usleep(spacecap > 0 ? 3000 : 20000); continue;
            }
            if (p < 0) break;
            for (int w = 0; w < nw; w++) if (pids[w] == p) {
                left--;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (WIFEXITED(st) && (WEXITSTATUS(st) == 3 || WEXITSTATUS(st) == 4)) { broken = true; sh->stop = 1; continue; }
                // the worker died inside an execution
                int i = sh->nviol++;
                if (i < SLOTS) {
                    Rec &r = sh->viol[i];
                    snprintf(r.key, sizeof r.key, "%s", "");
                    snprintf(r.msg, sizeof r.msg, "the checking process died (%s %d): memory outside the library was corrupted", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
                    r.n = sh->cur[w].n; memcpy(r.c, (void *)sh->cur[w].c, sizeof(uint16_t) * r.n); r.space = (int)si;
                }
                sh->stop = 1;
            }
        }
        // sample traces, in a process of their own
        std::string samples;
        if (!sh->nviol) {
            int fd[2];
            if (pipe(fd)) return 3;
            pid_t p = fork();
            if (p == 0) {
                signals();
                Rec rs[3]; for (int i = 0; i < 3; i++) rs[i] = sh->sample[i];
                sh = NULL; seen = NULL;
                std::string s; bool f = true;
                for (auto &r : rs) {
                    if (r.space < 0) continue;
                    std::vector<int> c(r.c, r.c + r.n); std::string m, k;
                    replay(sp, c, m, k);
                    if (tracebuf.size() > 1800) tracebuf = tracebuf.substr(0, 1800) + "...";
                    if (!f) s += ","; f = false;
                    s += jstr(tracebuf);
                }
                ssize_t x = write(fd[1], s.data(), s.size()); (void)x;
                _exit(0);
            }
            close(fd[1]);
            char b[65536]; ssize_t r;
            while ((r = read(fd[0], b, sizeof b)) > 0) samples.append(b, r);
            close(fd[0]);
            waitpid(p, NULL, 0);
        }
        if (sh->diverged) broken = true;
        fprintf(o, "%s\n{\"name\":%s,\"bounds\":%s,\"executions\":%lu,\"skipped\":%lu,\"transitions\":%lu,\"states\":%lu,\"choice_points\":%lu,\"max_choices\":%d,\"prefixes\":%zu,\"capped\":%s,\"state_table_full\":%s,\"wall\":%.2f,\"samples\":[%s],\"violations\":[",
                first ? "" : ",", jstr(sp.name).c_str(), jstr(sp.bounds).c_str(), (unsigned long)sh->execs, (unsigned long)sh->skipped, (unsigned long)sh->ops, (unsigned long)sh->states, (unsigned long)sh->choices,
                (int)sh->maxdepth, pre.size(), capped ? "true" : "false", sh->statefull ? "true" : "false", now() - ts, samples.c_str());
        first = false;
        for (int i = 0; i < std::min<int>(sh->nviol, SLOTS); i++)
            fprintf(o, "%s{\"key\":%s,\"msg\":%s,\"choices\":%s}", i ? "," : "", jstr(sh->viol[i].key).c_str(), jstr(sh->viol[i].msg).c_str(), jchoices(sh->viol[i].c, sh->viol[i].n).c_str());
        fprintf(o, "],\"known\":[");
        for (int i = 0; i < std::min<int>(sh->nknown, SLOTS); i++)
            fprintf(o, "%s{\"key\":%s,\"msg\":%s,\"choices\":%s}", i ? "," : "", jstr(sh->known[i].key).c_str(), jstr(sh->known[i].msg).c_str(), jchoices(sh->known[i].c, sh->known[i].n).c_str());
        fprintf(o, "],\"known_count\":%d}", (int)sh->nknown);
        if (sh->nviol) { anyviol = true; break; }
        if (broken) break;
    }
    fprintf(o, "\n],\"broken\":%s,\"wall\":%.2f}\n", broken ? "true" : "false", now() - t0);
    fclose(o);
    return broken ? 3 : anyviol ? 1 : 0;
}
