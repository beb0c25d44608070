// A sparse region of a quarter of a terabyte on either side of an origin, for layouts that span far more than 2^31
// bytes.  Bytes are a function of their offset; only the described ones and their neighbours are ever touched.
#pragma once
#include "rtype.h"
#include <sys/mman.h>
#include <set>
#include <unistd.h>
#include <stdio.h>
struct Far {
    static constexpr long HALF = 1L << 38;
    char *o = nullptr;
    std::set<long> pages;       // touched
    void begin()
    {
        if (!o) {
            char *m = (char *)mmap(NULL, 2 * HALF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (m == MAP_FAILED) { perror("mc: sparse region"); _exit(3); }
            o = m + HALF;
        }
        for (long p : pages) madvise(o + p * 4096, 4096, MADV_DONTNEED);
        pages.clear();
    }
    static unsigned char val(long off, int salt) { return (unsigned char)(mc::mix(off, salt) | 1); }
    bool inside(long off) { return off > -HALF + 4096 && off < HALF - 4096; }
    void touch(long off, long len) { for (long p = (off - 16) >> 12; p <= (off + len + 16) >> 12; p++) pages.insert(p); }
    bool fits(const RType &t, long n) { for (long k = 0; k < n; k++) for (auto &e : t.map) if (!inside(k * t.extent() + e.disp)) return false; return true; }
    template <class F> void each(const RType &t, long n, F f) { for (long k = 0; k < n; k++) for (auto &e : t.map) f(k * t.extent() + e.disp, (long)e.len); }
    void fill(const RType &t, long n, int salt)      // described bytes and sixteen on each side
    {
        each(t, n, [&](long d, long l) { touch(d, l); for (long i = d - 16; i < d + l + 16; i++) o[i] = (char)val(i, salt); });
    }
    bool overlapping(const RType &t, long n)
    {
        std::set<long> s; bool ov = false;
        each(t, n, [&](long d, long l) { for (long i = d; i < d + l; i++) if (!s.insert(i).second) ov = true; });
        return ov;
    }
    // the described bytes are those of buf in order, everything around them as filled
    void check(const RType &t, long n, const char *buf, int salt, const char *when)
    {
        std::set<long> in; long k = 0;
        each(t, n, [&](long d, long l) { for (long i = d; i < d + l; i++) { in.insert(i); if (o[i] != buf[k++]) mc::fail("%s: the byte at %ld is not the one of this element of %s", when, i, t.str().c_str()); } });
        each(t, n, [&](long d, long l) { for (long i = d - 16; i < d + l + 16; i++) if (!in.count(i) && o[i] != (char)val(i, salt)) mc::fail("%s: a byte at %ld, outside the described elements, was changed", when, i); });
    }
    void expect(const RType &t, long n, const char *buf, int salt, const char *when)
    {
        long k = 0;
        each(t, n, [&](long d, long l) { for (long i = d; i < d + l; i++, k++) if (buf[k] != (char)val(i, salt)) mc::fail("%s: byte %ld is not the one at displacement %ld of %s", when, k, i, t.str().c_str()); });
    }
};
static Far far_;
// layouts spanning more than 2^31 bytes over one base type
static const int FARS = 14;
static void far_layout(Api *a, int i, const RType &b, RType &o)
{
    const long G = 1L << 30; long e = b.extent();
    RType x, LB = r_basic(MPI_LB), UB = r_basic(MPI_UB);
    auto st = [&](RType &o, std::vector<int> bl, std::vector<long> d, std::vector<const RType *> ts) { mk_struct(a, o, (int)bl.size(), bl.data(), d.data(), ts.data()); };
    switch (i) {
    case 0: mk_hvector(a, o, 2, 1, 3 * G, b); break;
    case 1: mk_hvector(a, o, 3, 1, -5 * G + e, b); break;
    case 2: st(o, {1, 1}, {0, 3 * G}, {&b, &UB}); break;
    case 3: st(o, {1, 1}, {0, -3 * G}, {&b, &UB}); break;
    case 4: st(o, {1, 2}, {4 * G, -8 * G + 8}, {&b, &b}); break;
    case 5: { int bl[] = {1, 2}, d[] = {0x7fffffff, -0x40000000}; mk_indexed(a, o, 2, bl, d, b); break; }
    case 6: mk_vector(a, o, 2, 2, 1 << 29, b); break;
    case 7: st(o, {1, 1, 1}, {2 * G, 2 * G - 16, 4 * G}, {&b, &LB, &UB}); break;
    case 8: st(x, {1, 1}, {0, 2 * G}, {&b, &UB}); mk_contig(a, o, 3, x); break;
    case 9: { int d[] = {1 << 28, -(1 << 30)}; mk_iblock(a, o, 2, 1, d, b); break; }
    case 10: { int bl[] = {2, 1}; long d[] = {-4 * G, 4 * G}; mk_hindexed(a, x, 2, bl, d, b); mk_dup(a, o, x); break; }
    case 11: st(x, {1, 1}, {0, 4 * G}, {&b, &UB}); mk_hvector(a, o, 2, 1, 64, x); break;
    case 12: st(x, {1, 1}, {0, 3 * G}, {&b, &UB}); st(o, {1, 2}, {16, -G}, {&b, &x}); break;
    case 13: mk_hvector(a, o, 2, 2, (1L << 32) + e, b, true); break;
    }
    mk_commit(a, o);
}
