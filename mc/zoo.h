// A collection of datatypes built over one base type, covering every constructor.
#pragma once
#include "rtype.h"
struct ZooOpt { bool commit = true; };
static const int ZOO = 30;
static void zoo(Api *a, int i, const RType &b, RType &out, bool commit = true)
{
    long e = b.extent();
    RType x, y, z, LB = r_basic(MPI_LB), UB = r_basic(MPI_UB);
    auto st = [&](RType &o, std::vector<int> bl, std::vector<long> d, std::vector<const RType *> ts) { mk_struct(a, o, (int)bl.size(), bl.data(), d.data(), ts.data()); };
    auto ix = [&](RType &o, std::vector<int> bl, std::vector<int> d, const RType &t) { mk_indexed(a, o, (int)bl.size(), bl.data(), d.data(), t); };
    auto hx = [&](RType &o, std::vector<int> bl, std::vector<long> d, const RType &t) { mk_hindexed(a, o, (int)bl.size(), bl.data(), d.data(), t); };
    auto ib = [&](RType &o, int len, std::vector<int> d, const RType &t) { mk_iblock(a, o, (int)d.size(), len, d.data(), t); };
    auto marked = [&](RType &o) { st(o, {1, 1, 2, 1}, {-e, 0, 2 * e, 7 * e}, {&LB, &b, &b, &UB}); };
    switch (i) {
    case 0: out = b; return;
    case 1: mk_contig(a, out, 0, b); break;
    case 2: mk_contig(a, out, 1, b); break;
    case 3: mk_contig(a, out, 3, b); break;
    case 4: mk_vector(a, out, 2, 2, 3, b); break;
    case 5: mk_vector(a, out, 2, 1, -2, b); break;
    case 6: mk_vector(a, out, 3, 1, 1, b); break;
    case 7: mk_vector(a, out, 2, 0, 5, b); break;
    case 8: mk_hvector(a, out, 2, 1, 2 * e + 1, b); break;
    case 9: mk_hvector(a, out, 2, 2, -3 * e, b, true); break;
    case 10: ix(out, {2, 1}, {3, 0}, b); break;
    case 11: ix(out, {0, 1, 2}, {5, -2, 1}, b); break;
    case 12: ix(out, {}, {}, b); break;
    case 13: hx(out, {1, 2}, {2 * e + 2, -3 * e}, b); break;
    case 14: ib(out, 2, {4, 0}, b); break;
    case 15: st(out, {1, 1}, {0, 2 * e}, {&b, &b}); break;
    case 16: marked(out); break;
    case 17: st(out, {1, 1, 1}, {0, 3 * e, 2 * e}, {&b, &b, &UB}); break;
    case 18: st(out, {1, 2}, {-2 * e, e}, {&LB, &b}); break;
    case 19: marked(x); mk_contig(a, out, 2, x); break;
    case 20: mk_vector(a, x, 2, 2, 3, b); mk_vector(a, out, 2, 1, 2, x); break;
    case 21: hx(x, {1, 2}, {2 * e + 2, -3 * e}, b); ix(out, {1, 1}, {2, 0}, x); break;
    case 22: mk_vector(a, x, 2, 2, 3, b); st(out, {1, 1}, {0, 6 * e + 3}, {&x, &b}); break;
    case 23: marked(x); mk_hvector(a, out, 2, 1, 9 * e, x); break;
    case 24: mk_vector(a, x, 2, 2, 3, b); mk_dup(a, out, x); break;
    case 25: mk_contig(a, x, 2, b); ix(y, {1, 1}, {2, 0}, x); ib(z, 1, {1, 3}, y); st(out, {1}, {-e}, {&z}); break;
    case 26: mk_contig(a, x, 0, b); mk_contig(a, out, 2, x); break;
    case 27: hx(out, {1, 1}, {0, 0}, b); break;         // overlapping: for sending only
    case 28: mk_hvector(a, out, 2, 1, 0, b); break;
    case 29: ix(out, {1, 0, 3, 1}, {-4, 99, 0, 6}, b); break;
    }
    if (commit) mk_commit(a, out);
}
// lowest and one past the highest byte of n items
static void span_of(const RType &t, long n, long &lo, long &hi)
{
    lo = hi = 0; bool any = false; long ext = t.extent();
    if (n > 0) for (auto &x : t.map) for (long k : {0L, n - 1}) {
        long l = x.disp + k * ext, h = l + x.len;
        if (!any || l < lo) lo = l;
        if (!any || h > hi) hi = h;
        any = true;
    }
}
static bool overlaps(const RType &t, long n)
{
    std::vector<std::pair<long, long>> v; long ext = t.extent();
    for (long k = 0; k < n; k++) for (auto &x : t.map) { long l = x.disp + k * ext; v.push_back({l, l + x.len}); }
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); i++) if (v[i].first < v[i - 1].second) return true;
    return false;
}
static char *room(long n, const RType &t)       // a buffer in user memory; the address the items are relative to
{
    long lo, hi; span_of(t, n, lo, hi);
    return um.alloc((size_t)std::max<long>(1, hi - lo), 16) - lo;
}
