// Every layout made before and after thousands of earlier operations, observed and moved.
#pragma once
#include "ways.h"
#include "aged.h"
static void aged_ways(int lo, int hi)
{
    int k = mc::choose(AGE_ALL, "earlier operations"), g = mc::choose(ages(), "how many"), base = mc::choose(2, "base");
    P2P &p = pp; Api *a = mc::tier ? pick_api() : (k + g) & 1 ? api_f : api_c; p.begin(a);
    static std::vector<RType> t[2]; static RType b; b = r_basic(base ? MPI_CHAR : MPI_INT);
    for (auto &x : t) { x.clear(); x.resize(ZOO); }
    int other = -7; mc::ok("Comm_dup", [&] { return a->Comm_dup(MPI_COMM_WORLD, &other); });
    age(p, k, AGE[g][0], other);
    for (int i = 0; i < ZOO; i++) zoo(a, i, b, t[0][i]);
    age(p, k, AGE[g][1], other);
    for (int i = 0; i < ZOO; i++) zoo(a, i, b, t[1][i]);
    for (int j = 0; j < 2; j++) for (int i = 0; i < ZOO; i++) {
        const RType &x = t[j][i]; int n = 1 + (i + j) % 3;
        check_type(a, x, j ? "a datatype made late" : "a datatype made early");
        for (int way = lo; way < hi; way++) {
            bool red = way >= 14 && way <= 17; int m = red ? n : (int)(n * x.count());
            if (!red || !overlaps(x, n)) move(a, p, way, x, n, red ? x : b, m);
            if (!red && !overlaps(x, n)) move(a, p, way, b, m, x, n);
        }
    }
    mc::state(mc::mix(k * 16 + g, base));
    p.finish();
}
#define AGED_WAYS_TEXT "200..66000 (thorough 131071) earlier operations (8, thorough 11 numbers, around every power of 256 and across it) of sixteen kinds (small numbers: of each routine), then 30 layouts made before and after over two bases, "
