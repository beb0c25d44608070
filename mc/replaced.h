// A datatype that is used and freed, and another one made in its place: same handle, same memory, as many elements.
#pragma once
#include "ways.h"
template <class U> static RType &replaced(Api *a, const RType &b0, const RType &b1, U use, bool commit = true)
{
    static RType old, kept, now; old = kept = now = RType();
    mc::env::reuse = true;
    int i = 1 + mc::choose(ZOO - 1, "layout of the freed datatype"), j = 1 + mc::choose(ZOO - 1, "layout of the new one"), how = mc::choose(3, "the new one is (made afresh, a duplicate, a duplicate whose original is freed)");
    zoo(a, i, b0, old);
    if (how) zoo(a, j, b1, kept, commit);
    use(old);
    long was = old.count();
    mk_free(a, old);
    if (how) { if (kept.count() != was) throw mc::Skip(); mk_dup(a, now, kept); if (commit) mk_commit(a, now); } else zoo(a, j, b1, now, commit);
    if (now.count() != was) throw mc::Skip();
    if (how == 2) mk_free(a, kept);
    mc::state(mc::mix(i * 32 + j, how));
    return now;
}
// what may have been done with the first one: nothing, its bounds asked for, moved in some way
static int replaced_use(Api *a, P2P &p, int use, int way, bool back, const RType &old, const RType &b, int n)
{
    if (use == 1) check_type(a, old, "the first datatype");
    if (use == 2) way = 7;
    if (use == 3) way = 10;
    if (use == 4) way = 0;
    if (use < 2 || !old.count()) return 0;
    bool red = way >= 14 && way <= 17;
    const RType &o = red ? old : b; int m = red ? n : (int)(n * old.count() / b.count());
    if (back) { if (overlaps(old, n)) throw mc::Skip(); move(a, p, way, o, m, old, n); }
    else { if (red && overlaps(old, n)) throw mc::Skip(); move(a, p, way, old, n, o, m); }
    return 1;
}
// all ways from lo to hi-1 of moving the new one
static void replaced_moves(Api *a, P2P &p, int lo, int hi)
{
    p.begin(a);
    static const int B[] = {MPI_INT, MPI_CHAR};
    static RType b; b = r_basic(B[mc::choose(2, "base")]);
    int way = lo + mc::choose(hi - lo, "way"), use = mc::choose(6, "use of the first one"), back = mc::choose(2, "direction"), n = 1 + mc::choose(2, "count");
    bool red = way >= 14 && way <= 17;
    RType &t = replaced(a, b, b, [&](const RType &old) { replaced_use(a, p, use, way, back, old, b, n); });
    const RType &o = red ? t : b; int m = red ? n : (int)(n * t.count());
    if (overlaps(t, n) && (back || red)) throw mc::Skip();
    if (back) move(a, p, way, o, m, t, n); else move(a, p, way, t, n, o, m);
    mc::state(mc::mix(way * 8 + use, back * 2 + n));
    p.finish();
}
#define REPLACED_TEXT "a datatype (29 layouts) used in six ways or not at all, freed, and another of as many elements made in its place, afresh or as a duplicate of an older one; "
