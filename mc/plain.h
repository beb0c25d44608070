// Datatypes of n blocks of bl items, gap items apart, through every constructor: degenerate ones included.
#pragma once
#include "zoo.h"
static const int PLAINS = 8;
static void plain(Api *a, int k, int n, int bl, int gap, const RType &x, RType &out)
{
    long e = x.extent(); int bls[4], di[4]; long dl[4]; const RType *tt[4];
    for (int i = 0; i < n; i++) { bls[i] = bl; di[i] = i * (bl + gap); dl[i] = di[i] * e; tt[i] = &x; }
    switch (k) {
    case 0: if (bl != 1 || gap) throw mc::Skip(); mk_contig(a, out, n, x); break;
    case 1: mk_vector(a, out, n, bl, bl + gap, x); break;
    case 2: mk_hvector(a, out, n, bl, (bl + gap) * e, x); break;
    case 3: mk_hvector(a, out, n, bl, (bl + gap) * e, x, true); break;
    case 4: mk_indexed(a, out, n, bls, di, x); break;
    case 5: mk_hindexed(a, out, n, bls, dl, x); break;
    case 6: mk_iblock(a, out, n, bl, di, x); break;
    case 7: mk_struct(a, out, n, bls, dl, tt); break;
    }
    out.committed = false;
}
// One datatype built from another, each committed before, after or never; then each is looked at and moved, also with
// the other one freed.
static void plain_space(P2P &p, bool frees)
{
    Api *a = p.api; RType b, in, out;
    static const int B[] = {MPI_INT, MPI_DOUBLE_INT, MPI_BYTE};
    b = r_basic(B[mc::choose(3, "base")]);
    int inner = mc::choose(3, "inner datatype"), k = mc::choose(PLAINS, "constructor"), n = mc::choose(3, "blocks"), bl = mc::choose(3, "block length"), gap = mc::choose(2, "gap");
    int ci = mc::choose(4, "inner committed"), co = mc::choose(2, "outer committed"), second = mc::choose(2, "made twice");
    if (inner == 0) { int lens[2] = {1, 2}, di[2] = {3, 0}; mk_indexed(a, in, 2, lens, di, b); } else if (inner == 1) mk_contig(a, in, 1, b); else mk_vector(a, in, 1, 1, 1, b);
    in.committed = false;
    if (ci == 1) mk_commit(a, in);
    plain(a, k, n, bl, gap, in, out);
    if (second) { RType again; plain(a, k, n, bl, gap, in, again); mk_commit(a, again); if (again.h == out.h) mc::fail("two datatypes have the handle %d", out.h); }
    if (ci == 2) mk_commit(a, in);
    if (co) mk_commit(a, out);
    if (ci == 3) mk_commit(a, in);
    if (in.h == out.h) mc::fail("a datatype has the handle of the one it was built from");
    check_type(a, in, "the inner datatype"); check_type(a, out, "the outer datatype");
    int which = mc::choose(2, "moved"), freed = frees ? mc::choose(2, "the other freed") : 0;
    RType &x = which ? out : in;
    if (freed) { mk_free(a, which ? in : out); check_type(a, x, "a relative of a freed datatype"); }
    mc::state(mc::mix(mc::mix(k * 8 + inner, n * 16 + bl * 4 + gap), ci * 16 + co * 8 + which * 4 + freed * 2 + second));
    if (x.count() == 0) { mk_free(a, x); return; }
    int W = MPI_COMM_WORLD; char *s = room(2, x), *r = room(2, x);
    auto f = [&] { return a->Allgather(s, 2, x.h, r, 2, x.h, W); };
    if (!x.committed) { mc::dies("moving data with a datatype that was not committed", f); um.check("a refused transfer"); return; }
    mc::ok("Allgather", f); r_copy(um.ref(s), 2, x, um.ref(r), 2, x, true); p.after("Allgather");
    mk_free(a, x); if (!freed) { RType &y = which ? in : out; check_type(a, y, "a relative of a freed datatype"); mk_free(a, y); }
}
