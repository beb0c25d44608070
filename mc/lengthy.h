// Statuses of messages of many elements, up to and beyond what an int can count.  The items have no extent, so that
// all of them lie in one small buffer; their contents are not looked at.
#pragma once
#include "p2p.h"
static void items(Api *a, int k, RType &t)
{
    RType c = r_basic(MPI_CHAR), UB = r_basic(MPI_UB); const RType *o[2] = {&c, &UB}; int bl[2] = {k, 1}; long d[2] = {0, 0};
    mk_struct(a, t, 2, bl, d, o); mk_commit(a, t);
}
static void lengthy_ask(Api *a, const char *what, MPI_Status &st, int tag, long elems, RType *q, const int *K, int nk)
{
    if (st.MPI_SOURCE != 0 || st.MPI_TAG != tag) mc::fail("%s: status has source %d and tag %d", what, st.MPI_SOURCE, st.MPI_TAG);
    for (int i = 0; i <= nk; i++) {
        int c = -99, e = -99, h = i < nk ? q[i].h : MPI_CHAR; long k = i < nk ? K[i] : 1;
        mc::ok("Get_count", [&] { return a->Get_count(&st, h, &c); });
        mc::ok("Get_elements", [&] { return a->Get_elements(&st, h, &e); });
        long want = elems % k || elems / k > 0x7fffffff ? (long)MPI_UNDEFINED : elems / k;
        if (c != want) mc::fail("%s of %ld elements: Get_count with a type of %ld elements gives %d, expected %ld", what, elems, k, c, want);
        want = elems > 0x7fffffff ? (long)MPI_UNDEFINED : elems;
        if (e != want) mc::fail("%s of %ld elements: Get_elements gives %d, expected %ld", what, elems, e, want);
    }
}
static void lengthy(bool probes)
{
    P2P &p = pp; Api *a = mc::choose(2, "binding C/Fortran") ? api_f : api_c; p.begin(a);
    static const int K[] = {1, 2, 3, 7, 1000}; static RType q[5];
    static const int N[] = {0, 1, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001, 1 << 20, (1 << 24) + 1, (1 << 28) + 3, (1 << 30) - 1, 1 << 30, 0x7ffffffe, 0x7fffffff};
    static const int EDGE[] = {2147484, 4294968, 306783379, 306783378, 613566757, 2147483, 4294967, 715827883, 715827882, 1431655766, 1431655765};       // around 2^31, 2^32 elements
    for (int i = 0; i < 5; i++) items(a, K[i], q[i]);
    char *sb = um.alloc(1024, 16), *rb = um.alloc(1024, 16); MPI_Status st; memset(&st, 0x5a, sizeof st);
    int ki = mc::choose(5, "elements of an item"), nn = mc::choose(18 + (probes ? 11 : mc::tier ? 2 : 0), "items"), n = nn < 18 ? N[nn] : EDGE[nn - 18], h = 0, r = 0, tag = 9;
    if (probes) {
        mc::note("Isend(%d items of %d elements)", n, K[ki]);
        mc::ok("Isend", [&] { return a->Isend(sb, n, q[ki].h, 0, tag, MPI_COMM_WORLD, &h); });
        int how = mc::choose(2, "Probe"), flag = 0;
        if (how) mc::ok("Probe", [&] { return a->Probe(0, MPI_ANY_TAG, MPI_COMM_WORLD, &st); });
        else { mc::ok("Iprobe", [&] { return a->Iprobe(0, tag, MPI_COMM_WORLD, &flag, &st); }); if (flag != 1) mc::fail("Iprobe gives flag %d", flag); }
        lengthy_ask(a, "probe", st, tag, (long)n * K[ki], q, K, 5);
        mc::state(mc::mix(n, K[ki]));
        return;
    }
    // received with items of the same or another number of elements, as much as was sent or less or more room
    int kj = mc::choose(5, "elements of a received item"), room = mc::choose(4, "room");
    long sent = (long)n * K[ki], items_ = sent / K[kj] + (room == 1 ? 1 : room == 2 ? -1 : room == 3 ? sent / K[kj] : 0);
    if (items_ < 0) items_ = 0;
    if (items_ > 0x7fffffff) items_ = 0x7fffffff;
    int m = (int)items_; long got = std::min(sent, (long)m * K[kj]);
    bool beyond = mc::tier && room == 0 && ki == 4 && kj == 1 && nn >= 18;
    if (got > (mc::tier ? 100000000 : 300000) && !beyond) throw mc::Skip();
    int how = got > 300000 ? 0 : mc::choose(6, "completed by"), first = got > 300000 ? 0 : mc::choose(2, "receive posted first");
    mc::note("message of %d items of %d elements, received as %d of %d", n, K[ki], m, K[kj]);
    mc::hang_limit = 600;
    int flag = 0, idx = -4, out = -4, wh; MPI_Status ss[2]; memset(ss, 0x5a, sizeof ss); int rr[2] = {0, 0};
    if (how == 5) {
        if (first) { mc::hang_limit = 20; throw mc::Skip(); }
        mc::ok("Sendrecv", [&] { return a->Sendrecv(sb, n, q[ki].h, 0, tag, rb, m, q[kj].h, 0, MPI_ANY_TAG, MPI_COMM_WORLD, &st); });
    } else {
        if (!first) mc::ok("Isend", [&] { return a->Isend(sb, n, q[ki].h, 0, tag, MPI_COMM_WORLD, &h); });
        if (how == 0 && !first) mc::ok("Recv", [&] { return a->Recv(rb, m, q[kj].h, MPI_ANY_SOURCE, tag, MPI_COMM_WORLD, &st); });
        else {
            mc::ok("Irecv", [&] { return a->Irecv(rb, m, q[kj].h, 0, tag, MPI_COMM_WORLD, &r); });
            if (first) mc::ok("Send", [&] { return a->Send(sb, n, q[ki].h, 0, tag, MPI_COMM_WORLD); });
            rr[1] = r; wh = how == 0 ? 1 : how;
            switch (wh) {
            case 1: mc::ok("Wait", [&] { return a->Wait(&r, &st); }); break;
            case 2: mc::ok("Test", [&] { return a->Test(&r, &flag, &st); }); break;
            case 3: mc::ok("Waitany", [&] { return a->Waitany(2, rr, &idx, &st); }); break;
            default: mc::ok("Waitall", [&] { return a->Waitall(2, rr, ss); }); st = ss[1]; break;
            }
        }
    }
    mc::hang_limit = 20; (void)out;
    lengthy_ask(a, "receive", st, tag, got, q, K, 5);
    mc::state(mc::mix(mc::mix(n, K[ki]), mc::mix(m, K[kj]) + how));
}
