// Thousands of earlier operations that are complete and leave nothing behind, made quickly (not followed by the model).
#pragma once
#include "p2p.h"
static const int AGE_ALL = 16;
static const char *const AGE_NAME[AGE_ALL] = {"sends, then their receives", "receives, then their sends", "the same on another communicator, waited for together", "probes and failed tests", "operations with MPI_PROC_NULL", "Sendrecv", "communicators made and freed", "datatypes made and freed",
    "Pack and Unpack", "collectives", "groups", "grids, splits and intercommunicators", "counts, sizes and other queries", "completion of arrays, ready and synchronous sends, probes", "every other routine in turn", "datatypes, communicators and requests made and kept"};
// numbers of them: before the first messages and between those and the rest
static const int AGE[][2] = {{0, 254}, {0, 255}, {0, 256}, {100, 100}, {60, 140}, {33000, 33000}, {0, 65535}, {0, 65536}, {20000, 20000}, {0, 65534}, {0, 131071}};
static int ages() { return mc::tier ? 11 : 8; }
static bool full_age(int kind, int g) { return mc::tier || kind < 8 || AGE[g][0] + AGE[g][1] < 1000; }     // the other kinds take longer
static void age(P2P &p, int kind, int n, int other)      // other: a communicator nothing else uses
{
    if (!n) return;
    static const int PER[AGE_ALL] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 7, 1, 3, 1, 8, 23, 1};     // routines taken in turn
    if (n < 1000) n *= PER[kind];
    mc::note("%d times: %s", n, AGE_NAME[kind]);
    Api *a = p.api;
    auto get = [&] {
        int w = kind == 2 ? other : MPI_COMM_WORLD, r[2], f, s = 3, d = 0; MPI_Status st[2];
        for (int i = 0; i < n; i++) {
            int bad = 0; d = -1; s = i;
            switch (kind) {
            case 0: bad = a->Isend(&s, 1, MPI_INT, 0, 77, w, &r[0]) | a->Irecv(&d, 1, MPI_INT, 0, 77, w, &r[1]) | a->Wait(&r[0], &st[0]) | a->Wait(&r[1], &st[1]) | (d != i); break;
            case 1: bad = a->Irecv(&d, 1, MPI_INT, 0, 77, w, &r[0]) | a->Isend(&s, 1, MPI_INT, 0, 77, w, &r[1]) | a->Test(&r[1], &f, &st[0]) | a->Test(&r[0], &f, &st[1]) | (d != i); break;
            case 2: bad = a->Isend(&s, 1, MPI_INT, 0, 5, w, &r[0]) | a->Irecv(&d, 1, MPI_INT, 0, MPI_ANY_TAG, w, &r[1]) | a->Waitall(2, r, st) | (d != i); break;
            case 3: bad = a->Iprobe(0, 78, w, &f, &st[0]) | f; r[0] = 0; bad |= a->Test(&r[0], &f, &st[0]); break;
            case 4: bad = a->Isend(&s, 1, MPI_INT, MPI_PROC_NULL, 5, w, &r[0]) | a->Irecv(&d, 1, MPI_INT, MPI_PROC_NULL, 5, w, &r[1]) | a->Wait(&r[0], &st[0]) | a->Wait(&r[1], &st[1]) | (d != -1); break;
            case 5: bad = a->Sendrecv(&s, 1, MPI_INT, 0, 77, &d, 1, MPI_INT, 0, 77, w, &st[0]) | (d != i); break;
            case 6: bad = a->Comm_dup(w, &r[0]) | a->Comm_free(&r[0]); break;
            case 7: bad = a->Type_contiguous(2, MPI_INT, &r[0]) | a->Type_commit(&r[0]) | a->Type_free(&r[0]); break;
            case 8: { int x[3] = {i, i + 1, i + 2}, y[3] = {0, 0, 0}, at = 0, to = 0; char b[32]; bad = a->Pack(x, 3, MPI_INT, b, 32, &at, w) | a->Unpack(b, 32, &to, y, 3, MPI_INT, w) | (at != 12) | (to != 12) | (y[2] != i + 2); break; }
            case 9: switch (i % 7) {
                case 0: bad = a->Gather(&s, 1, MPI_INT, &d, 1, MPI_INT, 0, w); break;
                case 1: bad = a->Scatter(&s, 1, MPI_INT, &d, 1, MPI_INT, 0, w); break;
                case 2: bad = a->Allgather(&s, 1, MPI_INT, &d, 1, MPI_INT, w); break;
                case 3: bad = a->Alltoall(&s, 1, MPI_INT, &d, 1, MPI_INT, w); break;
                case 4: bad = a->Reduce(&s, &d, 1, MPI_INT, MPI_SUM, 0, w); break;
                case 5: bad = a->Allreduce(&s, &d, 1, MPI_INT, MPI_MAX, w); break;
                case 6: bad = a->Scan(&s, &d, 1, MPI_INT, MPI_SUM, w) | a->Barrier(w) | a->Bcast(&s, 1, MPI_INT, 0, w); break;
                } bad |= d != i; break;
            case 10: { int g, h, k, z = 0; bad = a->Comm_group(w, &g) | a->Group_incl(g, 1, &z, &h) | a->Group_union(g, h, &k) | a->Group_translate_ranks(k, 1, &z, h, &d) | a->Group_free(&g) | a->Group_free(&h) | a->Group_free(&k) | (d != 0); break; }
            case 11: { int one = 1, per = i & 1; bad = i % 3 == 0 ? a->Cart_create(w, 1, &one, &per, 0, &r[0]) : i % 3 == 1 ? a->Comm_split(w, i, 0, &r[0]) : a->Intercomm_create(w, 0, w, 0, 5, &r[0]); bad |= a->Comm_free(&r[0]); break; }
            case 12: { long e; bad = a->Type_size(MPI_DOUBLE, &f) | (f != 8) | a->Type_extent(MPI_INT, &e) | (e != 4) | a->Type_lb(MPI_INT, &e) | (e != 0) | a->Comm_size(w, &f) | (f != 1) | a->Comm_rank(w, &f) | (f != 0) | a->Pack_size(3, MPI_INT, w, &f) | (f != 12); break; }
            case 13: switch (i % 8) {
                case 0: bad = a->Irecv(&d, 1, MPI_INT, 0, 77, w, &r[0]) | a->Ssend(&s, 1, MPI_INT, 0, 77, w); r[1] = 0; bad |= a->Waitany(2, r, &f, &st[0]) | a->Testany(2, r, &f, &f, &st[1]); break;
                case 1: bad = a->Irecv(&d, 1, MPI_INT, 0, 77, w, &r[0]) | a->Rsend(&s, 1, MPI_INT, 0, 77, w); r[1] = 0; { int n, ix[2]; bad |= a->Waitsome(2, r, &n, ix, st) | (n != 1); } break;
                case 2: bad = a->Irecv(&d, 1, MPI_INT, 0, 77, w, &r[0]) | a->Irsend(&s, 1, MPI_INT, 0, 77, w, &r[1]); { int n, ix[2]; bad |= a->Testsome(2, r, &n, ix, st) | (n != 2); } break;
                case 3: bad = a->Isend(&s, 1, MPI_INT, 0, 77, w, &r[0]) | a->Probe(0, 77, w, &st[0]) | a->Get_count(&st[0], MPI_INT, &f) | (f != 1) | a->Recv(&d, 2, MPI_INT, 0, 77, w, &st[1]) | a->Get_elements(&st[1], MPI_INT, &f) | (f != 1) | a->Wait(&r[0], MPI_STATUS_IGNORE); break;
                case 4: bad = a->Isend(&s, 1, MPI_INT, 0, 77, w, &r[0]) | a->Request_free(&r[0]) | a->Recv(&d, 1, MPI_INT, 0, 77, w, MPI_STATUS_IGNORE); break;
                case 5: bad = a->Irecv(&d, 1, MPI_INT, 0, 77, w, &r[0]) | a->Request_free(&r[0]) | a->Send(&s, 1, MPI_INT, 0, 77, w); break;
                case 6: bad = a->Isend(&s, 1, MPI_INT, 0, 77, w, &r[0]) | a->Irecv(&d, 1, MPI_INT, 0, 77, w, &r[1]) | a->Testall(2, r, &f, MPI_STATUSES_IGNORE) | (f != 1); break;
                case 7: bad = a->Isend(&s, 0, MPI_INT, 0, 77, w, &r[0]) | a->Irecv(&d, 1, MPI_INT, MPI_ANY_SOURCE, 77, w, &r[1]) | a->Waitall(2, r, st); d = i; break;
                } bad |= d != i; break;
            case 15: bad = i % 3 == 0 ? a->Type_dup(MPI_INT, &r[0]) : i % 3 == 1 ? a->Comm_dup(w, &r[0]) : a->Irecv(&d, 1, MPI_INT, MPI_PROC_NULL, 5, w, &r[0]); bad |= r[0] <= 0; break;
            case 14: { int bl[2] = {1, 1}, ds[2] = {0, 2}, on[1] = {1}, z[1] = {0}, ty[1] = {MPI_INT}, t2[2] = {MPI_INT, MPI_UB}, h = 0, h2 = 0; long ld[2] = {0, 8}; void *in = a == api_f ? (void *)f_in_place : MPI_IN_PLACE;
                switch (i % 23) {
                case 0: bad = a->Type_vector(2, 1, 2, MPI_INT, &h) | a->Type_commit(&h) | a->Type_free(&h); break;
                case 1: bad = a->Type_hvector(2, 1, 8, MPI_INT, &h) | a->Type_create_hvector(1, 1, 8, h, &h2) | a->Type_free(&h) | a->Type_free(&h2); break;
                case 2: bad = a->Type_indexed(2, bl, ds, MPI_INT, &h) | a->Type_dup(h, &h2) | a->Type_free(&h) | a->Type_free(&h2); break;
                case 3: bad = a->Type_create_indexed_block(2, 1, ds, MPI_INT, &h) | a->Type_hindexed(2, bl, ld, MPI_INT, &h2) | a->Type_free(&h) | a->Type_free(&h2); break;
                case 4: bad = a->Type_struct(2, bl, ld, t2, &h) | a->Type_free(&h); break;
                case 5: bad = a->Gatherv(&s, 1, MPI_INT, &d, on, z, MPI_INT, 0, w) | (d != i); break;
                case 6: bad = a->Scatterv(&s, on, z, MPI_INT, &d, 1, MPI_INT, 0, w) | (d != i); break;
                case 7: bad = a->Allgatherv(&s, 1, MPI_INT, &d, on, z, MPI_INT, w) | (d != i); break;
                case 8: bad = a->Alltoallv(&s, on, z, MPI_INT, &d, on, z, MPI_INT, w) | (d != i); break;
                case 9: bad = a->Alltoallw(&s, on, z, ty, &d, on, z, ty, w) | (d != i); break;
                case 10: bad = a->Reduce_scatter(&s, &d, on, MPI_INT, MPI_SUM, w) | (d != i); break;
                case 11: bad = a->Gather(in, 1, MPI_INT, &d, 1, MPI_INT, 0, w) | a->Scatter(&s, 1, MPI_INT, in, 1, MPI_INT, 0, w) | a->Allreduce(in, &d, 1, MPI_INT, MPI_SUM, w) | (d != -1); break;
                case 12: bad = a->Bcast(&s, 1, MPI_INT, MPI_ROOT, w) | a->Barrier(w) | (s != i); break;
                case 13: { int g, k; bad = a->Comm_group(w, &g) | a->Group_intersection(g, MPI_GROUP_EMPTY, &h) | a->Group_difference(g, h, &k) | a->Comm_create(w, k, &h2) | a->Comm_create(w, h, &f) | (f != MPI_COMM_NULL) | a->Comm_free(&h2) | a->Group_free(&g) | a->Group_free(&h) | a->Group_free(&k); break; }
                case 14: { int g, q[1][3] = {{0, 0, 1}}; bad = a->Comm_group(w, &g) | a->Group_range_incl(g, 1, q, &h) | a->Group_free(&g) | a->Group_free(&h); break; }
                case 15: bad = a->Cart_create(w, 2, bl, ds, 1, &h) | a->Cart_get(h, 2, bl, ds, on) | a->Cart_coords(h, 0, 1, on) | a->Comm_dup(h, &h2) | a->Comm_free(&h) | a->Comm_free(&h2); break;
                case 16: ds[0] = 0; ds[1] = 1; bad = a->Dims_create(1, 2, ds) | (ds[0] != 1); break;
                case 17: bad = a->Intercomm_create(w, 0, w, 0, 5, &h) | a->Intercomm_merge(h, 1, &h2) | a->Comm_free(&h) | a->Comm_free(&h2); break;
                case 18: bad = a->Comm_split(w, MPI_UNDEFINED, 0, &h) | (h != MPI_COMM_NULL); break;
                case 19: { long u = -1; bad = a->Type_lb(MPI_DOUBLE_INT, &u) | (u != 0) | a->Type_ub(MPI_DOUBLE_INT, &u) | (u != 16); break; }
                case 20: { char b[MPI_MAX_PROCESSOR_NAME]; MPI_Aint x; bad = MPI_Get_processor_name(b, &h) | MPI_Error_string(5, b, &h) | MPI_Address(&s, &x) | MPI_Get_Version(&h, &h2) | (MPI_Wtime() < 0); break; }
                case 22: { char v[400]; bad = MPI_Op_create(nullptr, 1, &h) | MPI_Op_free(&h) | (MPI_Comm_f2c(MPI_Comm_c2f(w)) != w) | (MPI_Op_f2c(MPI_Op_c2f(MPI_MAX)) != MPI_MAX) | (MPI_Group_f2c(MPI_Group_c2f(MPI_GROUP_EMPTY)) != MPI_GROUP_EMPTY) | (MPI_Request_f2c(MPI_Request_c2f(MPI_REQUEST_NULL)) != MPI_REQUEST_NULL) | MPI_Get_library_version(v, &h) | MPI_Info_create(&h) | MPI_Info_set(h, (char *)"key", (char *)"value") | MPI_Info_free(&h); } break;
                case 21: bad = a->Initialized(&f) | (f != 1) | MPI_Info_create(&h) | MPI_Info_free(&h) | MPI_Errhandler_set(w, MPI_ERRORS_RETURN); break;
                } break; }
            }
            if (bad) return 1000 + i;
        }
        return 0;
    };
    mc::ok("an operation", get);
}
#define AGED_TEXT "200..66000 (thorough 131071) earlier operations (8, thorough 11 numbers, around every power of 256 and across it) of sixteen kinds (small numbers: of each routine) before and between (in quick runs the last eight kinds up to 200..260 times, or 65536 times before) "

// ten ways to send and receive two ints with one tag
static const int MODES = 10;
static bool mode_sends_first(int way) { return way >= 7; }
static void mode(P2P &p, int way, int c, int t, char *s, int rt, char *r, int src)
{
    const RType &i = p.t_int;
    switch (way) {
    case 0: case 1: case 2: case 3: p.irecv(c, rt, r, 2, i, src); p.send(way == 3 ? SM_IRSEND : SM_SEND + way, c, t, s, 2, i); break;
    case 4: p.irecv(c, rt, r, 2, i, src); p.send(SM_ISEND, c, t, s, 2, i); break;
    case 5: p.sendrecv(c, t, s, 2, i, rt, r, 2, i, 0, src); break;
    case 6: p.irecv(c, rt, r, 2, i, src); p.sendrecv(c, t, s, 2, i, MPI_ANY_TAG, p.fresh(2, i), 2, i, 0, MPI_PROC_NULL); break;
    case 7: p.send(SM_ISEND, c, t, s, 2, i); p.recv(c, rt, r, 2, i, src); break;
    case 8: p.send(SM_ISEND, c, t, s, 2, i); p.irecv(c, rt, r, 2, i, src); break;
    case 9: p.send(SM_ISEND, c, t, s, 2, i); p.sendrecv(c, 3, p.fresh(2, i), 2, i, rt, r, 2, i, MPI_PROC_NULL, src); break;
    }
}

// thousands of earlier operations, a script, as many more, the script again
template <class F> static void aged_twice(F script, int stl)
{
    int k = mc::choose(AGE_ALL, "earlier operations"), g = mc::choose(ages(), "how many"), lang = mc::choose(2, "language");
    P2P &p = pp; p.begin(lang ? api_f : api_c); p.stl = stl;
    int other = -7; mc::ok("Comm_dup", [&] { return p.api->Comm_dup(MPI_COMM_WORLD, &other); });
    for (int i = 0; i < 2; i++) { age(p, k, AGE[g][i], other); p.heapcheck = false; script(p, i); p.heapcheck = true; p.finish(); }
    mc::state(mc::mix(k * 16 + g, lang));
}
#define AGED_TWICE_TEXT "200..66000 (thorough 131071) earlier operations (8, thorough 11 numbers, around every power of 256 and across it) of sixteen kinds (small numbers: of each routine); after each of two such ages "
