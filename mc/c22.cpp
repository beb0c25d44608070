#include "ways.h"
using namespace mc;
const char *mc_property = "C22";
// a result between guard words
template <class T> struct Out { int g0; T v; int g1; Out(T x) : g0(0x31313131), v(x), g1(0x31313131) {} T got() { if (g0 != 0x31313131 || g1 != 0x31313131) mc::fail("a call wrote beyond its result"); return v; } };
extern "C" {
int mpi_abort_(int *, int *, int *);
int mpi_address_(void *, long *, int *);
int mpi_get_address_(void *, long *, int *);
int mpi_error_string_(int *, char *, int *, int *);
int mpi_get_library_version_(char *, int *, int *);
int mpi_get_processor_name_(char *, int *, int *);
int mpi_get_version_(int *, int *, int *);
int mpi_info_set_(int *, char *, char *, int *);
int mpi_op_create_(void *, int *, int *, int *);
double mpi_wtime_(void);
MPI_Request MPI_Request_f2c(MPI_Fint);
MPI_Fint MPI_Request_c2f(MPI_Request);
}
// One program, run twice from the pristine library: in C, and with some calls made through the Fortran bindings.
// Everything a call returns or writes is recorded; the two records must agree.
typedef std::vector<long> Log;
static Log *lg;
static void put(long x) { lg->push_back(x); }
struct World {
    std::vector<int> req, com, typ, grp; MPI_Status last;
    int nobj; std::vector<std::pair<int, int>> seen[3];      // handles by first appearance
    char *A, *B; char *pk; int pos;
} W;
static int name_of(int h, int kind)     // handles are compared by identity among the objects of their kind
{
    if (h <= 1 || h == -4242) return h;
    for (auto &x : W.seen[kind]) if (x.first == h) return x.second;
    int n = 1000 + (int)W.seen[kind].size(); W.seen[kind].push_back({h, n}); return n;
}
static void puth(int h, int kind) { put(name_of(h, kind)); }
static void forget(int h, int kind) { for (auto &x : W.seen[kind]) if (x.first == h) x.first = -99999; }
static void putst(const MPI_Status &s) { int w[sizeof s / sizeof(int)]; memcpy(w, &s, sizeof w); for (int x : w) put(x); }
static const char *opname = "";
// a call: its return code or how it ended the process
struct Ended {};
template <class F> static void C(const char *what, F f)
{
    opname = what; note("  %s", what);
    volatile int rc = 0; Term t = run([&] { rc = f(); });
    put(t.kind); put(t.kind == RETURNED ? (int)rc : t.code);
    if (const char *b = api_bad()) fail("%s", b);
    if (t.kind == CRASHED || t.kind == HUNG) fail("%s %s (%s)", what, kindname(t.kind), t.why ? t.why : "");
    if (t.kind != RETURNED) throw Ended();
}
static int last(std::vector<int> &v) { return v.empty() ? 0 : v.back(); }
static char *spot(int i) { return W.A + 256 * i; }
static const int NOPS = 100;
static bool alone(int e) { return e >= 84; }     // ends the process or needs no history
static void op(Api *a, int e, int step)
{
    MPI_Status st[8]; memset(st, 0x5a, sizeof st);
    int h = -4242, h2 = -4242, flag = -77, n = -4242, idx = -4242, one = 1, zero = 0, c = W.com.back(), t = last(W.typ), I = MPI_INT;
    bool F = a == api_f; int off = F ? 1 : 0;
    int comms0 = (int)W.com.size();
    auto gotreq = [&](int x) { puth(x, 0); W.req.push_back(x); };
    auto gotcom = [&](int x) { puth(x, 1); if (x) W.com.push_back(x); };
    auto gottyp = [&](int x) { puth(x, 2); W.typ.push_back(x); };
    auto gotgrp = [&](int x) { put(x); W.grp.push_back(x); };
    int arr[16], nr = (int)std::min<size_t>(W.req.size(), 6), base = (int)W.req.size() - nr; for (int i = 0; i < 16; i++) arr[i] = i < nr ? W.req[base + i] : 0x66666666;
    auto putarr = [&]() { for (int i = 0; i < 16; i++) { if (i < nr) { if (arr[i] == 0 && W.req[base + i]) forget(W.req[base + i], 0); put(arr[i] == 0 ? 0 : name_of(arr[i], 0)); W.req[base + i] = arr[i]; } else put(arr[i]); } };
    auto putidx = [&](int x) { put(x == MPI_UNDEFINED || x == -4242 ? x : x - off); };
    char *s = spot(step), *r = spot(8 + step); int nt = t && t > 0 ? 1 : 2, ty = t ? t : I;
    int cnt[2] = {2, -1}, dis[2] = {1, -1}, tys[2] = {I, 0};
    void *inp = F ? (void *)f_in_place : MPI_IN_PLACE;
    switch (e) {
    case 0: C("Isend", [&] { return a->Isend(s, 2, I, 0, 5, c, &h); }); gotreq(h); break;
    case 1: C("Isend", [&] { return a->Isend(s, nt, ty, 0, 6, MPI_COMM_WORLD, &h); }); gotreq(h); break;
    case 2: C("Isend", [&] { return a->Isend(s, 2, I, MPI_PROC_NULL, 5, c, &h); }); gotreq(h); break;
    case 3: C("Irsend", [&] { return a->Irsend(s, 1, I, 0, 5, c, &h); }); gotreq(h); break;
    case 4: C("Send", [&] { return a->Send(s, 1, I, 0, 5, c); }); break;
    case 5: C("Ssend", [&] { return a->Ssend(s, 1, I, 0, 6, MPI_COMM_WORLD); }); break;
    case 6: C("Rsend", [&] { return a->Rsend(s, 1, I, 0, 5, c); }); break;
    case 7: C("Irecv", [&] { return a->Irecv(r, 2, I, 0, 5, c, &h); }); gotreq(h); break;
    case 8: C("Irecv", [&] { return a->Irecv(r, nt, ty, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &h); }); gotreq(h); break;
    case 9: C("Irecv", [&] { return a->Irecv(r, 2, I, MPI_PROC_NULL, 5, c, &h); }); gotreq(h); break;
    case 10: C("Recv", [&] { return a->Recv(r, 3, I, 0, MPI_ANY_TAG, c, st); }); putst(st[0]); W.last = st[0]; break;
    case 11: C("Recv", [&] { return a->Recv(r, 3, I, 0, 6, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }); break;
    case 12: C("Sendrecv", [&] { return a->Sendrecv(s, 2, I, 0, 7, r, 3, I, 0, 7, c, st); }); putst(st[0]); W.last = st[0]; break;
    case 13: C("Sendrecv", [&] { return a->Sendrecv(s, 1, ty, 0, 5, r, 2, I, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE); }); break;
    case 14: case 15: case 16: case 17: {
        if (W.req.empty()) throw Skip(); int i = e & 1 ? (int)W.req.size() - 1 : 0; h = W.req[i]; bool send_or_null = false;
        C("Test", [&] { return a->Test(&h, &flag, e < 16 ? st : MPI_STATUS_IGNORE); });
        put(flag); if (!h && W.req[i]) forget(W.req[i], 0); puth(h, 0); W.req[i] = h; if (flag && e < 16) { putst(st[0]); W.last = st[0]; } break;
    }
    case 18: case 19: case 20: {
        if (W.req.empty()) throw Skip(); int i = e == 19 ? (int)W.req.size() - 1 : 0; h = W.req[i];
        C("Wait", [&] { return a->Wait(&h, e < 20 ? st : MPI_STATUS_IGNORE); });
        if (!h && W.req[i]) forget(W.req[i], 0); puth(h, 0); W.req[i] = h; if (e < 20) { putst(st[0]); W.last = st[0]; } break;
    }
    case 21: case 22: C("Testany", [&] { return a->Testany(nr, arr, &idx, &flag, e == 21 ? st : MPI_STATUS_IGNORE); }); putidx(idx); put(flag); putarr(); if (e == 21 && flag) { putst(st[0]); W.last = st[0]; } break;
    case 23: case 24: C("Waitany", [&] { return a->Waitany(nr, arr, &idx, e == 23 ? st : MPI_STATUS_IGNORE); }); putidx(idx); putarr(); if (e == 23) { putst(st[0]); W.last = st[0]; } break;
    case 25: case 26: C("Testall", [&] { return a->Testall(nr, arr, &flag, e == 25 ? st : MPI_STATUSES_IGNORE); }); put(flag); putarr(); if (flag && e == 25) for (int i = 0; i < nr; i++) putst(st[i]); break;
    case 27: case 28: C("Waitall", [&] { return a->Waitall(nr, arr, e == 27 ? st : MPI_STATUSES_IGNORE); }); putarr(); if (e == 27) for (int i = 0; i < nr; i++) putst(st[i]); break;
    case 29: case 30: case 31: case 32: {
        int ix[8]; for (int &x : ix) x = -4242; MPI_Status *sp = e & 1 ? st : MPI_STATUSES_IGNORE;
        if (e < 31) C("Testsome", [&] { return a->Testsome(nr, arr, &n, ix, sp); }); else C("Waitsome", [&] { return a->Waitsome(nr, arr, &n, ix, sp); });
        put(n); for (int x : ix) putidx(x); putarr(); if (e & 1) for (int i = 0; i < n; i++) putst(st[i]); break;
    }
    case 33: case 34: { if (W.req.empty()) throw Skip(); int i = e == 33 ? 0 : (int)W.req.size() - 1; h = W.req[i]; if (!h) throw Skip(); C("Request_free", [&] { return a->Request_free(&h); }); forget(W.req[i], 0); puth(h, 0); W.req[i] = h; break; }
    case 35: case 36: C("Iprobe", [&] { return a->Iprobe(e == 35 ? 0 : MPI_ANY_SOURCE, e == 35 ? 6 : MPI_ANY_TAG, c, &flag, e == 35 ? st : MPI_STATUS_IGNORE); }); put(flag); if (flag && e == 35) { putst(st[0]); W.last = st[0]; } break;
    case 37: C("Iprobe", [&] { return a->Iprobe(MPI_PROC_NULL, 1, c, &flag, st); }); put(flag); putst(st[0]); break;
    case 38: C("Probe", [&] { return a->Probe(0, MPI_ANY_TAG, MPI_COMM_WORLD, st); }); putst(st[0]); W.last = st[0]; break;
    case 39: C("Probe", [&] { return a->Probe(MPI_PROC_NULL, 3, c, MPI_STATUS_IGNORE); }); break;
    case 40: C("Get_count", [&] { return a->Get_count(&W.last, I, &n); }); put(n); C("Get_count", [&] { return a->Get_count(&W.last, ty, &n); }); put(n); C("Get_elements", [&] { return a->Get_elements(&W.last, ty, &n); }); put(n); break;
    case 41: C("Comm_dup", [&] { return a->Comm_dup(c, &h); }); gotcom(h); break;
    case 42: C("Comm_split", [&] { return a->Comm_split(c, 3, -1, &h); }); gotcom(h); break;
    case 43: C("Comm_split", [&] { return a->Comm_split(c, MPI_UNDEFINED, 0, &h); }); gotcom(h); break;
    case 44: C("Comm_create", [&] { return a->Comm_create(c, W.grp.back(), &h); }); gotcom(h); break;
    case 45: C("Comm_group", [&] { return a->Comm_group(c, &h); }); gotgrp(h); break;
    case 46: C("Intercomm_create", [&] { return a->Intercomm_create(c, 0, MPI_COMM_WORLD, 0, 9, &h); }); gotcom(h); break;
    case 47: { int d[3] = {1, 1, 1}, q[3] = {1, 0, 1}; C("Cart_create", [&] { return a->Cart_create(c, 3, d, q, 0, &h); }); gotcom(h); break; }
    case 48: { int d[5] = {9, 9, 9, 9, 9}, q[5] = {9, 9, 9, 9, 9}, k[5] = {9, 9, 9, 9, 9}; C("Cart_get", [&] { return a->Cart_get(c, 3, d, q, k); }); for (int i = 0; i < 5; i++) { put(d[i]); put(q[i] == 9 ? 9 : q[i] != 0); put(k[i]); } break; }
    case 49: { int k[4] = {9, 9, 9, 9}; C("Cart_coords", [&] { return a->Cart_coords(c, 0, 3, k); }); for (int x : k) put(x); break; }
    case 50: { int d[4] = {0, 1, 0, 9}; C("Dims_create", [&] { return a->Dims_create(1, 3, d); }); for (int x : d) put(x); break; }
    case 51: { if (c == MPI_COMM_WORLD) throw Skip(); h = c; C("Comm_free", [&] { return a->Comm_free(&h); }); forget(c, 1); puth(h, 1); W.com.pop_back(); break; }
    case 52: C("Comm_size", [&] { return a->Comm_size(c, &n); }); put(n); C("Comm_rank", [&] { return a->Comm_rank(c, &n); }); put(n); break;
    case 53: C("Group_incl", [&] { return a->Group_incl(W.grp.back(), 1, &zero, &h); }); gotgrp(h); break;
    case 54: { int q[1][3] = {{0, 0, 1}}; C("Group_range_incl", [&] { return a->Group_range_incl(W.grp.back(), 1, q, &h); }); gotgrp(h); break; }
    case 55: C("Group_union", [&] { return a->Group_union(W.grp.back(), W.grp[0], &h); }); gotgrp(h); break;
    case 56: C("Group_intersection", [&] { return a->Group_intersection(W.grp.back(), W.grp[0], &h); }); gotgrp(h); break;
    case 57: C("Group_difference", [&] { return a->Group_difference(W.grp.back(), W.grp[0], &h); }); gotgrp(h); break;
    case 58: { int q[3] = {0, 0, 0}, o[4] = {9, 9, 9, 9}; C("Group_translate_ranks", [&] { return a->Group_translate_ranks(W.grp[0], 3, q, W.grp.back(), o); }); for (int x : o) put(x); break; }
    case 59: { h = W.grp.back(); if (W.grp.size() < 2) throw Skip(); C("Group_free", [&] { return a->Group_free(&h); }); put(h); W.grp.pop_back(); break; }
    case 60: C("Barrier", [&] { return a->Barrier(c); }); C("Bcast", [&] { return a->Bcast(s, 2, I, 0, c); }); C("Bcast", [&] { return a->Bcast(s, 2, I, MPI_ROOT, c); }); break;
    case 61: C("Gather", [&] { return a->Gather(s, nt, ty, r, nt, ty, 0, c); }); C("Gather", [&] { return a->Gather(inp, 1, I, r, 1, I, 0, c); }); break;
    case 62: C("Gatherv", [&] { return a->Gatherv(s, 2, I, r, cnt, dis, I, 0, c); }); C("Gatherv", [&] { return a->Gatherv(inp, 2, I, r, cnt, dis, I, 0, c); }); break;
    case 63: C("Allgather", [&] { return a->Allgather(s, nt, ty, r, nt, ty, c); }); C("Allgather", [&] { return a->Allgather(inp, 2, I, r, 2, I, c); }); break;
    case 64: C("Allgatherv", [&] { return a->Allgatherv(s, 2, I, r, cnt, dis, I, c); }); C("Allgatherv", [&] { return a->Allgatherv(inp, 2, I, r, cnt, dis, I, c); }); break;
    case 65: C("Scatter", [&] { return a->Scatter(s, nt, ty, r, nt, ty, 0, c); }); C("Scatter", [&] { return a->Scatter(s, 2, I, inp, 2, I, 0, c); }); break;
    case 66: C("Scatterv", [&] { return a->Scatterv(s, cnt, dis, I, r, 2, I, 0, c); }); C("Scatterv", [&] { return a->Scatterv(s, cnt, dis, I, inp, 2, I, 0, c); }); break;
    case 67: C("Reduce", [&] { return a->Reduce(s, r, nt, ty, MPI_SUM, 0, c); }); C("Reduce", [&] { return a->Reduce(inp, r, 2, I, MPI_MAX, 0, c); }); break;
    case 68: C("Allreduce", [&] { return a->Allreduce(s, r, nt, ty, MPI_MAX, c); }); C("Allreduce", [&] { return a->Allreduce(inp, r, 2, I, MPI_MAX, c); }); break;
    case 69: C("Reduce_scatter", [&] { return a->Reduce_scatter(s, r, cnt, I, MPI_SUM, c); }); C("Reduce_scatter", [&] { return a->Reduce_scatter(inp, r, cnt, I, MPI_SUM, c); }); break;
    case 70: C("Scan", [&] { return a->Scan(s, r, nt, ty, MPI_PROD, c); }); C("Scan", [&] { return a->Scan(inp, r, 2, I, MPI_PROD, c); }); break;
    case 71: C("Alltoall", [&] { return a->Alltoall(s, nt, ty, r, nt, ty, c); }); C("Alltoall", [&] { return a->Alltoall(inp, 2, I, r, 2, I, c); }); break;
    case 72: C("Alltoallv", [&] { return a->Alltoallv(s, cnt, dis, I, r, cnt, dis, I, c); }); C("Alltoallv", [&] { return a->Alltoallv(inp, cnt, dis, I, r, cnt, dis, I, c); }); break;
    case 73: C("Alltoallw", [&] { return a->Alltoallw(s, cnt, dis, tys, r, cnt, dis, tys, c); }); C("Alltoallw", [&] { return a->Alltoallw(inp, cnt, dis, tys, r, cnt, dis, tys, c); }); break;
    case 74: C("Type_contiguous", [&] { return a->Type_contiguous(2, ty, &h); }); gottyp(h); C("Type_commit", [&] { return a->Type_commit(&h); }); break;
    case 75: C("Type_vector", [&] { return a->Type_vector(2, 1, 2, ty, &h); }); gottyp(h); C("Type_commit", [&] { return a->Type_commit(&h); }); break;
    case 76: C("Type_hvector", [&] { return a->Type_hvector(2, 1, 12, I, &h); }); gottyp(h); C("Type_create_hvector", [&] { return a->Type_create_hvector(2, 1, 32, h, &h2); }); gottyp(h2); C("Type_commit", [&] { return a->Type_commit(&h2); }); break;
    case 77: { int bl[2] = {1, 2}, d[2] = {3, 0}; C("Type_indexed", [&] { return a->Type_indexed(2, bl, d, I, &h); }); gottyp(h); C("Type_create_indexed_block", [&] { return a->Type_create_indexed_block(2, 1, d, I, &h2); }); gottyp(h2); C("Type_commit", [&] { return a->Type_commit(&h2); }); break; }
    case 78: { int bl[2] = {1, 2}; long d[2] = {16, 0}; C("Type_hindexed", [&] { return a->Type_hindexed(2, bl, d, I, &h); }); gottyp(h); C("Type_commit", [&] { return a->Type_commit(&h); }); break; }
    case 79: { int bl[3] = {1, 2, 1}, o[3] = {MPI_LB, I, MPI_UB}; long d[3] = {-4, 4, 24}; C("Type_struct", [&] { return a->Type_struct(3, bl, d, o, &h); }); gottyp(h); C("Type_commit", [&] { return a->Type_commit(&h); }); break; }
    case 80: C("Type_dup", [&] { return a->Type_dup(ty, &h); }); gottyp(h); break;
    case 81: { long x = -1; C("Type_size", [&] { return a->Type_size(ty, &n); }); put(n); C("Type_extent", [&] { return a->Type_extent(ty, &x); }); put(x); C("Type_lb", [&] { return a->Type_lb(ty, &x); }); put(x); C("Type_ub", [&] { return a->Type_ub(ty, &x); }); put(x); C("Pack_size", [&] { return a->Pack_size(3, ty, c, &n); }); put(n); break; }
    case 82: if (!t) throw Skip(); h = t; C("Type_free", [&] { return a->Type_free(&h); }); forget(t, 2); puth(h, 2); W.typ.pop_back(); break;
    case 83: C("Pack", [&] { return a->Pack(s, nt, ty, W.pk, 512, &W.pos, c); }); put(W.pos); n = 0; C("Unpack", [&] { return a->Unpack(W.pk, 512, &n, r, nt, ty, c); }); put(n); break;
    // single calls
    case 84: C("Initialized", [&] { return a->Initialized(&flag); }); put(flag); C("Finalize", [&] { return a->Finalize(); }); C("Initialized", [&] { return a->Initialized(&flag); }); put(flag); C("Init", [&] { return a->Init(); }); C("Initialized", [&] { return a->Initialized(&flag); }); put(flag); W.com = {MPI_COMM_WORLD}; W.req.clear(); W.typ.clear(); for (auto &v : W.seen) v.clear(); break;
    case 85: C("Finalize", [&] { return a->Finalize(); }); n = -1; C("Init_thread", [&] { return a->Init_thread(step % 4, &n); }); put(n); W.com = {MPI_COMM_WORLD}; W.req.clear(); W.typ.clear(); for (auto &v : W.seen) v.clear(); break;
    case 86: C("Info_create", [&] { return a->Info_create(&h); }); put(h); C("Info_set", [&] { if (!F) return MPI_Info_set(h, (char *)"key", (char *)"value"); Out<int> er(-777); mpi_info_set_(&h, (char *)"key", (char *)"value", &er.v); return er.got(); }); C("Info_free", [&] { return a->Info_free(&h); }); put(h); break;
    case 87: C("Op_create", [&] { Out<int> o(0x5a5a5a5a); int rc; if (!F) { rc = MPI_Op_create(nullptr, 1, &o.v); h = o.got(); return rc; } Out<int> er(-777); mpi_op_create_(nullptr, &one, &o.v, &er.v); h = o.got(); return er.got(); }); put(h); C("Op_free", [&] { return a->Op_free(&h); }); put(h); break;
    case 88: { char b[200]; memset(b, 0x5a, 200); n = -1; int code = step ? 77 : -1; C("Error_string", [&] { if (!F) return MPI_Error_string(code, b, &n); Out<int> er(-777); mpi_error_string_(&code, b, &n, &er.v); return er.got(); }); put(n); for (int i = 0; i < n && i < 200; i++) put(b[i]); put(b[199]); break; }
    case 89: { char b[200]; memset(b, 0x5a, 200); n = -1; C("Get_processor_name", [&] { if (!F) return MPI_Get_processor_name(b, &n); Out<int> er(-777); mpi_get_processor_name_(b, &n, &er.v); return er.got(); }); put(n); for (int i = 0; i < n && i < 200; i++) put(b[i]); put(b[199]); break; }
    case 90: { char b[200]; memset(b, 0x5a, 200); n = -1; C("Get_library_version", [&] { if (!F) return MPI_Get_library_version(b, &n); Out<int> er(-777); mpi_get_library_version_(b, &n, &er.v); return er.got(); }); put(n); for (int i = 0; i < n && i < 200; i++) put(b[i]); put(b[199]); break; }
    case 91: { Out<int> v(-9), w(-9); C("Get_version", [&] { if (!F) return MPI_Get_Version(&v.v, &w.v); Out<int> er(-777); mpi_get_version_(&v.v, &w.v, &er.v); return er.got(); }); put(v.got()); put(w.got()); break; }
    case 92: { env::clock_sec = 1234567890 + step; env::clock_usec = 250000; double d = 0; C("Wtime", [&] { d = F ? mpi_wtime_() : MPI_Wtime(); return 0; }); put((long)(d * 4)); break; }
    case 93: { Out<long> x(0); MPI_Aint y = 0; Out<int> er(-777); C("Address", [&] { if (!F) return MPI_Address(s, &y); mpi_address_(s, &x.v, &er.v); y = x.got(); return er.got(); }); put((long)y - (long)W.A); er.v = -777; C("Get_address", [&] { if (!F) return MPI_Get_address(r, &y); mpi_get_address_(r, &x.v, &er.v); y = x.got(); return er.got(); }); put((long)y - (long)W.A); break; }
    case 94: { int code = step * 3 + 2; C("Abort", [&] { if (!F) return MPI_Abort(c, code); Out<int> er(-777); mpi_abort_(&c, &code, &er.v); return er.got(); }); break; }
    case 95: C("Init", [&] { return a->Init(); }); break;
    case 96: C("Gather", [&] { return a->Gather(s, 1, I, r, 1, I, 1, c); }); break;
    case 97: C("Pack", [&] { n = 0; return a->Pack(s, 4, I, W.pk, 15, &n, c); }); break;
    case 98: { if (W.req.empty() || W.com.size() < 2) throw Skip(); h = W.req.back(); int q = MPI_Request_c2f(h); puth(q, 0); puth(MPI_Request_f2c(q), 0); q = MPI_Comm_c2f(c); puth(q, 1); puth(MPI_Comm_f2c(q), 1); puth(MPI_Op_c2f(MPI_SUM), 1); puth(MPI_Op_f2c(MPI_MAX), 1); break; }
    case 99: C("Recv", [&] { return a->Recv(r, 1, MPI_DOUBLE_INT, 0, 99, c, st); }); break;
    }
    (void)comms0; (void)h2;
}
// states from which the sequences start
static const int NSTART = 5;
static void start_state(Api *a, int k)
{
    C("Init", [&] { return a->Init(); });
    W.com.push_back(MPI_COMM_WORLD); int g = -1;
    C("Comm_group", [&] { return a->Comm_group(MPI_COMM_WORLD, &g); }); W.grp.push_back(g);
    static const std::vector<int> S[NSTART] = {{}, {1, 7, 74}, {47, 0, 8, 79}, {7, 0, 1, 45, 41}, {1, 1, 8, 77, 9, 34}};
    for (int e : S[k]) op(a, e, 0);
}
static long big(Log &l, const char *p, size_t n) { uint64_t h = 1; for (size_t i = 0; i + 8 <= n; i += 8) h = mix(h, *(const uint64_t *)(p + i)); l.push_back((long)h); return (long)h; }
static void program(const std::vector<int> &ops, int start, Api *init, unsigned mask, Log &l, int salt)
{
    pristine(); um.reset(salt); lg = &l; l.clear(); W = World();
    memset(&W.last, 0, sizeof W.last);
    W.A = um.alloc(8192, 16); W.pk = um.alloc(600, 16); W.pos = 0;
    note("in %s:", mask == 0 ? "C" : "both languages");
    try {
        start_state(init, start);
        for (size_t i = 0; i < ops.size(); i++) { Api *a = mask >> i & 1 ? api_f : api_c; if (a == api_f) note("  [Fortran]"); op(a, ops[i], (int)i + 1); big(l, W.A, 8192); big(l, W.pk, 600); }
    } catch (Ended &) { l.push_back(-1); }
    big(l, W.A, 8192); big(l, W.pk, 600);
    env::check_heap("end of the program");
    l.push_back(env::live_blocks); l.push_back(env::live_bytes);
}
static void compare(const std::vector<int> &ops, int start, Api *init, unsigned mask)
{
    static Log a, b;
    program(ops, start, api_c, 0, a, 1);
    uint64_t h = 1; for (long x : a) h = mix(h, x); state(h);
    program(ops, start, init, mask, b, 1);
    if (a != b) {
        size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
        fail("a program behaves differently when calls go through the Fortran bindings: recorded value %zu is %ld, in C %ld (last call %s)", i, i < b.size() ? b[i] : -1, i < a.size() ? a[i] : -1, opname);
    }
}
static void two()
{
    std::vector<int> ops; int s = choose(NSTART, "start"); unsigned m = 1 + choose(3, "languages");
    ops.push_back(choose(NOPS, "first")); ops.push_back(choose(NOPS, "second"));
    compare(ops, s, choose(2, "start in Fortran") ? api_f : api_c, m);
}
static void three()
{
    std::vector<int> ops; int s = choose(tier ? NSTART : 3, "start"); static const unsigned M[] = {7, 5, 2, 1, 3, 6, 4}; unsigned m = M[choose(tier ? 7 : 2, "languages")];
    for (int i = 0; i < 3; i++) ops.push_back(choose(tier ? NOPS : 84, "call"));
    compare(ops, s, m & 1 ? api_f : api_c, m);
}
// longer programs over the point-to-point and communicator calls
static void longer()
{
    static const int A[] = {0, 1, 7, 8, 10, 14, 21, 25, 29, 35, 34, 41};
    std::vector<int> ops; int len = tier ? 6 : 5; unsigned m = choose(2, "languages") ? 0x15 : 0x3f;
    for (int i = 0; i < len; i++) ops.push_back(A[choose(12, "call")]);
    compare(ops, 0, api_f, m);
}
// pairs of calls over and over, in one language and the other
static void again()
{
    static Log l[2]; int s = choose(2, "start") * 3, e1 = choose(84, "one call"), e2 = choose(84, "another"), m = choose(2, "both in Fortran"); int rounds = tier ? 700 : 150;
    for (int e : {e1, e2}) if (e == 74 || e == 75) throw Skip();       // these would double a datatype each time
    for (int k = 0; k < 2; k++) {
        pristine(); um.reset(1); lg = &l[k]; l[k].clear(); W = World(); memset(&W.last, 0, sizeof W.last);
        W.A = um.alloc(8192, 16); W.pk = um.alloc(600, 16); W.pos = 0;
        note("%d times, in %s:", rounds, k ? "both languages" : "C");
        try {
            start_state(k ? api_f : api_c, s);
            for (int i = 0; i < rounds; i++) for (int j = 0; j < 2; j++) {
                try { op(k && (m || j) ? api_f : api_c, j ? e2 : e1, 1 + i % 6); } catch (Skip &) { l[k].push_back(-2); }
                if (i % 50 == 0) { big(l[k], W.A, 8192); big(l[k], W.pk, 600); }
                if (W.pos > 400) W.pos = 0;
            }
            for (int x : {52, 25, 36, 83}) op(k && m ? api_f : api_c, x, 2);
        } catch (Ended &) { l[k].push_back(-1); }
        big(l[k], W.A, 8192); big(l[k], W.pk, 600); env::check_heap("end of the program");
        l[k].push_back(env::live_blocks); l[k].push_back(env::live_bytes);
    }
    uint64_t h = mix(e1, e2); for (long x : l[0]) h = mix(h, x); state(h);
    if (l[0] != l[1]) {
        size_t i = 0; while (i < l[0].size() && i < l[1].size() && l[0][i] == l[1][i]) i++;
        fail("calls made again and again behave differently through the Fortran bindings: recorded value %zu is %ld, in C %ld (last call %s)", i, i < l[1].size() ? l[1][i] : -1, i < l[0].size() ? l[0][i] : -1, opname);
    }
}
// One call with every combination of argument values, chosen while the program runs in C and repeated in the other run;
// then the same calls look at what it left behind.
static std::vector<int> picked; static size_t pick_at; static bool picking;
static int pick(int n, const char *what)
{
    if (picking) picked.push_back(choose(n, what));
    int v = pick_at < picked.size() ? picked[pick_at] : 0; pick_at++;
    return v < n ? v : n - 1;
}
static const int NGRID = 48;
static int n_(int k) { return pick(k, "count"); }
static int type_() { static const int T[] = {MPI_INT, MPI_DOUBLE_INT, MPI_CHAR, MPI_PACKED}; int k = pick(5, "type"); return k == 4 ? (W.typ.empty() ? MPI_REAL : W.typ.back()) : T[k]; }
static int small_type() { int k = pick(3, "type"); return k == 0 ? MPI_INT : k == 1 ? MPI_DOUBLE : W.typ.empty() ? MPI_REAL : W.typ.back(); }
static int comm_() { return pick(2, "communicator") ? W.com.back() : MPI_COMM_WORLD; }
static int tag_(bool any) { static const int G[] = {5, 0, 0x7fffffff, 6, MPI_ANY_TAG}; return G[pick(any ? 5 : 4, "tag")]; }
static int dest_() { static const int D[] = {0, MPI_PROC_NULL, 1, -5}; return D[pick(4, "destination")]; }
static int src_() { static const int D[] = {0, MPI_ANY_SOURCE, MPI_PROC_NULL, 1, -5}; return D[pick(5, "source")]; }
static int root_() { static const int D[] = {0, 1, MPI_ROOT, MPI_PROC_NULL, -1}; return D[pick(5, "root")]; }
static int oper_() { static const int D[] = {MPI_SUM, MPI_MAX, MPI_MAXLOC, MPI_LAND, MPI_OP_NULL}; return D[pick(5, "operation")]; }
static void grid_call(Api *a, int e)
{
    bool F = a == api_f; int off = F ? 1 : 0, h = -4242, n = -4242, flag = -77, idx = -4242; long x = -4242;
    MPI_Status st[8]; memset(st, 0x5a, sizeof st); MPI_Status *one = st, *many = st;
    char *s = spot(4), *r = spot(12); void *inp = F ? (void *)f_in_place : MPI_IN_PLACE;
    auto puts_ = [&](MPI_Status *p) { if (p == st) { putst(st[0]); W.last = st[0]; } };
    auto ign = [&]() { if (pick(2, "status")) one = MPI_STATUS_IGNORE; return one; };
    auto igns = [&]() { if (pick(2, "statuses")) many = MPI_STATUSES_IGNORE; return many; };
    auto req = [&]() { puth(h, 0); if (h && h != -4242) W.req.push_back(h); };
    auto com = [&]() { puth(h, 1); if (h && h != -4242) W.com.push_back(h); };
    auto typ = [&]() { puth(h, 2); W.typ.push_back(h); int q = h; C("Type_commit", [&] { return a->Type_commit(&q); }); int b = -1; C("Type_size", [&] { return a->Type_size(h, &b); }); put(b); long y = -1; C("Type_lb", [&] { return a->Type_lb(h, &y); }); put(y); C("Type_extent", [&] { return a->Type_extent(h, &y); }); put(y); };
    // the requests of the call: some of the pending ones, null ones between
    int arr[12], at[12], nr = 0; for (int &q : arr) q = 0x66666666;
    auto reqs = [&]() {
        int k = pick(4, "requests"), first = pick(2, "first request"), nulls = pick(3, "null requests");
        if (nulls == 1) { arr[nr] = 0; at[nr++] = -1; }
        for (int i = first; i < (int)W.req.size() && k > 0; i++, k--) { arr[nr] = W.req[i]; at[nr++] = i; }
        if (nulls == 2) { arr[nr] = 0; at[nr++] = -1; }
        if (k > 1) throw Skip();
    };
    auto putreqs = [&]() { for (int i = 0; i < 12; i++) { if (i >= nr || at[i] < 0) { put(arr[i]); continue; } int was = W.req[at[i]]; if (arr[i] == 0 && was) forget(was, 0); put(arr[i] ? name_of(arr[i], 0) : 0); W.req[at[i]] = arr[i]; } };
    auto putidx = [&](int q) { put(q == MPI_UNDEFINED || q == -4242 ? q : q - off); };
    int d[4], q[4], k[4], o[6]; for (int i = 0; i < 4; i++) d[i] = q[i] = k[i] = 99; for (int &y : o) y = 99;
    int c3[3] = {0, -1, -1}, e3[3] = {0, -1, -1}, t3[3] = {MPI_INT, 0, 0}, u3[3] = {MPI_INT, 0, 0};
    auto shape = [&](int *cs, int *ds, int *ts, int unit) { cs[0] = pick(3, "count"); ds[0] = pick(3, "displacement") * unit - unit; if (ts) ts[0] = small_type(); };
    int ty, nt, c;
    switch (e) {
    case 0: case 1: case 2: case 3: case 4: {
        nt = n_(3); ty = type_(); int ds = dest_(), tg = tag_(false); c = comm_();
        if (e == 0) { C("Isend", [&] { return a->Isend(s, nt, ty, ds, tg, c, &h); }); req(); }
        if (e == 1) { C("Irsend", [&] { return a->Irsend(s, nt, ty, ds, tg, c, &h); }); req(); }
        if (e == 2) C("Send", [&] { return a->Send(s, nt, ty, ds, tg, c); });
        if (e == 3) C("Ssend", [&] { return a->Ssend(s, nt, ty, ds, tg, c); });
        if (e == 4) C("Rsend", [&] { return a->Rsend(s, nt, ty, ds, tg, c); });
        break;
    }
    case 5: { nt = n_(4); ty = type_(); int sr = src_(), tg = tag_(true); c = comm_(); C("Irecv", [&] { return a->Irecv(r, nt, ty, sr, tg, c, &h); }); req(); break; }
    case 6: { nt = n_(4); ty = type_(); int sr = src_(), tg = tag_(true); c = comm_(); ign(); C("Recv", [&] { return a->Recv(r, nt, ty, sr, tg, c, one); }); puts_(one); break; }
    case 7: { int sr = src_(), tg = tag_(true); c = comm_(); ign(); C("Iprobe", [&] { return a->Iprobe(sr, tg, c, &flag, one); }); put(flag); if (flag) puts_(one); break; }
    case 8: { int sr = src_(), tg = tag_(true); c = comm_(); ign(); C("Probe", [&] { return a->Probe(sr, tg, c, one); }); puts_(one); break; }
    case 9: { nt = n_(3); ty = small_type(); int ds = dest_(), tg = tag_(false), m = n_(3) + 1, sr = src_(), tg2 = pick(3, "receive tag") ? MPI_ANY_TAG : tg; c = comm_(); ign();
        C("Sendrecv", [&] { return a->Sendrecv(s, nt, ty, ds, tg, r, m, ty, sr, tg2, c, one); }); puts_(one); break; }
    case 10: case 11: {
        reqs(); if (nr != 1) throw Skip(); ign();
        if (e == 10) { C("Test", [&] { return a->Test(arr, &flag, one); }); put(flag); if (flag) puts_(one); } else { C("Wait", [&] { return a->Wait(arr, one); }); puts_(one); }
        putreqs(); break;
    }
    case 12: reqs(); ign(); C("Testany", [&] { return a->Testany(nr, arr, &idx, &flag, one); }); putidx(idx); put(flag); putreqs(); if (flag) puts_(one); break;
    case 13: reqs(); ign(); C("Waitany", [&] { return a->Waitany(nr, arr, &idx, one); }); putidx(idx); putreqs(); puts_(one); break;
    case 14: reqs(); igns(); C("Testall", [&] { return a->Testall(nr, arr, &flag, many); }); put(flag); putreqs(); if (flag && many == st) for (int i = 0; i < nr; i++) putst(st[i]); break;
    case 15: reqs(); igns(); C("Waitall", [&] { return a->Waitall(nr, arr, many); }); putreqs(); if (many == st) for (int i = 0; i < nr; i++) putst(st[i]); break;
    case 16: case 17: {
        int ix[8]; for (int &y : ix) y = -4242; reqs(); igns();
        if (e == 16) C("Testsome", [&] { return a->Testsome(nr, arr, &n, ix, many); }); else C("Waitsome", [&] { return a->Waitsome(nr, arr, &n, ix, many); });
        put(n); for (int y : ix) putidx(y); putreqs(); if (many == st) for (int i = 0; i < n; i++) putst(st[i]); break;
    }
    case 18: reqs(); if (nr != 1 || !arr[0]) throw Skip(); C("Request_free", [&] { return a->Request_free(arr); }); putreqs(); break;
    case 19: ty = type_(); C("Get_count", [&] { return a->Get_count(&W.last, ty, &n); }); put(n); C("Get_elements", [&] { return a->Get_elements(&W.last, ty, &n); }); put(n); break;
    case 20: { static const int D[] = {1, 0, 2, -1}; nt = n_(4); c = comm_(); int ro = pick(2, "reorder"); for (int i = 0; i < nt; i++) { d[i] = D[pick(4, "dimension")]; q[i] = pick(2, "period"); } C("Cart_create", [&] { return a->Cart_create(c, nt, d, q, ro, &h); }); com();
        for (int i = 0; i < 4; i++) { put(d[i]); put(q[i]); d[i] = q[i] = 99; } C("Cart_get", [&] { return a->Cart_get(h, nt, d, q, k); }); for (int i = 0; i < 4; i++) { put(d[i]); put(i < nt ? q[i] != 0 : q[i]); put(k[i]); } break; }
    case 21: nt = n_(4); c = comm_(); C("Cart_get", [&] { return a->Cart_get(c, nt, d, q, k); }); for (int i = 0; i < 4; i++) { put(d[i]); put(q[i] == 99 ? 99 : q[i] != 0); put(k[i]); } break;
    case 22: { nt = n_(4); c = comm_(); static const int RK[] = {0, 1, -1, -2, 0x7fffffff}; int rk = RK[pick(5, "rank")]; C("Cart_coords", [&] { return a->Cart_coords(c, rk, nt, k); }); for (int y : k) put(y); break; }
    case 23: { nt = n_(4); static const int NN[] = {1, 2, 0, -1}; int nn = NN[pick(4, "processes")]; for (int i = 0; i < nt; i++) d[i] = pick(4, "dimension") - 1; C("Dims_create", [&] { return a->Dims_create(nn, nt, d); }); for (int y : d) put(y); break; }
    case 24: { static const int CO[] = {0, 1, 77, MPI_UNDEFINED}, K[] = {0, -1, 0x7fffffff}; c = comm_(); int co = CO[pick(4, "color")], ke = K[pick(3, "key")]; C("Comm_split", [&] { return a->Comm_split(c, co, ke, &h); }); com(); break; }
    case 25: { c = comm_(); int g = pick(2, "group") ? MPI_GROUP_EMPTY : W.grp.back(); C("Comm_create", [&] { return a->Comm_create(c, g, &h); }); com(); C("Comm_size", [&] { return a->Comm_size(W.com.back(), &n); }); put(n); break; }
    case 26: { c = pick(3, "local") ? W.com.back() : 0; int c2 = pick(3, "peer") ? MPI_COMM_WORLD : 0; C("Intercomm_create", [&] { return a->Intercomm_create(c, 0, c2, 0, 3, &h); }); com(); break; }
    case 27: { nt = n_(3); int g = pick(2, "group") ? MPI_GROUP_EMPTY : W.grp.back(); d[0] = pick(3, "rank") - 1; d[1] = pick(3, "rank") - 1; C("Group_incl", [&] { return a->Group_incl(g, nt, d, &h); }); put(h); W.grp.push_back(h); break; }
    case 28: { nt = n_(3); int g[2][3]; for (auto &y : g) { static const int LA[] = {0, 1, -1, 5}, ST[] = {1, -1, 0, 7}; y[0] = pick(3, "first") - 1; y[1] = LA[pick(4, "last")]; y[2] = ST[pick(4, "stride")]; } C("Group_range_incl", [&] { return a->Group_range_incl(W.grp.back(), nt, g, &h); }); put(h); W.grp.push_back(h); break; }
    case 29: { int g[2]; for (int &y : g) y = pick(2, "group") ? MPI_GROUP_EMPTY : W.grp[0]; int w = pick(3, "operation"); C("Group operation", [&] { return w == 0 ? a->Group_union(g[0], g[1], &h) : w == 1 ? a->Group_intersection(g[0], g[1], &h) : a->Group_difference(g[0], g[1], &h); }); put(h); W.grp.push_back(h); break; }
    case 30: { nt = n_(4); int g[2]; for (int &y : g) y = pick(2, "group") ? MPI_GROUP_EMPTY : W.grp[0]; static const int R[] = {0, MPI_PROC_NULL, 1}; for (int i = 0; i < 3; i++) d[i] = R[pick(3, "rank")]; C("Group_translate_ranks", [&] { return a->Group_translate_ranks(g[0], nt, d, g[1], o); }); for (int y : o) put(y); break; }
    case 31: { nt = n_(3); ty = type_(); int rt = root_(); c = comm_(); C("Bcast", [&] { return a->Bcast(s, nt, ty, rt, c); }); break; }
    case 32: { nt = n_(3); ty = small_type(); int w = pick(2, "in place"), rt = root_(), al = pick(2, "all"); c = comm_(); C("Gather", [&] { return al ? a->Allgather(w ? inp : s, nt, ty, r, nt, ty, c) : a->Gather(w ? inp : s, nt, ty, r, nt, ty, rt, c); }); break; }
    case 33: { shape(c3, e3, nullptr, 1); ty = small_type(); int w = pick(2, "in place"), rt = root_(), al = pick(2, "all"), sc = pick(2, "same") ? c3[0] : 2; c = comm_(); C("Gatherv", [&] { return al ? a->Allgatherv(w ? inp : s, sc, ty, r, c3, e3, ty, c) : a->Gatherv(w ? inp : s, sc, ty, r, c3, e3, ty, rt, c); }); break; }
    case 34: { nt = n_(3); ty = small_type(); int w = pick(2, "in place"), rt = root_(); c = comm_(); C("Scatter", [&] { return a->Scatter(s, nt, ty, w ? inp : r, nt, ty, rt, c); }); break; }
    case 35: { shape(c3, e3, nullptr, 1); ty = small_type(); int w = pick(2, "in place"), rt = root_(); c = comm_(); C("Scatterv", [&] { return a->Scatterv(s, c3, e3, ty, w ? inp : r, c3[0], ty, rt, c); }); break; }
    case 36: { nt = n_(3); ty = small_type(); int w = pick(2, "in place"), rt = root_(), op_ = oper_(); c = comm_(); C("Reduce", [&] { return a->Reduce(w ? inp : s, r, nt, ty, op_, rt, c); }); break; }
    case 37: { nt = n_(3); ty = small_type(); int w = pick(2, "in place"), op_ = oper_(), z = pick(3, "which"); c = comm_(); c3[0] = nt; C("Allreduce, Scan or Reduce_scatter", [&] { return z == 0 ? a->Allreduce(w ? inp : s, r, nt, ty, op_, c) : z == 1 ? a->Scan(w ? inp : s, r, nt, ty, op_, c) : a->Reduce_scatter(w ? inp : s, r, c3, ty, op_, c); }); break; }
    case 38: { nt = n_(3); ty = small_type(); int w = pick(2, "in place"); c = comm_(); C("Alltoall", [&] { return a->Alltoall(w ? inp : s, nt, ty, r, nt, ty, c); }); break; }
    case 39: { shape(c3, e3, nullptr, 1); ty = small_type(); int w = pick(2, "in place"), e4[2] = {pick(2, "receive displacement"), -1}; c = comm_(); C("Alltoallv", [&] { return a->Alltoallv(w ? inp : s, c3, e3, ty, r, c3, e4, ty, c); }); break; }
    case 40: { shape(c3, e3, t3, 4); u3[0] = t3[0]; int w = pick(2, "in place"), e4[2] = {pick(2, "receive displacement") * 8, -1}; c = comm_(); C("Alltoallw", [&] { return a->Alltoallw(w ? inp : s, c3, e3, t3, r, c3, e4, u3, c); }); break; }
    case 41: { nt = n_(3); ty = type_(); int w = pick(2, "which"), bl = pick(3, "length"), sd = pick(3, "stride") - 1; C("Type_contiguous or vector", [&] { return w ? a->Type_contiguous(nt, ty, &h) : a->Type_vector(nt, bl, sd * 3, ty, &h); }); typ(); break; }
    case 42: { nt = n_(3); ty = type_(); int w = pick(2, "which"), bl = pick(3, "length"); static const long SD[] = {0, -24, 17, 0x180000000L}; long sd = SD[pick(4, "stride")]; C("hvector", [&] { return w ? a->Type_hvector(nt, bl, sd, ty, &h) : a->Type_create_hvector(nt, bl, sd, ty, &h); }); typ(); break; }
    case 43: { nt = n_(3); ty = type_(); int w = pick(2, "which"), bl[2], ds[2]; for (int i = 0; i < 2; i++) { bl[i] = pick(3, "length"); ds[i] = pick(3, "displacement") * 4 - 4; } C("indexed", [&] { return w ? a->Type_indexed(nt, bl, ds, ty, &h) : a->Type_create_indexed_block(nt, bl[0], ds, ty, &h); }); typ(); break; }
    case 44: { nt = n_(3); int w = pick(2, "which"), bl[2], tt[2]; long ds[2]; static const long D[] = {0, -9, 0x200000001L}; static const int T[] = {MPI_INT, MPI_UB, MPI_LB, MPI_CHAR}; ty = w ? MPI_INT : 0; for (int i = 0; i < 2; i++) { bl[i] = pick(3, "length"); ds[i] = D[pick(3, "displacement")]; tt[i] = w ? 0 : T[pick(4, "type")]; } C("hindexed or struct", [&] { return w ? a->Type_hindexed(nt, bl, ds, ty, &h) : a->Type_struct(nt, bl, ds, tt, &h); }); typ(); break; }
    case 45: ty = type_(); C("Type_dup", [&] { return a->Type_dup(ty, &h); }); typ(); C("Type_ub", [&] { return a->Type_ub(ty, &x); }); put(x); break;
    case 46: { nt = n_(4); ty = type_(); c = comm_(); int sz = pick(3, "room") * 8, un = pick(2, "which"); W.pos = pick(3, "position") * 4; C("Pack or Unpack", [&] { return un ? a->Unpack(W.pk, sz, &W.pos, r, nt, ty, c) : a->Pack(s, nt, ty, W.pk, sz, &W.pos, c); }); put(W.pos); break; }
    case 47: { nt = n_(4); ty = type_(); c = comm_(); C("Pack_size", [&] { return a->Pack_size(nt, ty, c, &n); }); put(n); break; }
    }
}
static void grid()
{
    static Log l[2]; int s = choose(NSTART, "start"), e = choose(NGRID, "call"), rest = choose(2, "rest in Fortran");
    picked.clear();
    for (int k = 0; k < 2; k++) {
        Api *a = k ? api_f : api_c, *b = k && rest ? api_f : api_c;
        pristine(); um.reset(1); lg = &l[k]; l[k].clear(); W = World(); memset(&W.last, 0, sizeof W.last);
        W.A = um.alloc(8192, 16); W.pk = um.alloc(600, 16); W.pos = 0; picking = k == 0; pick_at = 0;
        note(k ? "in both languages:" : "in C:");
        try {
            start_state(b, s); grid_call(a, e); big(l[k], W.A, 8192); big(l[k], W.pk, 600);
            for (int x : {52, 36, 25, 40, 83}) if (x < 83 || e < 41) op(b, x, 2);
        } catch (Ended &) { l[k].push_back(-1); }
        big(l[k], W.A, 8192); big(l[k], W.pk, 600); env::check_heap("end of the program");
        l[k].push_back(env::live_blocks); l[k].push_back(env::live_bytes);
    }
    uint64_t h = e; for (long x : l[0]) h = mix(h, x); state(h);
    if (l[0] != l[1]) {
        size_t i = 0; while (i < l[0].size() && i < l[1].size() && l[0][i] == l[1][i]) i++;
        fail("a call behaves differently through its Fortran binding: recorded value %zu is %ld, in C %ld (last call %s)", i, i < l[1].size() ? l[1][i] : -1, i < l[0].size() ? l[0][i] : -1, opname);
    }
}
// contents of ordinary variables never make them special
static void ordinary()
{
    Api *a = pick_api(); P2P &p = pp; p.begin(a); p.stl = 2;
    static const long V[] = {0, -1, 1, -2, -3, 0x7fffffff, 0, 0, 0, (long)0xffffffff, -4242}; int v = choose(11, "contents"), k = choose(16, "call"); long val = V[v];
    if (v == 6) val = (long)f_in_place; if (v == 7) val = (long)f_status_ignore; if (v == 8) val = (long)f_statuses_ignore;
    RType t = p.t_int; char *s = p.fresh(4, t), *r = p.fresh(4, t);
    for (char *b : {s, r}) for (int i = 0; i < 2; i++) p.api == a ? um.write(b + 8 * i, &val, 8) : (void)0;
    int n = 4, z = 0, th = t.h, Wc = MPI_COMM_WORLD, one = 1; (void)one;
    note("call %d with %lx in the buffers", k, val);
    bool copy = true;
    switch (k) {
    case 0: ok("Gather", [&] { return a->Gather(s, n, th, r, n, th, 0, Wc); }); break;
    case 1: ok("Gatherv", [&] { return a->Gatherv(s, n, th, r, &n, &z, th, 0, Wc); }); break;
    case 2: ok("Allgather", [&] { return a->Allgather(s, n, th, r, n, th, Wc); }); break;
    case 3: ok("Allgatherv", [&] { return a->Allgatherv(s, n, th, r, &n, &z, th, Wc); }); break;
    case 4: ok("Scatter", [&] { return a->Scatter(s, n, th, r, n, th, 0, Wc); }); break;
    case 5: ok("Scatterv", [&] { return a->Scatterv(s, &n, &z, th, r, n, th, 0, Wc); }); break;
    case 6: ok("Reduce", [&] { return a->Reduce(s, r, n, th, MPI_SUM, 0, Wc); }); break;
    case 7: ok("Allreduce", [&] { return a->Allreduce(s, r, n, th, MPI_SUM, Wc); }); break;
    case 8: ok("Reduce_scatter", [&] { return a->Reduce_scatter(s, r, &n, th, MPI_SUM, Wc); }); break;
    case 9: ok("Scan", [&] { return a->Scan(s, r, n, th, MPI_SUM, Wc); }); break;
    case 10: ok("Alltoall", [&] { return a->Alltoall(s, n, th, r, n, th, Wc); }); break;
    case 11: ok("Alltoallv", [&] { return a->Alltoallv(s, &n, &z, th, r, &n, &z, th, Wc); }); break;
    case 12: ok("Alltoallw", [&] { return a->Alltoallw(s, &n, &z, &th, r, &n, &z, &th, Wc); }); break;
    default: {
        // statuses holding the value beforehand are still filled
        copy = false; MPI_Status st[3]; for (auto &x : st) { int w[sizeof x / sizeof(int)]; for (int &y : w) y = (int)val; memcpy(&x, w, sizeof w); memcpy((char *)&x, &val, 8); }
        int q[2] = {-1, -1};
        ok("Irecv", [&] { return a->Irecv(r, n, th, 0, 8, Wc, q); }); ok("Isend", [&] { return a->Isend(s, n, th, 0, 8, Wc, q + 1); });
        if (k == 13) ok("Wait", [&] { return a->Wait(q, st); }); else if (k == 14) ok("Waitall", [&] { return a->Waitall(2, q, st); }); else { int fl = -77; ok("Testall", [&] { return a->Testall(2, q, &fl, st); }); if (fl != 1) fail("Testall of complete requests gives flag %d", fl); }
        if (st[0].MPI_SOURCE != 0 || st[0].MPI_TAG != 8) fail("a status holding %lx beforehand was not filled", val);
        int c = -1; ok("Get_count", [&] { return a->Get_count(st, th, &c); }); if (c != n) fail("a status holding %lx beforehand gives count %d", val, c);
        memcpy(um.ref(r), um.ref(s), 16);
    }
    }
    if (copy) memcpy(um.ref(r), um.ref(s), 16);
    p.after("the call"); state(k * 16 + v);
}
// before initialization
static void before()
{
    static const int E[] = {84, 88, 89, 90, 91, 92, 93, 86, 87, 94, 95}; int e1 = E[1 + choose(9, "first")], e2 = E[1 + choose(10, "second")], m = 1 + choose(3, "languages");
    static Log l[2];
    for (int k = 0; k < 2; k++) {
        pristine(); um.reset(1); lg = &l[k]; l[k].clear(); W = World(); W.A = um.alloc(8192, 16); W.com.push_back(MPI_COMM_WORLD); int f = -77;
        try {
            C("Initialized", [&] { return (k && m & 1 ? api_f : api_c)->Initialized(&f); }); put(f);
            op(k && m & 1 ? api_f : api_c, e1, 1); op(k && m & 2 ? api_f : api_c, e2, 2);
            C("Initialized", [&] { return (k && m & 2 ? api_f : api_c)->Initialized(&f); }); put(f);
        } catch (Ended &) { l[k].push_back(-1); }
    }
    if (l[0] != l[1]) fail("calls before initialization behave differently in Fortran");
    state(e1 * 100 + e2);
}
// Fortran's MPI_BOTTOM
static void bottom() { guarded([] { bottom_space(api_f, pp, 0, WAYS); }); }
static void bottom_address()
{
    Api *a = pick_api(); P2P &p = pp; p.begin(a); int how = choose(2, "routine"), err = -777; long x = -1, y = -1; char *v = um.alloc(8);
    auto get = [&](void *p, long *to) { ok("the Fortran address routine", [&] { return how ? mpi_address_(p, to, &err) : mpi_get_address_(p, to, &err); }); if (err) fail("error %d", err); err = -777; };
    get(f_bottom, &x); get(v, &y);
    if (x != 0) fail("Fortran's MPI_BOTTOM has address %lx, not 0", x);
    if (y != (long)v) fail("the address of a variable is given as %lx instead of %p", y, v);
    state(how); p.finish();
}
// handles converted between the languages, however many there are: each still names its own object
static void convert()
{
    static const int N[] = {1, 2, 40, 41, 42, 255, 256, 257, 300, 1000, 4097, 33000, 70001}; int n = N[choose(13, "objects")], kind = choose(2, "kind"), lang = choose(2, "language"), turn = choose(2, "order");
    if (n > 70000 && turn && !tier) throw Skip();
    pristine(); um.reset(8); Api *a = lang ? api_f : api_c, *b = lang ? api_c : api_f; state(n * 8 + kind * 4 + lang * 2 + turn);
    ok("Init", [&] { return a->Init(); });
    static std::vector<int> h, val; h.assign(n, 0); val.assign(n, -1); MPI_Status st;
    auto here = [&](int i) { return turn ? n - 1 - i : i; };
    auto over = [&](int i) -> int { int x = h[i]; return kind ? (lang ? MPI_Comm_f2c(x) : MPI_Comm_c2f(x)) : lang ? MPI_Request_f2c(x) : MPI_Request_c2f(x); };
    auto back = [&](int x) -> int { return kind ? (lang ? MPI_Comm_c2f(x) : MPI_Comm_f2c(x)) : lang ? MPI_Request_c2f(x) : MPI_Request_f2c(x); };
    for (int i = 0; i < n; i++) {
        if (kind) ok("Comm_dup", [&] { return a->Comm_dup(MPI_COMM_WORLD, &h[i]); });
        else ok("Irecv", [&] { return a->Irecv(&val[i], 1, MPI_INT, 0, i, MPI_COMM_WORLD, &h[i]); });
    }
    for (int i = 0; i < n; i++) if (back(over(i)) != h[i]) fail("the handle of %s %d of %d changes from one language to the other and back", kind ? "communicator" : "request", i, n);
    for (int i = 0; i < n; i++) {
        int j = here(i), x = over(j), v = j + 5, q = 0;
        note("object %d of %d", j, n);
        if (kind) { ok("Isend", [&] { return a->Isend(&v, 1, MPI_INT, 0, 3, h[j], &q); }); ok("Recv", [&] { return b->Recv(&val[j], 1, MPI_INT, 0, 3, x, &st); }); ok("Wait", [&] { return a->Wait(&q, &st); }); ok("Comm_free", [&] { return b->Comm_free(&x); }); if (x) fail("freeing through a converted handle leaves it %d", x); }
        else { ok("Send", [&] { return a->Send(&v, 1, MPI_INT, 0, j, MPI_COMM_WORLD); }); ok("Wait", [&] { return b->Wait(&x, &st); }); if (x || st.MPI_TAG != j) fail("waiting through a converted handle leaves it %d, tag %d instead of %d", x, st.MPI_TAG, j); }
        if (val[j] != v) fail("object %d of %d: received %d instead of %d", j, n, val[j], v);
    }
    static const int O[] = {MPI_SUM, MPI_MAX, MPI_MIN, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_MINLOC, MPI_MAXLOC, MPI_OP_NULL};
    for (int o : O) if (MPI_Op_f2c(MPI_Op_c2f(o)) != o || MPI_Op_c2f(o) != o) fail("operation %d changes from one language to the other", o);
    for (int o : {MPI_GROUP_NULL, MPI_GROUP_EMPTY}) if (MPI_Group_f2c(MPI_Group_c2f(o)) != o || MPI_Group_c2f(o) != o) fail("group %d changes from one language to the other", o);
}
std::vector<Space> mc_spaces()
{
    return {
        {"two", "all programs of two calls out of 100 from five starting states, every assignment of the languages to the calls, against the same program in C", two},
        {"three", "all programs of three calls (84 of them from three states with two language assignments; thorough: 100, five, seven)", three},
        {"grid", "48 calls or groups of calls with every combination of counts, types, ranks, tags, dimensions, displacements, ignored statuses, null requests and in-place buffers from small sets, in five states", grid},
        {"longer", "all programs of five (thorough six) calls out of twelve", longer},
        {"again", "every pair of 82 calls made 150 (thorough 700) times in turn from two states, the second or both in Fortran", again},
        {"ordinary", "sixteen calls with buffers and statuses that contain special values and addresses", ordinary},
        {"bottom", "21 ways of moving data through the Fortran routines from or to Fortran's MPI_BOTTOM with datatypes of absolute addresses of 30 layouts over three bases; empty transfers there", bottom},
        {"bottom_address", "the address of Fortran's MPI_BOTTOM and of a variable", bottom_address},
        {"convert", "up to 70001 requests or communicators alive, each used in the other language through its converted handle, first or last first", convert},
        {"before", "pairs of calls before initialization", before},
    };
}
