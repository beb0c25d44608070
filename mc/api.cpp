#include "api.h"
#include <stdio.h>
#include <string.h>
int *f_status_ignore, *f_statuses_ignore, *f_in_place, *f_bottom;
extern "C" {
void mcf_take_(int *a, int *b, int *c, int *d) { f_status_ignore = a; f_statuses_ignore = b; f_in_place = c; f_bottom = d; }
void mcf_init_addrs_(void);
int mpi_init_(void *);
int mpi_init_thread_(void *, void *, void *);
int mpi_pack_size_(void *, void *, void *, void *, void *);
int mpi_group_range_incl_(void *, void *, void *, void *, void *);
int mpi_isend_(void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_irsend_(void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_send_(void *, void *, void *, void *, void *, void *, void *);
int mpi_ssend_(void *, void *, void *, void *, void *, void *, void *);
int mpi_rsend_(void *, void *, void *, void *, void *, void *, void *);
int mpi_irecv_(void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_recv_(void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_sendrecv_(void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_test_(void *, void *, void *, void *);
int mpi_wait_(void *, void *, void *);
int mpi_testany_(void *, void *, void *, void *, void *, void *);
int mpi_waitany_(void *, void *, void *, void *, void *);
int mpi_testall_(void *, void *, void *, void *, void *);
int mpi_waitall_(void *, void *, void *, void *);
int mpi_testsome_(void *, void *, void *, void *, void *, void *);
int mpi_waitsome_(void *, void *, void *, void *, void *, void *);
int mpi_request_free_(void *, void *);
int mpi_iprobe_(void *, void *, void *, void *, void *, void *);
int mpi_probe_(void *, void *, void *, void *, void *);
int mpi_get_count_(void *, void *, void *, void *);
int mpi_get_elements_(void *, void *, void *, void *);
int mpi_comm_free_(void *, void *);
int mpi_comm_size_(void *, void *, void *);
int mpi_comm_rank_(void *, void *, void *);
int mpi_comm_dup_(void *, void *, void *);
int mpi_comm_create_(void *, void *, void *, void *);
int mpi_comm_split_(void *, void *, void *, void *, void *);
int mpi_comm_group_(void *, void *, void *);
int mpi_intercomm_create_(void *, void *, void *, void *, void *, void *, void *);
int mpi_group_incl_(void *, void *, void *, void *, void *);
int mpi_group_union_(void *, void *, void *, void *);
int mpi_group_intersection_(void *, void *, void *, void *);
int mpi_group_difference_(void *, void *, void *, void *);
int mpi_group_free_(void *, void *);
int mpi_group_translate_ranks_(void *, void *, void *, void *, void *, void *);
int mpi_cart_create_(void *, void *, void *, void *, void *, void *, void *);
int mpi_cart_get_(void *, void *, void *, void *, void *, void *);
int mpi_cart_coords_(void *, void *, void *, void *, void *);
int mpi_dims_create_(void *, void *, void *, void *);
int mpi_barrier_(void *, void *);
int mpi_bcast_(void *, void *, void *, void *, void *, void *);
int mpi_gather_(void *, void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_gatherv_(void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_allgather_(void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_allgatherv_(void *, void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_scatter_(void *, void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_scatterv_(void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_reduce_(void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_allreduce_(void *, void *, void *, void *, void *, void *, void *);
int mpi_reduce_scatter_(void *, void *, void *, void *, void *, void *, void *);
int mpi_scan_(void *, void *, void *, void *, void *, void *, void *);
int mpi_alltoall_(void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_alltoallv_(void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_alltoallw_(void *, void *, void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_type_contiguous_(void *, void *, void *, void *);
int mpi_type_vector_(void *, void *, void *, void *, void *, void *);
int mpi_type_hvector_(void *, void *, void *, void *, void *, void *);
int mpi_type_create_hvector_(void *, void *, void *, void *, void *, void *);
int mpi_type_indexed_(void *, void *, void *, void *, void *, void *);
int mpi_type_create_indexed_block_(void *, void *, void *, void *, void *, void *);
int mpi_type_hindexed_(void *, void *, void *, void *, void *, void *);
int mpi_type_struct_(void *, void *, void *, void *, void *, void *);
int mpi_type_dup_(void *, void *, void *);
int mpi_type_size_(void *, void *, void *);
int mpi_type_extent_(void *, void *, void *);
int mpi_type_lb_(void *, void *, void *);
int mpi_type_ub_(void *, void *, void *);
int mpi_type_commit_(void *, void *);
int mpi_type_free_(void *, void *);
int mpi_pack_(void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_unpack_(void *, void *, void *, void *, void *, void *, void *, void *);
int mpi_initialized_(void *, void *);
int mpi_finalize_(void *);
int mpi_info_create_(void *, void *);
int mpi_info_free_(void *, void *);
int mpi_op_free_(void *, void *);
}
namespace {
// a result between guard words: a routine that writes more than its result is caught
const char *bad_fn, *bad_arg; bool bad_input;
template <class T> struct GuardedT {
    int pre[2]; T v; int post[2];
    explicit GuardedT(T x) { pre[0] = pre[1] = 0x5a5a1234; post[0] = post[1] = 0x5a5a4321; v = x; }
    bool intact() { return pre[0] == 0x5a5a1234 && pre[1] == 0x5a5a1234 && post[0] == 0x5a5a4321 && post[1] == 0x5a5a4321; }
    T check(const char *fn, const char *arg) { if (!intact()) { bad_fn = fn; bad_arg = arg; bad_input = false; } return v; }
};
const int UNSET = 0x5a5aa5a5;     // what results hold before
const long UNSETL = 0x5a5aa5a55a5aa5a5L;
typedef GuardedT<int> Guarded; typedef GuardedT<long> GuardedLong;
// an argument that is only read (a Fortran program may pass a constant)
template <class T> struct InT : GuardedT<T> {
    T was; const char *fn, *arg;
    InT(T x, const char *f, const char *a) : GuardedT<T>(x), was(x), fn(f), arg(a) {}
    ~InT() { if (!this->intact() || this->v != was) { bad_fn = fn; bad_arg = arg; bad_input = true; } }
};
typedef InT<int> In; typedef InT<long> InLong;
void *fbuf(void *p) { return p == MPI_BOTTOM ? (void *)f_bottom : p; }
void *fplace(void *p) { return p == MPI_IN_PLACE ? (void *)f_in_place : fbuf(p); }
void *fstatus(MPI_Status *s) { return s == MPI_STATUS_IGNORE ? (void *)f_status_ignore : (void *)s; }
void *fstatuses(MPI_Status *s) { return s == MPI_STATUSES_IGNORE ? (void *)f_statuses_ignore : (void *)s; }

// any nonzero flag is true in C; an unwritten one stays as it was
void truth(int *flag) { if (*flag && *flag != -77) *flag = 1; }
struct CApi : Api {
    CApi() { lang = "C"; }
    int Init() override { return MPI_Init(NULL, NULL); }
    int Init_thread(int r, int *p) override { Guarded g(*p); int rc = MPI_Init_thread(NULL, NULL, r, &g.v); *p = g.check("Init_thread", "provided"); return rc; }
    int Pack_size(int n, int t, int comm, int *size) override { GuardedLong s(UNSETL); int rc = MPI_Pack_size(n, t, comm, &s.v); long v = s.check("Pack_size", "size"); *size = v == (int)v ? (int)v : -999; return rc; }
    int Group_range_incl(int g, int n, int (*r)[3], int *ng) override { Guarded g_ng(UNSET); int rc = MPI_Group_range_incl(g, n, r, &g_ng.v); *ng = g_ng.check("Group_range_incl", "ng"); return rc; }
    int Intercomm_merge(int c, int high, int *nc) override { Guarded g_nc(*nc); int rc = MPI_Intercomm_merge(c, high, &g_nc.v); *nc = g_nc.check("Intercomm_merge", "nc"); return rc; }
    int Isend(void *buf, int count, int type, int dest, int tag, int comm, int *req) override { Guarded g_req(*req); int rc = MPI_Isend(buf, count, type, dest, tag, comm, &g_req.v); *req = g_req.check("Isend", "req"); return rc; }
    int Irsend(void *buf, int count, int type, int dest, int tag, int comm, int *req) override { Guarded g_req(*req); int rc = MPI_Irsend(buf, count, type, dest, tag, comm, &g_req.v); *req = g_req.check("Irsend", "req"); return rc; }
    int Send(void *buf, int count, int type, int dest, int tag, int comm) override { return MPI_Send(buf, count, type, dest, tag, comm); }
    int Ssend(void *buf, int count, int type, int dest, int tag, int comm) override { return MPI_Ssend(buf, count, type, dest, tag, comm); }
    int Rsend(void *buf, int count, int type, int dest, int tag, int comm) override { return MPI_Rsend(buf, count, type, dest, tag, comm); }
    int Irecv(void *buf, int count, int type, int src, int tag, int comm, int *req) override { Guarded g_req(*req); int rc = MPI_Irecv(buf, count, type, src, tag, comm, &g_req.v); *req = g_req.check("Irecv", "req"); return rc; }
    int Recv(void *buf, int count, int type, int src, int tag, int comm, MPI_Status *st) override { return MPI_Recv(buf, count, type, src, tag, comm, st); }
    int Sendrecv(void *sbuf, int scount, int stype, int dest, int stag, void *rbuf, int rcount, int rtype, int src, int rtag, int comm, MPI_Status *st) override { return MPI_Sendrecv(sbuf, scount, stype, dest, stag, rbuf, rcount, rtype, src, rtag, comm, st); }
    int Test(int *req, int *flag, MPI_Status *st) override { Guarded g_req(*req); Guarded g_flag(*flag); int rc = MPI_Test(&g_req.v, &g_flag.v, st); *req = g_req.check("Test", "req"); *flag = g_flag.check("Test", "flag"); truth(flag); return rc; }
    int Wait(int *req, MPI_Status *st) override { Guarded g_req(*req); int rc = MPI_Wait(&g_req.v, st); *req = g_req.check("Wait", "req"); return rc; }
    int Testany(int n, int *reqs, int *index, int *flag, MPI_Status *st) override { Guarded g_index(*index); Guarded g_flag(*flag); int rc = MPI_Testany(n, reqs, &g_index.v, &g_flag.v, st); *index = g_index.check("Testany", "index"); *flag = g_flag.check("Testany", "flag"); truth(flag); return rc; }
    int Waitany(int n, int *reqs, int *index, MPI_Status *st) override { Guarded g_index(*index); int rc = MPI_Waitany(n, reqs, &g_index.v, st); *index = g_index.check("Waitany", "index"); return rc; }
    int Testall(int n, int *reqs, int *flag, MPI_Status *sts) override { Guarded g_flag(*flag); int rc = MPI_Testall(n, reqs, &g_flag.v, sts); *flag = g_flag.check("Testall", "flag"); truth(flag); return rc; }
    int Waitall(int n, int *reqs, MPI_Status *sts) override { return MPI_Waitall(n, reqs, sts); }
    int Testsome(int n, int *reqs, int *out, int *idx, MPI_Status *sts) override { Guarded g_out(*out); int rc = MPI_Testsome(n, reqs, &g_out.v, idx, sts); *out = g_out.check("Testsome", "out"); return rc; }
    int Waitsome(int n, int *reqs, int *out, int *idx, MPI_Status *sts) override { Guarded g_out(*out); int rc = MPI_Waitsome(n, reqs, &g_out.v, idx, sts); *out = g_out.check("Waitsome", "out"); return rc; }
    int Request_free(int *req) override { Guarded g_req(*req); int rc = MPI_Request_free(&g_req.v); *req = g_req.check("Request_free", "req"); return rc; }
    int Iprobe(int src, int tag, int comm, int *flag, MPI_Status *st) override { Guarded g_flag(*flag); int rc = MPI_Iprobe(src, tag, comm, &g_flag.v, st); *flag = g_flag.check("Iprobe", "flag"); truth(flag); return rc; }
    int Probe(int src, int tag, int comm, MPI_Status *st) override { return MPI_Probe(src, tag, comm, st); }
    int Get_count(MPI_Status *st, int type, int *count) override { Guarded g_count(UNSET); int rc = MPI_Get_count(st, type, &g_count.v); *count = g_count.check("Get_count", "count"); return rc; }
    int Get_elements(MPI_Status *st, int type, int *count) override { Guarded g_count(UNSET); int rc = MPI_Get_elements(st, type, &g_count.v); *count = g_count.check("Get_elements", "count"); return rc; }
    int Comm_free(int *comm) override { Guarded g_comm(*comm); int rc = MPI_Comm_free(&g_comm.v); *comm = g_comm.check("Comm_free", "comm"); return rc; }
    int Comm_size(int comm, int *size) override { Guarded g_size(UNSET); int rc = MPI_Comm_size(comm, &g_size.v); *size = g_size.check("Comm_size", "size"); return rc; }
    int Comm_rank(int comm, int *rank) override { Guarded g_rank(UNSET); int rc = MPI_Comm_rank(comm, &g_rank.v); *rank = g_rank.check("Comm_rank", "rank"); return rc; }
    int Comm_dup(int comm, int *newcomm) override { Guarded g_newcomm(UNSET); int rc = MPI_Comm_dup(comm, &g_newcomm.v); *newcomm = g_newcomm.check("Comm_dup", "newcomm"); return rc; }
    int Comm_create(int comm, int group, int *newcomm) override { Guarded g_newcomm(UNSET); int rc = MPI_Comm_create(comm, group, &g_newcomm.v); *newcomm = g_newcomm.check("Comm_create", "newcomm"); return rc; }
    int Comm_split(int comm, int color, int key, int *newcomm) override { Guarded g_newcomm(UNSET); int rc = MPI_Comm_split(comm, color, key, &g_newcomm.v); *newcomm = g_newcomm.check("Comm_split", "newcomm"); return rc; }
    int Comm_group(int comm, int *group) override { Guarded g_group(UNSET); int rc = MPI_Comm_group(comm, &g_group.v); *group = g_group.check("Comm_group", "group"); return rc; }
    int Intercomm_create(int lc, int ll, int pc, int rl, int tag, int *newcomm) override { Guarded g_newcomm(UNSET); int rc = MPI_Intercomm_create(lc, ll, pc, rl, tag, &g_newcomm.v); *newcomm = g_newcomm.check("Intercomm_create", "newcomm"); return rc; }
    int Group_incl(int g, int n, int *ranks, int *ng) override { Guarded g_ng(UNSET); int rc = MPI_Group_incl(g, n, ranks, &g_ng.v); *ng = g_ng.check("Group_incl", "ng"); return rc; }
    int Group_union(int g1, int g2, int *ng) override { Guarded g_ng(UNSET); int rc = MPI_Group_union(g1, g2, &g_ng.v); *ng = g_ng.check("Group_union", "ng"); return rc; }
    int Group_intersection(int g1, int g2, int *ng) override { Guarded g_ng(UNSET); int rc = MPI_Group_intersection(g1, g2, &g_ng.v); *ng = g_ng.check("Group_intersection", "ng"); return rc; }
    int Group_difference(int g1, int g2, int *ng) override { Guarded g_ng(UNSET); int rc = MPI_Group_difference(g1, g2, &g_ng.v); *ng = g_ng.check("Group_difference", "ng"); return rc; }
    int Group_free(int *g) override { Guarded g_g(*g); int rc = MPI_Group_free(&g_g.v); *g = g_g.check("Group_free", "g"); return rc; }
    int Group_translate_ranks(int g1, int n, int *r1, int g2, int *r2) override { return MPI_Group_translate_ranks(g1, n, r1, g2, r2); }
    int Cart_create(int comm, int nd, int *dims, int *periods, int reorder, int *newcomm) override { Guarded g_newcomm(UNSET); int rc = MPI_Cart_create(comm, nd, dims, periods, reorder, &g_newcomm.v); *newcomm = g_newcomm.check("Cart_create", "newcomm"); return rc; }
    int Cart_get(int comm, int nd, int *dims, int *periods, int *coords) override { return MPI_Cart_get(comm, nd, dims, periods, coords); }
    int Cart_coords(int comm, int rank, int nd, int *coords) override { return MPI_Cart_coords(comm, rank, nd, coords); }
    int Dims_create(int n, int nd, int *dims) override { return MPI_Dims_create(n, nd, dims); }
    int Barrier(int comm) override { return MPI_Barrier(comm); }
    int Bcast(void *buf, int count, int type, int root, int comm) override { return MPI_Bcast(buf, count, type, root, comm); }
    int Gather(void *sb, int sc, int st, void *rb, int rc, int rt, int root, int comm) override { return MPI_Gather(sb, sc, st, rb, rc, rt, root, comm); }
    int Gatherv(void *sb, int sc, int st, void *rb, int *rcs, int *displs, int rt, int root, int comm) override { return MPI_Gatherv(sb, sc, st, rb, rcs, displs, rt, root, comm); }
    int Allgather(void *sb, int sc, int st, void *rb, int rc, int rt, int comm) override { return MPI_Allgather(sb, sc, st, rb, rc, rt, comm); }
    int Allgatherv(void *sb, int sc, int st, void *rb, int *rcs, int *displs, int rt, int comm) override { return MPI_Allgatherv(sb, sc, st, rb, rcs, displs, rt, comm); }
    int Scatter(void *sb, int sc, int st, void *rb, int rc, int rt, int root, int comm) override { return MPI_Scatter(sb, sc, st, rb, rc, rt, root, comm); }
    int Scatterv(void *sb, int *scs, int *displs, int st, void *rb, int rc, int rt, int root, int comm) override { return MPI_Scatterv(sb, scs, displs, st, rb, rc, rt, root, comm); }
    int Reduce(void *sb, void *rb, int count, int type, int op, int root, int comm) override { return MPI_Reduce(sb, rb, count, type, op, root, comm); }
    int Allreduce(void *sb, void *rb, int count, int type, int op, int comm) override { return MPI_Allreduce(sb, rb, count, type, op, comm); }
    int Reduce_scatter(void *sb, void *rb, int *rcs, int type, int op, int comm) override { return MPI_Reduce_scatter(sb, rb, rcs, type, op, comm); }
    int Scan(void *sb, void *rb, int count, int type, int op, int comm) override { return MPI_Scan(sb, rb, count, type, op, comm); }
    int Alltoall(void *sb, int sc, int st, void *rb, int rc, int rt, int comm) override { return MPI_Alltoall(sb, sc, st, rb, rc, rt, comm); }
    int Alltoallv(void *sb, int *scs, int *sds, int st, void *rb, int *rcs, int *rds, int rt, int comm) override { return MPI_Alltoallv(sb, scs, sds, st, rb, rcs, rds, rt, comm); }
    int Alltoallw(void *sb, int *scs, int *sds, int *sts, void *rb, int *rcs, int *rds, int *rts, int comm) override { return MPI_Alltoallw(sb, scs, sds, sts, rb, rcs, rds, rts, comm); }
    int Type_contiguous(int n, int old, int *nt) override { Guarded g_nt(UNSET); int rc = MPI_Type_contiguous(n, old, &g_nt.v); *nt = g_nt.check("Type_contiguous", "nt"); return rc; }
    int Type_vector(int n, int bl, int stride, int old, int *nt) override { Guarded g_nt(UNSET); int rc = MPI_Type_vector(n, bl, stride, old, &g_nt.v); *nt = g_nt.check("Type_vector", "nt"); return rc; }
    int Type_hvector(int n, int bl, long stride, int old, int *nt) override { Guarded g_nt(UNSET); int rc = MPI_Type_hvector(n, bl, (MPI_Aint)stride, old, &g_nt.v); *nt = g_nt.check("Type_hvector", "nt"); return rc; }
    int Type_create_hvector(int n, int bl, long stride, int old, int *nt) override { Guarded g_nt(UNSET); int rc = MPI_Type_create_hvector(n, bl, (MPI_Aint)stride, old, &g_nt.v); *nt = g_nt.check("Type_create_hvector", "nt"); return rc; }
    int Type_indexed(int n, int *bls, int *ds, int old, int *nt) override { Guarded g_nt(UNSET); int rc = MPI_Type_indexed(n, bls, ds, old, &g_nt.v); *nt = g_nt.check("Type_indexed", "nt"); return rc; }
    int Type_create_indexed_block(int n, int bl, int *ds, int old, int *nt) override { Guarded g_nt(UNSET); int rc = MPI_Type_create_indexed_block(n, bl, ds, old, &g_nt.v); *nt = g_nt.check("Type_create_indexed_block", "nt"); return rc; }
    int Type_hindexed(int n, int *bls, long *ds, int old, int *nt) override { Guarded g_nt(UNSET); int rc = MPI_Type_hindexed(n, bls, (MPI_Aint *)ds, old, &g_nt.v); *nt = g_nt.check("Type_hindexed", "nt"); return rc; }
    int Type_struct(int n, int *bls, long *ds, int *olds, int *nt) override { Guarded g_nt(UNSET); int rc = MPI_Type_struct(n, bls, (MPI_Aint *)ds, olds, &g_nt.v); *nt = g_nt.check("Type_struct", "nt"); return rc; }
    int Type_dup(int old, int *nt) override { Guarded g_nt(UNSET); int rc = MPI_Type_dup(old, &g_nt.v); *nt = g_nt.check("Type_dup", "nt"); return rc; }
    int Type_size(int t, int *size) override { Guarded g_size(UNSET); int rc = MPI_Type_size(t, &g_size.v); *size = g_size.check("Type_size", "size"); return rc; }
    int Type_extent(int t, long *extent) override { GuardedLong g_extent(UNSETL); int rc = MPI_Type_extent(t, (MPI_Aint *)&g_extent.v); *extent = g_extent.check("Type_extent", "extent"); return rc; }
    int Type_lb(int t, long *lb) override { GuardedLong g_lb(UNSETL); int rc = MPI_Type_lb(t, (MPI_Aint *)&g_lb.v); *lb = g_lb.check("Type_lb", "lb"); return rc; }
    int Type_ub(int t, long *ub) override { GuardedLong g_ub(UNSETL); int rc = MPI_Type_ub(t, (MPI_Aint *)&g_ub.v); *ub = g_ub.check("Type_ub", "ub"); return rc; }
    int Type_commit(int *t) override { Guarded g_t(*t); int rc = MPI_Type_commit(&g_t.v); *t = g_t.check("Type_commit", "t"); return rc; }
    int Type_free(int *t) override { Guarded g_t(*t); int rc = MPI_Type_free(&g_t.v); *t = g_t.check("Type_free", "t"); return rc; }
    int Pack(void *in, int n, int t, void *out, int size, int *pos, int comm) override { Guarded g_pos(*pos); int rc = MPI_Pack(in, n, t, out, size, &g_pos.v, comm); *pos = g_pos.check("Pack", "pos"); return rc; }
    int Unpack(void *in, int size, int *pos, void *out, int n, int t, int comm) override { Guarded g_pos(*pos); int rc = MPI_Unpack(in, size, &g_pos.v, out, n, t, comm); *pos = g_pos.check("Unpack", "pos"); return rc; }
    int Initialized(int *flag) override { Guarded g_flag(*flag); int rc = MPI_Initialized(&g_flag.v); *flag = g_flag.check("Initialized", "flag"); truth(flag); return rc; }
    int Finalize() override { return MPI_Finalize(); }
    int Info_create(int *info) override { Guarded g_info(UNSET); int rc = MPI_Info_create(&g_info.v); *info = g_info.check("Info_create", "info"); return rc; }
    int Info_free(int *info) override { Guarded g_info(*info); int rc = MPI_Info_free(&g_info.v); *info = g_info.check("Info_free", "info"); return rc; }
    int Op_free(int *op) override { Guarded g_op(*op); int rc = MPI_Op_free(&g_op.v); *op = g_op.check("Op_free", "op"); return rc; }
};
struct FApi : Api {
    FApi() { lang = "Fortran"; mcf_init_addrs_(); mc::at_start = api_reset; mc::at_end = api_bad; }
    int Init() override { Guarded e(-777); mpi_init_(&e.v); return e.check("Init", "ierror"); }
    int Init_thread(int r, int *p) override { Guarded g(*p), e(-777); mpi_init_thread_(&r, &g.v, &e.v); *p = g.check("Init_thread", "provided"); return e.check("Init_thread", "ierror"); }
    int Pack_size(int n, int t, int comm, int *size) override { Guarded g(-1), e(-777); mpi_pack_size_(&n, &t, &comm, &g.v, &e.v); *size = g.check("Pack_size", "size"); return e.check("Pack_size", "ierror"); }
    int Group_range_incl(int g, int n, int (*r)[3], int *ng) override { Guarded o(UNSET), e(-777); mpi_group_range_incl_(&g, &n, r, &o.v, &e.v); *ng = o.check("Group_range_incl", "newgroup"); return e.check("Group_range_incl", "ierror"); }
    int Intercomm_merge(int c, int high, int *nc) override { return MPI_Intercomm_merge(c, high, nc); }   // no Fortran binding
    int Isend(void *buf, int count, int type, int dest, int tag, int comm, int *req) override { In f_count(count, "Isend", "count"); In f_type(type, "Isend", "type"); In f_dest(dest, "Isend", "dest"); In f_tag(tag, "Isend", "tag"); In f_comm(comm, "Isend", "comm"); Guarded g_req(*req); Guarded g_err(-777); mpi_isend_(fbuf(buf), &f_count.v, &f_type.v, &f_dest.v, &f_tag.v, &f_comm.v, &g_req.v, &g_err.v); *req = g_req.check("Isend", "req"); return g_err.check("Isend", "ierror"); }
    int Irsend(void *buf, int count, int type, int dest, int tag, int comm, int *req) override { In f_count(count, "Irsend", "count"); In f_type(type, "Irsend", "type"); In f_dest(dest, "Irsend", "dest"); In f_tag(tag, "Irsend", "tag"); In f_comm(comm, "Irsend", "comm"); Guarded g_req(*req); Guarded g_err(-777); mpi_irsend_(fbuf(buf), &f_count.v, &f_type.v, &f_dest.v, &f_tag.v, &f_comm.v, &g_req.v, &g_err.v); *req = g_req.check("Irsend", "req"); return g_err.check("Irsend", "ierror"); }
    int Send(void *buf, int count, int type, int dest, int tag, int comm) override { In f_count(count, "Send", "count"); In f_type(type, "Send", "type"); In f_dest(dest, "Send", "dest"); In f_tag(tag, "Send", "tag"); In f_comm(comm, "Send", "comm"); Guarded g_err(-777); mpi_send_(fbuf(buf), &f_count.v, &f_type.v, &f_dest.v, &f_tag.v, &f_comm.v, &g_err.v); return g_err.check("Send", "ierror"); }
    int Ssend(void *buf, int count, int type, int dest, int tag, int comm) override { In f_count(count, "Ssend", "count"); In f_type(type, "Ssend", "type"); In f_dest(dest, "Ssend", "dest"); In f_tag(tag, "Ssend", "tag"); In f_comm(comm, "Ssend", "comm"); Guarded g_err(-777); mpi_ssend_(fbuf(buf), &f_count.v, &f_type.v, &f_dest.v, &f_tag.v, &f_comm.v, &g_err.v); return g_err.check("Ssend", "ierror"); }
    int Rsend(void *buf, int count, int type, int dest, int tag, int comm) override { In f_count(count, "Rsend", "count"); In f_type(type, "Rsend", "type"); In f_dest(dest, "Rsend", "dest"); In f_tag(tag, "Rsend", "tag"); In f_comm(comm, "Rsend", "comm"); Guarded g_err(-777); mpi_rsend_(fbuf(buf), &f_count.v, &f_type.v, &f_dest.v, &f_tag.v, &f_comm.v, &g_err.v); return g_err.check("Rsend", "ierror"); }
    int Irecv(void *buf, int count, int type, int src, int tag, int comm, int *req) override { In f_count(count, "Irecv", "count"); In f_type(type, "Irecv", "type"); In f_src(src, "Irecv", "src"); In f_tag(tag, "Irecv", "tag"); In f_comm(comm, "Irecv", "comm"); Guarded g_req(*req); Guarded g_err(-777); mpi_irecv_(fbuf(buf), &f_count.v, &f_type.v, &f_src.v, &f_tag.v, &f_comm.v, &g_req.v, &g_err.v); *req = g_req.check("Irecv", "req"); return g_err.check("Irecv", "ierror"); }
    int Recv(void *buf, int count, int type, int src, int tag, int comm, MPI_Status *st) override { In f_count(count, "Recv", "count"); In f_type(type, "Recv", "type"); In f_src(src, "Recv", "src"); In f_tag(tag, "Recv", "tag"); In f_comm(comm, "Recv", "comm"); Guarded g_err(-777); mpi_recv_(fbuf(buf), &f_count.v, &f_type.v, &f_src.v, &f_tag.v, &f_comm.v, fstatus(st), &g_err.v); return g_err.check("Recv", "ierror"); }
    int Sendrecv(void *sbuf, int scount, int stype, int dest, int stag, void *rbuf, int rcount, int rtype, int src, int rtag, int comm, MPI_Status *st) override { In f_scount(scount, "Sendrecv", "scount"); In f_stype(stype, "Sendrecv", "stype"); In f_dest(dest, "Sendrecv", "dest"); In f_stag(stag, "Sendrecv", "stag"); In f_rcount(rcount, "Sendrecv", "rcount"); In f_rtype(rtype, "Sendrecv", "rtype"); In f_src(src, "Sendrecv", "src"); In f_rtag(rtag, "Sendrecv", "rtag"); In f_comm(comm, "Sendrecv", "comm"); Guarded g_err(-777); mpi_sendrecv_(fbuf(sbuf), &f_scount.v, &f_stype.v, &f_dest.v, &f_stag.v, fbuf(rbuf), &f_rcount.v, &f_rtype.v, &f_src.v, &f_rtag.v, &f_comm.v, fstatus(st), &g_err.v); return g_err.check("Sendrecv", "ierror"); }
    int Test(int *req, int *flag, MPI_Status *st) override { Guarded g_req(*req); Guarded g_flag(*flag); Guarded g_err(-777); mpi_test_(&g_req.v, &g_flag.v, fstatus(st), &g_err.v); *req = g_req.check("Test", "req"); *flag = g_flag.check("Test", "flag"); return g_err.check("Test", "ierror"); }
    int Wait(int *req, MPI_Status *st) override { Guarded g_req(*req); Guarded g_err(-777); mpi_wait_(&g_req.v, fstatus(st), &g_err.v); *req = g_req.check("Wait", "req"); return g_err.check("Wait", "ierror"); }
    int Testany(int n, int *reqs, int *index, int *flag, MPI_Status *st) override { In f_n(n, "Testany", "n"); Guarded g_index(*index); Guarded g_flag(*flag); Guarded g_err(-777); mpi_testany_(&f_n.v, reqs, &g_index.v, &g_flag.v, fstatus(st), &g_err.v); *index = g_index.check("Testany", "index"); *flag = g_flag.check("Testany", "flag"); return g_err.check("Testany", "ierror"); }
    int Waitany(int n, int *reqs, int *index, MPI_Status *st) override { In f_n(n, "Waitany", "n"); Guarded g_index(*index); Guarded g_err(-777); mpi_waitany_(&f_n.v, reqs, &g_index.v, fstatus(st), &g_err.v); *index = g_index.check("Waitany", "index"); return g_err.check("Waitany", "ierror"); }
    int Testall(int n, int *reqs, int *flag, MPI_Status *sts) override { In f_n(n, "Testall", "n"); Guarded g_flag(*flag); Guarded g_err(-777); mpi_testall_(&f_n.v, reqs, &g_flag.v, fstatuses(sts), &g_err.v); *flag = g_flag.check("Testall", "flag"); return g_err.check("Testall", "ierror"); }
    int Waitall(int n, int *reqs, MPI_Status *sts) override { In f_n(n, "Waitall", "n"); Guarded g_err(-777); mpi_waitall_(&f_n.v, reqs, fstatuses(sts), &g_err.v); return g_err.check("Waitall", "ierror"); }
    int Testsome(int n, int *reqs, int *out, int *idx, MPI_Status *sts) override { In f_n(n, "Testsome", "n"); Guarded g_out(*out); Guarded g_err(-777); mpi_testsome_(&f_n.v, reqs, &g_out.v, idx, fstatuses(sts), &g_err.v); *out = g_out.check("Testsome", "out"); return g_err.check("Testsome", "ierror"); }
    int Waitsome(int n, int *reqs, int *out, int *idx, MPI_Status *sts) override { In f_n(n, "Waitsome", "n"); Guarded g_out(*out); Guarded g_err(-777); mpi_waitsome_(&f_n.v, reqs, &g_out.v, idx, fstatuses(sts), &g_err.v); *out = g_out.check("Waitsome", "out"); return g_err.check("Waitsome", "ierror"); }
    int Request_free(int *req) override { Guarded g_req(*req); Guarded g_err(-777); mpi_request_free_(&g_req.v, &g_err.v); *req = g_req.check("Request_free", "req"); return g_err.check("Request_free", "ierror"); }
    int Iprobe(int src, int tag, int comm, int *flag, MPI_Status *st) override { In f_src(src, "Iprobe", "src"); In f_tag(tag, "Iprobe", "tag"); In f_comm(comm, "Iprobe", "comm"); Guarded g_flag(*flag); Guarded g_err(-777); mpi_iprobe_(&f_src.v, &f_tag.v, &f_comm.v, &g_flag.v, fstatus(st), &g_err.v); *flag = g_flag.check("Iprobe", "flag"); return g_err.check("Iprobe", "ierror"); }
    int Probe(int src, int tag, int comm, MPI_Status *st) override { In f_src(src, "Probe", "src"); In f_tag(tag, "Probe", "tag"); In f_comm(comm, "Probe", "comm"); Guarded g_err(-777); mpi_probe_(&f_src.v, &f_tag.v, &f_comm.v, fstatus(st), &g_err.v); return g_err.check("Probe", "ierror"); }
    int Get_count(MPI_Status *st, int type, int *count) override { In f_type(type, "Get_count", "type"); Guarded g_count(UNSET); Guarded g_err(-777); mpi_get_count_(fstatus(st), &f_type.v, &g_count.v, &g_err.v); *count = g_count.check("Get_count", "count"); return g_err.check("Get_count", "ierror"); }
    int Get_elements(MPI_Status *st, int type, int *count) override { In f_type(type, "Get_elements", "type"); Guarded g_count(UNSET); Guarded g_err(-777); mpi_get_elements_(fstatus(st), &f_type.v, &g_count.v, &g_err.v); *count = g_count.check("Get_elements", "count"); return g_err.check("Get_elements", "ierror"); }
    int Comm_free(int *comm) override { Guarded g_comm(*comm); Guarded g_err(-777); mpi_comm_free_(&g_comm.v, &g_err.v); *comm = g_comm.check("Comm_free", "comm"); return g_err.check("Comm_free", "ierror"); }
    int Comm_size(int comm, int *size) override { In f_comm(comm, "Comm_size", "comm"); Guarded g_size(UNSET); Guarded g_err(-777); mpi_comm_size_(&f_comm.v, &g_size.v, &g_err.v); *size = g_size.check("Comm_size", "size"); return g_err.check("Comm_size", "ierror"); }
    int Comm_rank(int comm, int *rank) override { In f_comm(comm, "Comm_rank", "comm"); Guarded g_rank(UNSET); Guarded g_err(-777); mpi_comm_rank_(&f_comm.v, &g_rank.v, &g_err.v); *rank = g_rank.check("Comm_rank", "rank"); return g_err.check("Comm_rank", "ierror"); }
    int Comm_dup(int comm, int *newcomm) override { In f_comm(comm, "Comm_dup", "comm"); Guarded g_newcomm(UNSET); Guarded g_err(-777); mpi_comm_dup_(&f_comm.v, &g_newcomm.v, &g_err.v); *newcomm = g_newcomm.check("Comm_dup", "newcomm"); return g_err.check("Comm_dup", "ierror"); }
    int Comm_create(int comm, int group, int *newcomm) override { In f_comm(comm, "Comm_create", "comm"); In f_group(group, "Comm_create", "group"); Guarded g_newcomm(UNSET); Guarded g_err(-777); mpi_comm_create_(&f_comm.v, &f_group.v, &g_newcomm.v, &g_err.v); *newcomm = g_newcomm.check("Comm_create", "newcomm"); return g_err.check("Comm_create", "ierror"); }
    int Comm_split(int comm, int color, int key, int *newcomm) override { In f_comm(comm, "Comm_split", "comm"); In f_color(color, "Comm_split", "color"); In f_key(key, "Comm_split", "key"); Guarded g_newcomm(UNSET); Guarded g_err(-777); mpi_comm_split_(&f_comm.v, &f_color.v, &f_key.v, &g_newcomm.v, &g_err.v); *newcomm = g_newcomm.check("Comm_split", "newcomm"); return g_err.check("Comm_split", "ierror"); }
    int Comm_group(int comm, int *group) override { In f_comm(comm, "Comm_group", "comm"); Guarded g_group(UNSET); Guarded g_err(-777); mpi_comm_group_(&f_comm.v, &g_group.v, &g_err.v); *group = g_group.check("Comm_group", "group"); return g_err.check("Comm_group", "ierror"); }
    int Intercomm_create(int lc, int ll, int pc, int rl, int tag, int *newcomm) override { In f_lc(lc, "Intercomm_create", "lc"); In f_ll(ll, "Intercomm_create", "ll"); In f_pc(pc, "Intercomm_create", "pc"); In f_rl(rl, "Intercomm_create", "rl"); In f_tag(tag, "Intercomm_create", "tag"); Guarded g_newcomm(UNSET); Guarded g_err(-777); mpi_intercomm_create_(&f_lc.v, &f_ll.v, &f_pc.v, &f_rl.v, &f_tag.v, &g_newcomm.v, &g_err.v); *newcomm = g_newcomm.check("Intercomm_create", "newcomm"); return g_err.check("Intercomm_create", "ierror"); }
    int Group_incl(int g, int n, int *ranks, int *ng) override { In f_g(g, "Group_incl", "g"); In f_n(n, "Group_incl", "n"); Guarded g_ng(UNSET); Guarded g_err(-777); mpi_group_incl_(&f_g.v, &f_n.v, ranks, &g_ng.v, &g_err.v); *ng = g_ng.check("Group_incl", "ng"); return g_err.check("Group_incl", "ierror"); }
    int Group_union(int g1, int g2, int *ng) override { In f_g1(g1, "Group_union", "g1"); In f_g2(g2, "Group_union", "g2"); Guarded g_ng(UNSET); Guarded g_err(-777); mpi_group_union_(&f_g1.v, &f_g2.v, &g_ng.v, &g_err.v); *ng = g_ng.check("Group_union", "ng"); return g_err.check("Group_union", "ierror"); }
    int Group_intersection(int g1, int g2, int *ng) override { In f_g1(g1, "Group_intersection", "g1"); In f_g2(g2, "Group_intersection", "g2"); Guarded g_ng(UNSET); Guarded g_err(-777); mpi_group_intersection_(&f_g1.v, &f_g2.v, &g_ng.v, &g_err.v); *ng = g_ng.check("Group_intersection", "ng"); return g_err.check("Group_intersection", "ierror"); }
    int Group_difference(int g1, int g2, int *ng) override { In f_g1(g1, "Group_difference", "g1"); In f_g2(g2, "Group_difference", "g2"); Guarded g_ng(UNSET); Guarded g_err(-777); mpi_group_difference_(&f_g1.v, &f_g2.v, &g_ng.v, &g_err.v); *ng = g_ng.check("Group_difference", "ng"); return g_err.check("Group_difference", "ierror"); }
    int Group_free(int *g) override { Guarded g_g(*g); Guarded g_err(-777); mpi_group_free_(&g_g.v, &g_err.v); *g = g_g.check("Group_free", "g"); return g_err.check("Group_free", "ierror"); }
    int Group_translate_ranks(int g1, int n, int *r1, int g2, int *r2) override { In f_g1(g1, "Group_translate_ranks", "g1"); In f_n(n, "Group_translate_ranks", "n"); In f_g2(g2, "Group_translate_ranks", "g2"); Guarded g_err(-777); mpi_group_translate_ranks_(&f_g1.v, &f_n.v, r1, &f_g2.v, r2, &g_err.v); return g_err.check("Group_translate_ranks", "ierror"); }
    int Cart_create(int comm, int nd, int *dims, int *periods, int reorder, int *newcomm) override { In f_comm(comm, "Cart_create", "comm"); In f_nd(nd, "Cart_create", "nd"); In f_reorder(reorder, "Cart_create", "reorder"); Guarded g_newcomm(UNSET); Guarded g_err(-777); mpi_cart_create_(&f_comm.v, &f_nd.v, dims, periods, &f_reorder.v, &g_newcomm.v, &g_err.v); *newcomm = g_newcomm.check("Cart_create", "newcomm"); return g_err.check("Cart_create", "ierror"); }
    int Cart_get(int comm, int nd, int *dims, int *periods, int *coords) override { In f_comm(comm, "Cart_get", "comm"); In f_nd(nd, "Cart_get", "nd"); Guarded g_err(-777); mpi_cart_get_(&f_comm.v, &f_nd.v, dims, periods, coords, &g_err.v); return g_err.check("Cart_get", "ierror"); }
    int Cart_coords(int comm, int rank, int nd, int *coords) override { In f_comm(comm, "Cart_coords", "comm"); In f_rank(rank, "Cart_coords", "rank"); In f_nd(nd, "Cart_coords", "nd"); Guarded g_err(-777); mpi_cart_coords_(&f_comm.v, &f_rank.v, &f_nd.v, coords, &g_err.v); return g_err.check("Cart_coords", "ierror"); }
    int Dims_create(int n, int nd, int *dims) override { In f_n(n, "Dims_create", "n"); In f_nd(nd, "Dims_create", "nd"); Guarded g_err(-777); mpi_dims_create_(&f_n.v, &f_nd.v, dims, &g_err.v); return g_err.check("Dims_create", "ierror"); }
    int Barrier(int comm) override { In f_comm(comm, "Barrier", "comm"); Guarded g_err(-777); mpi_barrier_(&f_comm.v, &g_err.v); return g_err.check("Barrier", "ierror"); }
    int Bcast(void *buf, int count, int type, int root, int comm) override { In f_count(count, "Bcast", "count"); In f_type(type, "Bcast", "type"); In f_root(root, "Bcast", "root"); In f_comm(comm, "Bcast", "comm"); Guarded g_err(-777); mpi_bcast_(fbuf(buf), &f_count.v, &f_type.v, &f_root.v, &f_comm.v, &g_err.v); return g_err.check("Bcast", "ierror"); }
    int Gather(void *sb, int sc, int st, void *rb, int rc, int rt, int root, int comm) override { In f_sc(sc, "Gather", "sc"); In f_st(st, "Gather", "st"); In f_rc(rc, "Gather", "rc"); In f_rt(rt, "Gather", "rt"); In f_root(root, "Gather", "root"); In f_comm(comm, "Gather", "comm"); Guarded g_err(-777); mpi_gather_(fplace(sb), &f_sc.v, &f_st.v, fbuf(rb), &f_rc.v, &f_rt.v, &f_root.v, &f_comm.v, &g_err.v); return g_err.check("Gather", "ierror"); }
    int Gatherv(void *sb, int sc, int st, void *rb, int *rcs, int *displs, int rt, int root, int comm) override { In f_sc(sc, "Gatherv", "sc"); In f_st(st, "Gatherv", "st"); In f_rt(rt, "Gatherv", "rt"); In f_root(root, "Gatherv", "root"); In f_comm(comm, "Gatherv", "comm"); Guarded g_err(-777); mpi_gatherv_(fplace(sb), &f_sc.v, &f_st.v, fbuf(rb), rcs, displs, &f_rt.v, &f_root.v, &f_comm.v, &g_err.v); return g_err.check("Gatherv", "ierror"); }
    int Allgather(void *sb, int sc, int st, void *rb, int rc, int rt, int comm) override { In f_sc(sc, "Allgather", "sc"); In f_st(st, "Allgather", "st"); In f_rc(rc, "Allgather", "rc"); In f_rt(rt, "Allgather", "rt"); In f_comm(comm, "Allgather", "comm"); Guarded g_err(-777); mpi_allgather_(fplace(sb), &f_sc.v, &f_st.v, fbuf(rb), &f_rc.v, &f_rt.v, &f_comm.v, &g_err.v); return g_err.check("Allgather", "ierror"); }
    int Allgatherv(void *sb, int sc, int st, void *rb, int *rcs, int *displs, int rt, int comm) override { In f_sc(sc, "Allgatherv", "sc"); In f_st(st, "Allgatherv", "st"); In f_rt(rt, "Allgatherv", "rt"); In f_comm(comm, "Allgatherv", "comm"); Guarded g_err(-777); mpi_allgatherv_(fplace(sb), &f_sc.v, &f_st.v, fbuf(rb), rcs, displs, &f_rt.v, &f_comm.v, &g_err.v); return g_err.check("Allgatherv", "ierror"); }
    int Scatter(void *sb, int sc, int st, void *rb, int rc, int rt, int root, int comm) override { In f_sc(sc, "Scatter", "sc"); In f_st(st, "Scatter", "st"); In f_rc(rc, "Scatter", "rc"); In f_rt(rt, "Scatter", "rt"); In f_root(root, "Scatter", "root"); In f_comm(comm, "Scatter", "comm"); Guarded g_err(-777); mpi_scatter_(fbuf(sb), &f_sc.v, &f_st.v, fplace(rb), &f_rc.v, &f_rt.v, &f_root.v, &f_comm.v, &g_err.v); return g_err.check("Scatter", "ierror"); }
    int Scatterv(void *sb, int *scs, int *displs, int st, void *rb, int rc, int rt, int root, int comm) override { In f_st(st, "Scatterv", "st"); In f_rc(rc, "Scatterv", "rc"); In f_rt(rt, "Scatterv", "rt"); In f_root(root, "Scatterv", "root"); In f_comm(comm, "Scatterv", "comm"); Guarded g_err(-777); mpi_scatterv_(fbuf(sb), scs, displs, &f_st.v, fplace(rb), &f_rc.v, &f_rt.v, &f_root.v, &f_comm.v, &g_err.v); return g_err.check("Scatterv", "ierror"); }
    int Reduce(void *sb, void *rb, int count, int type, int op, int root, int comm) override { In f_count(count, "Reduce", "count"); In f_type(type, "Reduce", "type"); In f_op(op, "Reduce", "op"); In f_root(root, "Reduce", "root"); In f_comm(comm, "Reduce", "comm"); Guarded g_err(-777); mpi_reduce_(fplace(sb), fbuf(rb), &f_count.v, &f_type.v, &f_op.v, &f_root.v, &f_comm.v, &g_err.v); return g_err.check("Reduce", "ierror"); }
    int Allreduce(void *sb, void *rb, int count, int type, int op, int comm) override { In f_count(count, "Allreduce", "count"); In f_type(type, "Allreduce", "type"); In f_op(op, "Allreduce", "op"); In f_comm(comm, "Allreduce", "comm"); Guarded g_err(-777); mpi_allreduce_(fplace(sb), fbuf(rb), &f_count.v, &f_type.v, &f_op.v, &f_comm.v, &g_err.v); return g_err.check("Allreduce", "ierror"); }
    int Reduce_scatter(void *sb, void *rb, int *rcs, int type, int op, int comm) override { In f_type(type, "Reduce_scatter", "type"); In f_op(op, "Reduce_scatter", "op"); In f_comm(comm, "Reduce_scatter", "comm"); Guarded g_err(-777); mpi_reduce_scatter_(fplace(sb), fbuf(rb), rcs, &f_type.v, &f_op.v, &f_comm.v, &g_err.v); return g_err.check("Reduce_scatter", "ierror"); }
    int Scan(void *sb, void *rb, int count, int type, int op, int comm) override { In f_count(count, "Scan", "count"); In f_type(type, "Scan", "type"); In f_op(op, "Scan", "op"); In f_comm(comm, "Scan", "comm"); Guarded g_err(-777); mpi_scan_(fplace(sb), fbuf(rb), &f_count.v, &f_type.v, &f_op.v, &f_comm.v, &g_err.v); return g_err.check("Scan", "ierror"); }
    int Alltoall(void *sb, int sc, int st, void *rb, int rc, int rt, int comm) override { In f_sc(sc, "Alltoall", "sc"); In f_st(st, "Alltoall", "st"); In f_rc(rc, "Alltoall", "rc"); In f_rt(rt, "Alltoall", "rt"); In f_comm(comm, "Alltoall", "comm"); Guarded g_err(-777); mpi_alltoall_(fplace(sb), &f_sc.v, &f_st.v, fbuf(rb), &f_rc.v, &f_rt.v, &f_comm.v, &g_err.v); return g_err.check("Alltoall", "ierror"); }
    int Alltoallv(void *sb, int *scs, int *sds, int st, void *rb, int *rcs, int *rds, int rt, int comm) override { In f_st(st, "Alltoallv", "st"); In f_rt(rt, "Alltoallv", "rt"); In f_comm(comm, "Alltoallv", "comm"); Guarded g_err(-777); mpi_alltoallv_(fplace(sb), scs, sds, &f_st.v, fbuf(rb), rcs, rds, &f_rt.v, &f_comm.v, &g_err.v); return g_err.check("Alltoallv", "ierror"); }
    int Alltoallw(void *sb, int *scs, int *sds, int *sts, void *rb, int *rcs, int *rds, int *rts, int comm) override { In f_comm(comm, "Alltoallw", "comm"); Guarded g_err(-777); mpi_alltoallw_(fplace(sb), scs, sds, sts, fbuf(rb), rcs, rds, rts, &f_comm.v, &g_err.v); return g_err.check("Alltoallw", "ierror"); }
    int Type_contiguous(int n, int old, int *nt) override { In f_n(n, "Type_contiguous", "n"); In f_old(old, "Type_contiguous", "old"); Guarded g_nt(UNSET); Guarded g_err(-777); mpi_type_contiguous_(&f_n.v, &f_old.v, &g_nt.v, &g_err.v); *nt = g_nt.check("Type_contiguous", "nt"); return g_err.check("Type_contiguous", "ierror"); }
    int Type_vector(int n, int bl, int stride, int old, int *nt) override { In f_n(n, "Type_vector", "n"); In f_bl(bl, "Type_vector", "bl"); In f_stride(stride, "Type_vector", "stride"); In f_old(old, "Type_vector", "old"); Guarded g_nt(UNSET); Guarded g_err(-777); mpi_type_vector_(&f_n.v, &f_bl.v, &f_stride.v, &f_old.v, &g_nt.v, &g_err.v); *nt = g_nt.check("Type_vector", "nt"); return g_err.check("Type_vector", "ierror"); }
    int Type_hvector(int n, int bl, long stride, int old, int *nt) override { In f_n(n, "Type_hvector", "n"); In f_bl(bl, "Type_hvector", "bl"); InLong f_stride(stride, "Type_hvector", "stride"); In f_old(old, "Type_hvector", "old"); Guarded g_nt(UNSET); Guarded g_err(-777); mpi_type_hvector_(&f_n.v, &f_bl.v, &f_stride.v, &f_old.v, &g_nt.v, &g_err.v); *nt = g_nt.check("Type_hvector", "nt"); return g_err.check("Type_hvector", "ierror"); }
    int Type_create_hvector(int n, int bl, long stride, int old, int *nt) override { In f_n(n, "Type_create_hvector", "n"); In f_bl(bl, "Type_create_hvector", "bl"); InLong f_stride(stride, "Type_create_hvector", "stride"); In f_old(old, "Type_create_hvector", "old"); Guarded g_nt(UNSET); Guarded g_err(-777); mpi_type_create_hvector_(&f_n.v, &f_bl.v, &f_stride.v, &f_old.v, &g_nt.v, &g_err.v); *nt = g_nt.check("Type_create_hvector", "nt"); return g_err.check("Type_create_hvector", "ierror"); }
    int Type_indexed(int n, int *bls, int *ds, int old, int *nt) override { In f_n(n, "Type_indexed", "n"); In f_old(old, "Type_indexed", "old"); Guarded g_nt(UNSET); Guarded g_err(-777); mpi_type_indexed_(&f_n.v, bls, ds, &f_old.v, &g_nt.v, &g_err.v); *nt = g_nt.check("Type_indexed", "nt"); return g_err.check("Type_indexed", "ierror"); }
    int Type_create_indexed_block(int n, int bl, int *ds, int old, int *nt) override { In f_n(n, "Type_create_indexed_block", "n"); In f_bl(bl, "Type_create_indexed_block", "bl"); In f_old(old, "Type_create_indexed_block", "old"); Guarded g_nt(UNSET); Guarded g_err(-777); mpi_type_create_indexed_block_(&f_n.v, &f_bl.v, ds, &f_old.v, &g_nt.v, &g_err.v); *nt = g_nt.check("Type_create_indexed_block", "nt"); return g_err.check("Type_create_indexed_block", "ierror"); }
    int Type_hindexed(int n, int *bls, long *ds, int old, int *nt) override { In f_n(n, "Type_hindexed", "n"); In f_old(old, "Type_hindexed", "old"); Guarded g_nt(UNSET); Guarded g_err(-777); mpi_type_hindexed_(&f_n.v, bls, ds, &f_old.v, &g_nt.v, &g_err.v); *nt = g_nt.check("Type_hindexed", "nt"); return g_err.check("Type_hindexed", "ierror"); }
    int Type_struct(int n, int *bls, long *ds, int *olds, int *nt) override { In f_n(n, "Type_struct", "n"); Guarded g_nt(UNSET); Guarded g_err(-777); mpi_type_struct_(&f_n.v, bls, ds, olds, &g_nt.v, &g_err.v); *nt = g_nt.check("Type_struct", "nt"); return g_err.check("Type_struct", "ierror"); }
    int Type_dup(int old, int *nt) override { In f_old(old, "Type_dup", "old"); Guarded g_nt(UNSET); Guarded g_err(-777); mpi_type_dup_(&f_old.v, &g_nt.v, &g_err.v); *nt = g_nt.check("Type_dup", "nt"); return g_err.check("Type_dup", "ierror"); }
    int Type_size(int t, int *size) override { In f_t(t, "Type_size", "t"); Guarded g_size(UNSET); Guarded g_err(-777); mpi_type_size_(&f_t.v, &g_size.v, &g_err.v); *size = g_size.check("Type_size", "size"); return g_err.check("Type_size", "ierror"); }
    int Type_extent(int t, long *extent) override { In f_t(t, "Type_extent", "t"); GuardedLong g_extent(UNSETL); Guarded g_err(-777); mpi_type_extent_(&f_t.v, &g_extent.v, &g_err.v); *extent = g_extent.check("Type_extent", "extent"); return g_err.check("Type_extent", "ierror"); }
    int Type_lb(int t, long *lb) override { In f_t(t, "Type_lb", "t"); GuardedLong g_lb(UNSETL); Guarded g_err(-777); mpi_type_lb_(&f_t.v, &g_lb.v, &g_err.v); *lb = g_lb.check("Type_lb", "lb"); return g_err.check("Type_lb", "ierror"); }
    int Type_ub(int t, long *ub) override { In f_t(t, "Type_ub", "t"); GuardedLong g_ub(UNSETL); Guarded g_err(-777); mpi_type_ub_(&f_t.v, &g_ub.v, &g_err.v); *ub = g_ub.check("Type_ub", "ub"); return g_err.check("Type_ub", "ierror"); }
    int Type_commit(int *t) override { Guarded g_t(*t); Guarded g_err(-777); mpi_type_commit_(&g_t.v, &g_err.v); *t = g_t.check("Type_commit", "t"); return g_err.check("Type_commit", "ierror"); }
    int Type_free(int *t) override { Guarded g_t(*t); Guarded g_err(-777); mpi_type_free_(&g_t.v, &g_err.v); *t = g_t.check("Type_free", "t"); return g_err.check("Type_free", "ierror"); }
    int Pack(void *in, int n, int t, void *out, int size, int *pos, int comm) override { In f_n(n, "Pack", "n"); In f_t(t, "Pack", "t"); In f_size(size, "Pack", "size"); Guarded g_pos(*pos); In f_comm(comm, "Pack", "comm"); Guarded g_err(-777); mpi_pack_(fbuf(in), &f_n.v, &f_t.v, fbuf(out), &f_size.v, &g_pos.v, &f_comm.v, &g_err.v); *pos = g_pos.check("Pack", "pos"); return g_err.check("Pack", "ierror"); }
    int Unpack(void *in, int size, int *pos, void *out, int n, int t, int comm) override { In f_size(size, "Unpack", "size"); Guarded g_pos(*pos); In f_n(n, "Unpack", "n"); In f_t(t, "Unpack", "t"); In f_comm(comm, "Unpack", "comm"); Guarded g_err(-777); mpi_unpack_(fbuf(in), &f_size.v, &g_pos.v, fbuf(out), &f_n.v, &f_t.v, &f_comm.v, &g_err.v); *pos = g_pos.check("Unpack", "pos"); return g_err.check("Unpack", "ierror"); }
    int Initialized(int *flag) override { Guarded g_flag(*flag); Guarded g_err(-777); mpi_initialized_(&g_flag.v, &g_err.v); *flag = g_flag.check("Initialized", "flag"); return g_err.check("Initialized", "ierror"); }
    int Finalize() override { Guarded g_err(-777); mpi_finalize_(&g_err.v); return g_err.check("Finalize", "ierror"); }
    int Info_create(int *info) override { Guarded g_info(UNSET); Guarded g_err(-777); mpi_info_create_(&g_info.v, &g_err.v); *info = g_info.check("Info_create", "info"); return g_err.check("Info_create", "ierror"); }
    int Info_free(int *info) override { Guarded g_info(*info); Guarded g_err(-777); mpi_info_free_(&g_info.v, &g_err.v); *info = g_info.check("Info_free", "info"); return g_err.check("Info_free", "ierror"); }
    int Op_free(int *op) override { Guarded g_op(*op); Guarded g_err(-777); mpi_op_free_(&g_op.v, &g_err.v); *op = g_op.check("Op_free", "op"); return g_err.check("Op_free", "ierror"); }
};
}
// the words of MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE and MPI_IN_PLACE keep what they hold
static const int SPECIAL = 0x2bad1dea;
static void each_special(void (*f)(int *)) { for (size_t i = 0; i < sizeof(MPI_Status) / sizeof(int); i++) { f(f_status_ignore + i); f(f_statuses_ignore + i); } f(f_in_place); }
void api_reset() { if (f_in_place) each_special([](int *w) { *w = SPECIAL; }); bad_fn = NULL; }
static bool special_bad;
const char *api_bad()
{
    special_bad = false;
    if (f_in_place) each_special([](int *w) { if (*w != SPECIAL) { special_bad = true; *w = SPECIAL; } });
    if (special_bad) return "a word of MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE or MPI_IN_PLACE was written";
    static char b[100]; if (!bad_fn) return NULL; snprintf(b, sizeof b, bad_input ? "%s changed its argument %s" : "%s wrote beyond its result %s", bad_fn, bad_arg); bad_fn = NULL; return b; }
static CApi c_; static FApi f_;
Api *api_c = &c_, *api_f = &f_;
