// One interface to the library's C routines and to its Fortran bindings (generated by tools).
#pragma once
#include "mc.h"
struct Api {
    const char *lang;
    virtual int Init() = 0;
    virtual int Init_thread(int required, int *provided) = 0;
    virtual int Pack_size(int n, int t, int comm, int *size) = 0;
    virtual int Group_range_incl(int g, int n, int (*ranges)[3], int *ng) = 0;
    virtual int Intercomm_merge(int c, int high, int *nc) = 0;
    virtual int Isend(void *buf, int count, int type, int dest, int tag, int comm, int *req) = 0;
    virtual int Irsend(void *buf, int count, int type, int dest, int tag, int comm, int *req) = 0;
    virtual int Send(void *buf, int count, int type, int dest, int tag, int comm) = 0;
    virtual int Ssend(void *buf, int count, int type, int dest, int tag, int comm) = 0;
    virtual int Rsend(void *buf, int count, int type, int dest, int tag, int comm) = 0;
    virtual int Irecv(void *buf, int count, int type, int src, int tag, int comm, int *req) = 0;
    virtual int Recv(void *buf, int count, int type, int src, int tag, int comm, MPI_Status *st) = 0;
    virtual int Sendrecv(void *sbuf, int scount, int stype, int dest, int stag, void *rbuf, int rcount, int rtype, int src, int rtag, int comm, MPI_Status *st) = 0;
    virtual int Test(int *req, int *flag, MPI_Status *st) = 0;
    virtual int Wait(int *req, MPI_Status *st) = 0;
    virtual int Testany(int n, int *reqs, int *index, int *flag, MPI_Status *st) = 0;
    virtual int Waitany(int n, int *reqs, int *index, MPI_Status *st) = 0;
    virtual int Testall(int n, int *reqs, int *flag, MPI_Status *sts) = 0;
    virtual int Waitall(int n, int *reqs, MPI_Status *sts) = 0;
    virtual int Testsome(int n, int *reqs, int *out, int *idx, MPI_Status *sts) = 0;
    virtual int Waitsome(int n, int *reqs, int *out, int *idx, MPI_Status *sts) = 0;
    virtual int Request_free(int *req) = 0;
    virtual int Iprobe(int src, int tag, int comm, int *flag, MPI_Status *st) = 0;
    virtual int Probe(int src, int tag, int comm, MPI_Status *st) = 0;
    virtual int Get_count(MPI_Status *st, int type, int *count) = 0;
    virtual int Get_elements(MPI_Status *st, int type, int *count) = 0;
    virtual int Comm_free(int *comm) = 0;
    virtual int Comm_size(int comm, int *size) = 0;
    virtual int Comm_rank(int comm, int *rank) = 0;
    virtual int Comm_dup(int comm, int *newcomm) = 0;
    virtual int Comm_create(int comm, int group, int *newcomm) = 0;
    virtual int Comm_split(int comm, int color, int key, int *newcomm) = 0;
    virtual int Comm_group(int comm, int *group) = 0;
    virtual int Intercomm_create(int lc, int ll, int pc, int rl, int tag, int *newcomm) = 0;
    virtual int Group_incl(int g, int n, int *ranks, int *ng) = 0;
    virtual int Group_union(int g1, int g2, int *ng) = 0;
    virtual int Group_intersection(int g1, int g2, int *ng) = 0;
    virtual int Group_difference(int g1, int g2, int *ng) = 0;
    virtual int Group_free(int *g) = 0;
    virtual int Group_translate_ranks(int g1, int n, int *r1, int g2, int *r2) = 0;
    virtual int Cart_create(int comm, int nd, int *dims, int *periods, int reorder, int *newcomm) = 0;
    virtual int Cart_get(int comm, int nd, int *dims, int *periods, int *coords) = 0;
    virtual int Cart_coords(int comm, int rank, int nd, int *coords) = 0;
    virtual int Dims_create(int n, int nd, int *dims) = 0;
    virtual int Barrier(int comm) = 0;
    virtual int Bcast(void *buf, int count, int type, int root, int comm) = 0;
    virtual int Gather(void *sb, int sc, int st, void *rb, int rc, int rt, int root, int comm) = 0;
    virtual int Gatherv(void *sb, int sc, int st, void *rb, int *rcs, int *displs, int rt, int root, int comm) = 0;
    virtual int Allgather(void *sb, int sc, int st, void *rb, int rc, int rt, int comm) = 0;
    virtual int Allgatherv(void *sb, int sc, int st, void *rb, int *rcs, int *displs, int rt, int comm) = 0;
    virtual int Scatter(void *sb, int sc, int st, void *rb, int rc, int rt, int root, int comm) = 0;
    virtual int Scatterv(void *sb, int *scs, int *displs, int st, void *rb, int rc, int rt, int root, int comm) = 0;
    virtual int Reduce(void *sb, void *rb, int count, int type, int op, int root, int comm) = 0;
    virtual int Allreduce(void *sb, void *rb, int count, int type, int op, int comm) = 0;
    virtual int Reduce_scatter(void *sb, void *rb, int *rcs, int type, int op, int comm) = 0;
    virtual int Scan(void *sb, void *rb, int count, int type, int op, int comm) = 0;
    virtual int Alltoall(void *sb, int sc, int st, void *rb, int rc, int rt, int comm) = 0;
    virtual int Alltoallv(void *sb, int *scs, int *sds, int st, void *rb, int *rcs, int *rds, int rt, int comm) = 0;
    virtual int Alltoallw(void *sb, int *scs, int *sds, int *sts, void *rb, int *rcs, int *rds, int *rts, int comm) = 0;
    virtual int Type_contiguous(int n, int old, int *nt) = 0;
    virtual int Type_vector(int n, int bl, int stride, int old, int *nt) = 0;
    virtual int Type_hvector(int n, int bl, long stride, int old, int *nt) = 0;
    virtual int Type_create_hvector(int n, int bl, long stride, int old, int *nt) = 0;
    virtual int Type_indexed(int n, int *bls, int *ds, int old, int *nt) = 0;
    virtual int Type_create_indexed_block(int n, int bl, int *ds, int old, int *nt) = 0;
    virtual int Type_hindexed(int n, int *bls, long *ds, int old, int *nt) = 0;
    virtual int Type_struct(int n, int *bls, long *ds, int *olds, int *nt) = 0;
    virtual int Type_dup(int old, int *nt) = 0;
    virtual int Type_size(int t, int *size) = 0;
    virtual int Type_extent(int t, long *extent) = 0;
    virtual int Type_lb(int t, long *lb) = 0;
    virtual int Type_ub(int t, long *ub) = 0;
    virtual int Type_commit(int *t) = 0;
    virtual int Type_free(int *t) = 0;
    virtual int Pack(void *in, int n, int t, void *out, int size, int *pos, int comm) = 0;
    virtual int Unpack(void *in, int size, int *pos, void *out, int n, int t, int comm) = 0;
    virtual int Initialized(int *flag) = 0;
    virtual int Finalize() = 0;
    virtual int Info_create(int *info) = 0;
    virtual int Info_free(int *info) = 0;
    virtual int Op_free(int *op) = 0;
};
extern Api *api_c, *api_f;
extern int *f_status_ignore, *f_statuses_ignore, *f_in_place, *f_bottom;   // Fortran addresses
void api_reset();        // at the start of every execution
const char *api_bad();   // a guard word was overwritten since the last call
