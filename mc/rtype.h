// Reference model of MPI datatypes (written from the standard's definitions) and of user memory.
#pragma once
#include "api.h"
#include <string.h>
struct Elem { long disp; short kind; short len; };
struct RType {
    std::vector<Elem> map;
    long lb = 0, ub = 0;          // without padding
    bool olb = false, oub = false, committed = false;
    int marker = 0;               // 1: MPI_LB, 2: MPI_UB
    int h = 0;                    // the library's handle
    long size() const { long s = 0; for (auto &e : map) s += e.len; return s; }
    long extent() const;
    long upper() const { return lb + extent(); }
    long count() const { return (long)map.size(); }
    std::string str() const;
};
struct Basic { const char *name; int handle; int size; int kind, kind2; int size2, disp2, ext; };   // kind2 != 0: pair
extern const std::vector<Basic> &basics();      // every predefined element type
RType r_basic(int handle);                      // any predefined handle, markers included
const char *basic_name(int handle);

void r_struct(RType &out, int n, const int *bl, const long *disp, const RType *const *old);
void r_contig(RType &out, int n, const RType &old);
void r_hvector(RType &out, int n, int bl, long stride, const RType &old);
void r_vector(RType &out, int n, int bl, int stride, const RType &old);
void r_hindexed(RType &out, int n, const int *bl, const long *disp, const RType &old);
void r_indexed(RType &out, int n, const int *bl, const int *disp, const RType &old);
void r_iblock(RType &out, int n, int bl, const int *disp, const RType &old);

// the same through the library, checking that the call returns and gives a usable handle
void mk_struct(Api *a, RType &out, int n, const int *bl, const long *disp, const RType *const *old);
void mk_contig(Api *a, RType &out, int n, const RType &old);
void mk_vector(Api *a, RType &out, int n, int bl, int stride, const RType &old);
void mk_hvector(Api *a, RType &out, int n, int bl, long stride, const RType &old, bool create = false);
void mk_indexed(Api *a, RType &out, int n, const int *bl, const int *disp, const RType &old);
void mk_hindexed(Api *a, RType &out, int n, const int *bl, const long *disp, const RType &old);
void mk_iblock(Api *a, RType &out, int n, int bl, const int *disp, const RType &old);
void mk_dup(Api *a, RType &out, const RType &old);
void mk_commit(Api *a, RType &t);
void mk_free(Api *a, RType &t);
extern std::vector<int> made_types;             // handles the constructors gave, in order
void check_type(Api *a, const RType &t, const char *when);     // size, extent, lb, ub

// transfer n elements at most in the reference memory; returns how many basic elements
long r_copy(const char *src, long scount, const RType &st, char *dst, long dcount, const RType &dt, bool truncate);
bool r_types_agree(long scount, const RType &st, long dcount, const RType &dt, bool upto_shorter);

// User memory: real and reference image; every byte is compared.
struct UMem {
    char *m;            // real
    char *s;            // reference
    size_t used, cap;
    void reset(uint64_t salt = 1);
    char *alloc(size_t bytes, size_t align = 8, size_t gap = 8);    // zone with a gap around it
    char *ref(const void *p) { return s + ((const char *)p - m); }
    void write(char *p, const void *src, size_t n) { memcpy(p, src, n); memcpy(ref(p), src, n); }
    void refill(char *p, size_t n, uint64_t salt);                   // new pattern in both images
    void check(const char *when);
};
extern UMem um;
