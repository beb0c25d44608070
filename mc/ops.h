// 56 operations covering the library, each applied to the library and to the models.
#pragma once
#include "ways.h"
#include <deque>
using namespace mc;

static std::deque<RType> ty;
static RType *lastty() { for (size_t i = ty.size(); i-- > 0;) if (ty[i].h) return &ty[i]; return nullptr; }
static const int NOPS = 56;
static const char *const OPN[NOPS] = {"Isend", "Irecv", "Irecv any", "Send", "Recv", "Sendrecv", "Comm_dup", "Comm_split", "Comm_create", "Cart_create", "Intercomm_create", "Intercomm_merge", "Comm_free",
    "contiguous", "vector", "hvector", "create_hvector", "indexed", "hindexed", "indexed_block", "struct", "dup", "Type_free", "Isend of the datatype", "Irecv of the datatype", "Test all", "Wait", "Request_free",
    "Pack and Unpack", "Gather", "Alltoallw", "Allreduce", "Finalize and Init", "groups", "Info and Op", "Iprobe", "Bcast in place", "Cart_get", "dup of a communicator with messages", "Testsome",
    "Isend to PROC_NULL", "Irecv from PROC_NULL", "Recv from PROC_NULL, ignored", "Test all, ignored", "Waitall of the complete ones, ignored", "Testany, ignored", "Isend of nothing", "Irecv of nothing", "empty datatype", "Probe, ignored", "Sendrecv with PROC_NULL, ignored", "Wait, ignored", "Recv, ignored", "Testsome, ignored", "struct with markers", "Scatter in place"};
static bool apply(P2P &p, int e)
{
    Api *a = p.api; int W = MPI_COMM_WORLD;
    auto buf = [&] { return p.fresh(1, p.t_int); };
    int c = -1; for (size_t i = 0; i < p.comms.size(); i++) if (p.comms[i].live) c = (int)i;
    RType I = p.t_int; const RType *x = lastty(); if (!x) x = &I;
    int bl[3] = {2, 1, 1}, dd[3] = {3, 0, 1}; long d[3] = {24, 0, 8}; static RType C; C = r_basic(MPI_CHAR);
    auto made = [&]() -> RType & { ty.emplace_back(); return ty.back(); };
    note("operation: %s", OPN[e]);
    switch (e) {
    case 0: p.send(SM_ISEND, c, 5, buf(), 1, p.t_int); break;
    case 1: p.irecv(c, 5, buf(), 1, p.t_int); break;
    case 2: p.irecv(c, MPI_ANY_TAG, buf(), 1, p.t_int, MPI_ANY_SOURCE); break;
    case 3: if (p.find_recv(c, 5) < 0) return false; p.send(SM_SEND, c, 5, buf(), 1, p.t_int); break;
    case 4: if (p.find_send(c, 5) < 0) return false; p.recv(c, 5, buf(), 1, p.t_int); break;
    case 5: p.sendrecv(c, 7, buf(), 1, p.t_int, 7, buf(), 1, p.t_int); break;
    case 6: case 7: case 8: case 9: case 10: case 11: p.comm_new(e - 6, 0); break;
    case 12: if (c == 0) return false; p.comm_free(c); break;
    case 13: mk_contig(a, made(), 3, *x); break;
    case 14: mk_vector(a, made(), 2, 1, 2, *x); break;
    case 15: mk_hvector(a, made(), 2, 1, 64, *x); break;
    case 16: mk_hvector(a, made(), 2, 2, 64, *x, true); break;
    case 17: mk_indexed(a, made(), 2, bl, dd, *x); break;
    case 18: mk_hindexed(a, made(), 3, bl, d, *x); break;
    case 19: mk_iblock(a, made(), 3, 1, dd, *x); break;
    case 20: { const RType *tt[3] = {x, &C, &p.t_double}; long sd[3] = {0, 200, 208}; mk_struct(a, made(), 3, bl, sd, tt); } break;
    case 21: mk_dup(a, made(), *x); break;
    case 22: { RType *t = lastty(); if (!t) return false; mk_free(a, *t); } break;
    case 23: case 24: { RType *t = lastty(); if (!t) return false; if (!t->committed) mk_commit(a, *t); char *b = room(1, *t); if (e == 23) p.send(SM_ISEND, c, 5, b, 1, *t); else p.irecv(c, 5, b, 1, *t); } break;
    case 25: if (p.reqs.empty()) return false; for (size_t i = 0; i < p.reqs.size(); i++) p.test((int)i); break;
    case 26: for (size_t i = 0; i < p.reqs.size(); i++) if (p.reqs[i].op >= 0 && p.ops[p.reqs[i].op].done) { p.wait((int)i); return true; } return false;
    case 27: for (size_t i = 0; i < p.reqs.size(); i++) if (p.reqs[i].op >= 0) { p.request_free((int)i); return true; } return false;
    case 28: move(a, p, 7, p.t_int, 3, p.t_int, 3); break;
    case 29: move(a, p, 8, p.t_int, 3, p.t_int, 3); break;
    case 30: move(a, p, 20, p.t_int, 2, p.t_int, 2); break;
    case 31: move(a, p, 15, p.t_double, 2, p.t_double, 2); break;
    case 32:
        ok("Finalize", [&] { return a->Finalize(); });
        p.reqs.clear(); p.comms.resize(1); p.comms[0].sq.clear(); p.comms[0].rq.clear(); ty.clear();
        ok("Init", [&] { return a->Init(); });
        break;
    case 33: { int g = -5, g2 = -5, r = 0, q = -7;
        ok("Comm_group", [&] { return a->Comm_group(p.comms[c].h, &g); });
        ok("Group_incl", [&] { return a->Group_incl(g, 1, &r, &g2); });
        ok("Group_union", [&] { return a->Group_union(g, g2, &g2); });
        ok("Group_translate_ranks", [&] { return a->Group_translate_ranks(g, 1, &r, g2, &q); });
        if (q != 0) fail("rank 0 translated to %d", q);
        ok("Group_free", [&] { return a->Group_free(&g); }); } break;
    case 34: { int i = -5, o = -5; ok("Info_create", [&] { return a->Info_create(&i); }); ok("Info_free", [&] { return a->Info_free(&i); }); ok("Op_create", [&] { return MPI_Op_create(NULL, 1, &o); }); ok("Op_free", [&] { return a->Op_free(&o); }); } break;
    case 35: p.iprobe(c, MPI_ANY_TAG, MPI_ANY_SOURCE); break;
    case 36: { char *b = buf(); ok("Bcast", [&] { return a->Bcast(b, 1, MPI_INT, 0, W); }); p.after("Bcast"); } break;
    case 37: { int dm[2] = {1, 1}, pr[2] = {0, 1}, nd[2] = {-9, -9}, np[2] = {-9, -9}, co[2] = {-9, -9}, h = -9;
        ok("Cart_create", [&] { return a->Cart_create(W, 2, dm, pr, 0, &h); });
        p.comm_added("Cart_create", h);
        ok("Cart_get", [&] { return a->Cart_get(h, 2, nd, np, co); });
        if (nd[0] != 1 || nd[1] != 1 || np[0] || !np[1] || co[0] || co[1]) fail("Cart_get gives dims %d %d periods %d %d coords %d %d", nd[0], nd[1], np[0], np[1], co[0], co[1]); } break;
    case 38: { int k = p.comm_new(0, 0); p.send(SM_ISEND, k, 3, buf(), 1, p.t_int); p.irecv(k, 4, buf(), 1, p.t_int); p.comm_new(0, k); } break;
    case 39: { std::vector<int> v; for (size_t i = 0; i < p.reqs.size(); i++) v.push_back((int)i); if (v.empty() || v.size() > 8) return false; p.some(v, false); } break;
    case 40: p.send(SM_ISEND, c, 5, buf(), 1, p.t_int, MPI_PROC_NULL); break;
    case 41: p.irecv(c, 5, buf(), 1, p.t_int, MPI_PROC_NULL); break;
    case 42: p.recv(c, MPI_ANY_TAG, buf(), 1, p.t_int, MPI_PROC_NULL, IGN); break;
    case 43: if (p.reqs.empty()) return false; for (size_t i = 0; i < p.reqs.size(); i++) p.test((int)i, IGN); break;
    case 44: { std::vector<int> v; for (size_t i = 0; i < p.reqs.size(); i++) if (p.done(p.reqs[i])) v.push_back((int)i); if (v.empty() || v.size() > 8) return false; p.all(v, true, IGN); } break;
    case 45: { std::vector<int> v; for (size_t i = 0; i < p.reqs.size(); i++) v.push_back((int)i); if (v.empty() || v.size() > 8) return false; p.any(v, false, IGN); } break;
    case 46: p.send(SM_ISEND, c, 5, buf(), 0, p.t_int); break;
    case 47: p.irecv(c, 5, buf(), 0, p.t_int); break;
    case 48: mk_contig(a, made(), 0, *x); break;
    case 49: if (p.find_send(c, 5) < 0) return false; p.probe(c, 5, 0, IGN); break;
    case 50: p.sendrecv(c, 7, buf(), 1, p.t_int, 7, buf(), 1, p.t_int, MPI_PROC_NULL, MPI_PROC_NULL, IGN); break;
    case 51: for (size_t i = 0; i < p.reqs.size(); i++) if (p.reqs[i].op >= 0 && p.ops[p.reqs[i].op].done) { p.wait((int)i, IGN); return true; } return false;
    case 52: if (p.find_send(c, MPI_ANY_TAG) < 0) return false; { Op &o = p.ops[p.comms[c].sq[0]]; if (!o.t->h) return false; p.recv(c, MPI_ANY_TAG, room(std::max(1, o.n), *o.t), o.n, *o.t, MPI_ANY_SOURCE, IGN); } break;
    case 53: { std::vector<int> v; for (size_t i = 0; i < p.reqs.size(); i++) v.push_back((int)i); if (v.empty() || v.size() > 8) return false; p.some(v, false, IGN); } break;
    case 54: { static RType L, U; L = r_basic(MPI_LB); U = r_basic(MPI_UB); const RType *tt[3] = {&L, x, &U}; long sd[3] = {-16, 0, 400}; int b3[3] = {1, 1, 1}; mk_struct(a, made(), 3, b3, sd, tt); } break;
    case 55: { char *b = buf(); ok("Scatter", [&] { return a->Scatter(b, 1, MPI_INT, MPI_IN_PLACE, 1, MPI_INT, 0, W); }); p.after("Scatter"); } break;
    }
    p.after(OPN[e]);
    return true;
}
