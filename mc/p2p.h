// Reference model of point-to-point communication on one process, driven in step with the library.
#pragma once
#include "rtype.h"
#include <algorithm>
#include <stdio.h>
struct Finished {};      // the library ended the process as it had to: the execution is complete
enum { SM_ISEND, SM_IRSEND, SM_SEND, SM_SSEND, SM_RSEND };
static const char *const SMNAME[] = {"Isend", "Irsend", "Send", "Ssend", "Rsend"};
static const int IGN = 1, COMM_HOWS = 10;

struct Op {
    bool send = false, done = false;
    int comm = 0, tag = 0, src = 0;
    char *buf = nullptr; int n = 0; const RType *t = nullptr; RType hold;
    long elems = 0; int rtag = 0, rsrc = 0;
};
struct P2P {
    Api *api;
    struct C { int h; bool live; std::vector<int> sq, rq; };
    struct R { int h; int op; };                 // a request variable of the user; op < 0: null
    std::vector<C> comms;
    std::vector<Op> ops;
    std::vector<R> reqs;
    std::vector<int> extra_live;                 // other live handles (datatypes)
    RType t_int, t_byte, t_double;
    std::vector<RType *> qtypes;                 // types asked of Get_count
    bool memcheck = true;
    int stl = 0;              // statuses: 0 not compared, 1 source and tag, 2 counts as well
    bool handles = false;     // distinctness of handles
    static const int MAXARR = 1300;
    struct { int g0[4]; MPI_Status st[MAXARR + 16]; int g1[4]; } S;
    MPI_Status was[MAXARR + 16];                 // what the statuses held before the call
    // what statuses hold before a call: nothing sensible, zeros, what a receive from MPI_PROC_NULL or a message left,
    // all ones, what the previous call left
    static const int PRES = 6;
    int pre = 0; bool preset = false;

    void begin(Api *a)
    {
        reset(a);
        mc::ok("Init", [&] { return api->Init(); });
    }
    void reset(Api *a)
    {
        api = a; comms.clear(); ops.clear(); reqs.clear(); extra_live.clear(); ops.reserve(64);
        memcheck = heapcheck = true; stl = 0; handles = false; pre = 0; preset = false; qtypes.clear();
        um.reset();
        mc::note("[%s binding]", a->lang);
        comms.push_back(C{MPI_COMM_WORLD, true, {}, {}});
        t_int = r_basic(MPI_INT); t_byte = r_basic(MPI_BYTE); t_double = r_basic(MPI_DOUBLE);
    }
    bool heapcheck = true;          // look for writes outside the library's blocks at the end
    // everything is complete and over: the model starts anew within the same session
    void forget() { for (auto &c : comms) if (!c.sq.empty() || !c.rq.empty()) mc::fail("harness: something is pending"); reqs.clear(); ops.clear(); um.reset(); }
    void after(const char *what) { if (memcheck) um.check(what); if (const char *b = api_bad()) mc::fail("%s: %s", what, b); }
    [[noreturn]] void end_dead(const char *what) { um.check(what); throw Finished(); }

    // ---- statuses
    MPI_Status *st_prep(int n)
    {
        for (int i = 0; i < 4; i++) S.g0[i] = S.g1[i] = 0x3c3c3c3c;
        size_t size = sizeof(MPI_Status) * (n + 1);
        if (pre == 1 || pre == 4) memset(S.st, pre == 1 ? 0 : 0xff, size);
        else if (pre == 2 || pre == 3) for (int i = 0; i <= n; i++) {
            memset(&S.st[i], 0, sizeof(MPI_Status));
            S.st[i].MPI_SOURCE = pre == 2 ? MPI_PROC_NULL : 0; S.st[i].MPI_TAG = pre == 2 ? MPI_ANY_TAG : 3; S.st[i].MPI_ERROR = MPI_SUCCESS;
            if (pre == 3) S.st[i].get_count = 7;
        }
        else if (pre == 0 || !preset) memset(S.st, 0x5a, pre == 0 ? size : sizeof S.st);
        preset = true;
        memcpy(was, S.st, size);
        return S.st;
    }
    void st_guard(const char *what, int n)      // nothing written from entry n on
    {
        for (int i = 0; i < 4; i++) if (S.g0[i] != 0x3c3c3c3c || S.g1[i] != 0x3c3c3c3c) mc::fail("%s wrote outside the status array", what);
        if (memcmp(&S.st[n], &was[n], sizeof(MPI_Status))) mc::fail("%s wrote a status beyond the ones it reports", what);
    }
    void st_check(const char *what, MPI_Status &st, int src, int tag, long elems, const RType *t)
    {
        if (stl < 1) return;
        if (st.MPI_SOURCE != src) mc::fail("%s: status source is %d, expected %d", what, st.MPI_SOURCE, src);
        if (st.MPI_TAG != tag) mc::fail("%s: status tag is %d, expected %d", what, st.MPI_TAG, tag);
        if (st.MPI_ERROR != MPI_SUCCESS && st.MPI_ERROR != was[&st - S.st].MPI_ERROR) mc::fail("%s: status error is %d", what, st.MPI_ERROR);
        if (stl < 2) return;
        MPI_Status save = st;
        auto ask = [&](const RType &q) {
            int c = -99, e = -99;
            mc::ok("Get_count", [&] { return api->Get_count(&st, q.h, &c); });
            mc::ok("Get_elements", [&] { return api->Get_elements(&st, q.h, &e); });
            long want = q.count() == 0 ? 0 : elems % q.count() ? (long)MPI_UNDEFINED : elems / q.count();
            if (c != want) mc::fail("%s: Get_count with a type of %ld elements gives %d, expected %ld", what, q.count(), c, want);
            if (q.count() && e != elems) mc::fail("%s: Get_elements gives %d, expected %ld", what, e, elems);
        };
        if (t && t->h) ask(*t);
        for (auto *q : qtypes) ask(*q);
        if (memcmp(&save, &st, sizeof st)) mc::fail("%s: Get_count or Get_elements changed the status", what);
    }
    void st_empty(const char *what, MPI_Status &st)
    {
        int was = stl; if (stl) stl = 2;
        st_check(what, st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0, &t_int);
        stl = was;
    }
    void st_op(const char *what, MPI_Status &st, const Op &o)
    {
        if (o.send) { if (st.MPI_ERROR != MPI_SUCCESS && st.MPI_ERROR != was[&st - S.st].MPI_ERROR) mc::fail("%s: status error is %d", what, st.MPI_ERROR); return; }
        st_check(what, st, o.rsrc, o.rtag, o.elems, o.t);
    }

    // ---- handles
    void fresh_handle(const char *what, int h)
    {
        if (h == 0) mc::fail("%s gave a null handle", what);
        if (!handles) return;
        if (h < 0) mc::fail("%s gave handle %d", what, h);
        for (auto &r : reqs) if (r.op >= 0 && r.h == h) mc::fail("%s gave handle %d, which a live request has", what, h);
        for (auto &c : comms) if (c.live && c.h == h) mc::fail("%s gave handle %d, which a live communicator has", what, h);
        for (int x : extra_live) if (x == h) mc::fail("%s gave handle %d, which a live object has", what, h);
    }

    // ---- matching
    int find_recv(int ci, int tag) { auto &q = comms[ci].rq; for (size_t i = 0; i < q.size(); i++) if (ops[q[i]].tag == MPI_ANY_TAG || ops[q[i]].tag == tag) return (int)i; return -1; }
    int find_send(int ci, int tag) { auto &q = comms[ci].sq; for (size_t i = 0; i < q.size(); i++) if (tag == MPI_ANY_TAG || ops[q[i]].tag == tag) return (int)i; return -1; }
    void deliver(int s, int r)
    {
        Op &a = ops[s], &b = ops[r];
        b.elems = r_copy(um.ref(a.buf), a.n, *a.t, um.ref(b.buf), b.n, *b.t, true);
        b.rtag = a.tag; b.rsrc = 0; a.done = b.done = true;
    }
    int add(bool send, int ci, int peer, int tag, char *buf, int n, const RType *t)
    {
        Op o; o.send = send; o.comm = ci; o.src = peer; o.tag = tag; o.buf = buf; o.n = n; o.t = t;
        int id = (int)ops.size(); ops.push_back(o);
        if (peer == MPI_PROC_NULL) { Op &x = ops[id]; x.done = true; x.rsrc = MPI_PROC_NULL; x.rtag = MPI_ANY_TAG; x.elems = 0; return id; }
        if (send) {
            int m = find_recv(ci, tag);
            if (m >= 0) { int r = comms[ci].rq[m]; comms[ci].rq.erase(comms[ci].rq.begin() + m); deliver(id, r); }
            else comms[ci].sq.push_back(id);
        } else {
            int m = find_send(ci, tag);
            if (m >= 0) { int s = comms[ci].sq[m]; comms[ci].sq.erase(comms[ci].sq.begin() + m); deliver(s, id); }
            else comms[ci].rq.push_back(id);
        }
        return id;
    }
    char *fresh(int n, const RType &t) { return um.alloc((size_t)std::max<long>(8, n * std::max<long>(t.extent(), t.upper())), 16); }

    // ---- operations.  Each returns the index of the new request variable, or -1.
    bool can_send(int mode, int ci, int tag) { return mode == SM_ISEND || find_recv(ci, tag) >= 0; }
    int send(int mode, int ci, int tag, char *buf, int n, const RType &t, int dest = 0)
    {
        const char *nm = SMNAME[mode]; int ch = comms[ci].h;
        mc::note("%s(%d x type %d, dest %d, tag %d, comm %d)", nm, n, t.h, dest, tag, ci);
        bool okay = dest == MPI_PROC_NULL || can_send(mode, ci, tag);
        int h = -4242;
        auto f = [&]() -> int {
            switch (mode) {
            case SM_ISEND: return api->Isend(buf, n, t.h, dest, tag, ch, &h);
            case SM_IRSEND: return api->Irsend(buf, n, t.h, dest, tag, ch, &h);
            case SM_SEND: return api->Send(buf, n, t.h, dest, tag, ch);
            case SM_SSEND: return api->Ssend(buf, n, t.h, dest, tag, ch);
            default: return api->Rsend(buf, n, t.h, dest, tag, ch);
            }
        };
        if (!okay) { mc::dies(nm, f); end_dead(nm); }
        mc::ok(nm, f);
        int id = add(true, ci, dest, tag, buf, n, &t);
        int ri = -1;
        if (mode <= SM_IRSEND) { fresh_handle(nm, h); ri = (int)reqs.size(); reqs.push_back(R{h, id}); }
        after(nm);
        return ri;
    }
    int irecv(int ci, int tag, char *buf, int n, const RType &t, int src = 0)
    {
        mc::note("Irecv(%d x type %d, source %d, tag %d, comm %d)", n, t.h, src, tag, ci);
        int h = -4242;
        mc::ok("Irecv", [&] { return api->Irecv(buf, n, t.h, src, tag, comms[ci].h, &h); });
        int id = add(false, ci, src, tag, buf, n, &t);
        fresh_handle("Irecv", h);
        reqs.push_back(R{h, id});
        after("Irecv");
        return (int)reqs.size() - 1;
    }
    void recv(int ci, int tag, char *buf, int n, const RType &t, int src = 0, int ign = 0)
    {
        mc::note("Recv(%d x type %d, source %d, tag %d, comm %d%s)", n, t.h, src, tag, ci, ign ? ", status ignored" : "");
        MPI_Status *st = st_prep(1);
        auto f = [&] { return api->Recv(buf, n, t.h, src, tag, comms[ci].h, ign ? MPI_STATUS_IGNORE : st); };
        if (src != MPI_PROC_NULL && find_send(ci, tag) < 0) { mc::dies("Recv", f); end_dead("Recv"); }
        mc::ok("Recv", f);
        int id = add(false, ci, src, tag, buf, n, &t);
        st_guard("Recv", ign ? 0 : 1);
        if (!ign) st_op("Recv", *st, ops[id]);
        after("Recv");
    }
    // the receive is posted first
    bool can_sendrecv(int ci, int dest, int stag, int src, int rtag)
    {
        bool rdone = src == MPI_PROC_NULL || find_send(ci, rtag) >= 0;
        bool fits = rtag == MPI_ANY_TAG || rtag == stag;
        bool other = find_recv(ci, stag) >= 0;
        bool sdone = dest == MPI_PROC_NULL || other || (!rdone && fits);
        if (!sdone) return false;
        if (!rdone) return dest != MPI_PROC_NULL && fits && !other;    // our receive is last in the queue
        return true;
    }
    void sendrecv(int ci, int stag, char *sb, int sn, const RType &stt, int rtag, char *rb, int rn, const RType &rtt, int dest = 0, int src = 0, int ign = 0)
    {
        mc::note("Sendrecv(send %d x type %d to %d tag %d, recv %d x type %d from %d tag %d, comm %d)", sn, stt.h, dest, stag, rn, rtt.h, src, rtag, ci);
        MPI_Status *st = st_prep(1);
        auto f = [&] { return api->Sendrecv(sb, sn, stt.h, dest, stag, rb, rn, rtt.h, src, rtag, comms[ci].h, ign ? MPI_STATUS_IGNORE : st); };
        if (!can_sendrecv(ci, dest, stag, src, rtag)) {
            mc::dies("Sendrecv", f);
            throw Finished();      // one half may have been delivered before the deadlock
        }
        mc::ok("Sendrecv", f);
        int r = add(false, ci, src, rtag, rb, rn, &rtt);
        add(true, ci, dest, stag, sb, sn, &stt);
        st_guard("Sendrecv", ign ? 0 : 1);
        if (!ign) st_op("Sendrecv", *st, ops[r]);
        after("Sendrecv");
    }
    void null_it(const char *what, int h, R &r)
    {
        if (h != MPI_REQUEST_NULL) mc::fail("%s completed a request but left its handle at %d", what, h);
        r.h = 0; r.op = -1;
    }
    bool done(const R &r) { return r.op < 0 || ops[r.op].done; }
    void test(int ri, int ign = 0)
    {
        R &r = reqs[ri]; int h = r.h, flag = -77; MPI_Status *st = st_prep(1);
        mc::note("Test(request %d: %s)", ri, r.op < 0 ? "null" : ops[r.op].done ? "complete" : "pending");
        mc::ok("Test", [&] { return api->Test(&h, &flag, ign ? MPI_STATUS_IGNORE : st); });
        bool want = done(r);
        if ((flag != 0) != want) mc::fail("Test gives flag %d, expected %d", flag, want);
        if (flag != 0 && flag != 1) mc::fail("Test gives flag %d", flag);
        if (!want) { if (h != r.h) mc::fail("Test changed the handle of a pending request"); if (ign) st_guard("Test", 0); }
        else {
            st_guard("Test", ign ? 0 : 1);
            if (r.op < 0) { if (h != 0) mc::fail("Test changed a null request to %d", h); if (!ign) st_empty("Test", *st); }
            else { int o = r.op; null_it("Test", h, r); if (!ign) st_op("Test", *st, ops[o]); }
        }
        after("Test");
    }
    void wait(int ri, int ign = 0)
    {
        R &r = reqs[ri]; int h = r.h; MPI_Status *st = st_prep(1);
        mc::note("Wait(request %d: %s)", ri, r.op < 0 ? "null" : ops[r.op].done ? "complete" : "pending");
        auto f = [&] { return api->Wait(&h, ign ? MPI_STATUS_IGNORE : st); };
        if (!done(r)) { mc::dies("Wait", f); end_dead("Wait"); }
        mc::ok("Wait", f);
        st_guard("Wait", ign ? 0 : 1);
        if (r.op < 0) { if (h != 0) mc::fail("Wait changed a null request to %d", h); if (!ign) st_empty("Wait", *st); }
        else { int o = r.op; null_it("Wait", h, r); if (!ign) st_op("Wait", *st, ops[o]); }
        after("Wait");
    }
    void request_free(int ri)
    {
        R &r = reqs[ri]; int h = r.h;
        mc::note("Request_free(request %d: %s)", ri, r.op < 0 ? "null" : ops[r.op].done ? "complete" : "pending");
        mc::ok("Request_free", [&] { return api->Request_free(&h); });
        if (h != MPI_REQUEST_NULL) mc::fail("Request_free left the handle at %d", h);
        r.h = 0; r.op = -1;
        after("Request_free");
    }
    // ---- arrays of requests (sel: indices of request variables, in order)
    struct Arr { int g0[2]; int h[MAXARR + 16]; int g1[2]; } A;
    struct { int g0; int v[MAXARR + 16]; int g1; } I;
    int *arr_prep(const std::vector<int> &sel)
    {
        A.g0[0] = A.g0[1] = 0x77777777;
        for (size_t i = 0; i < sel.size() + 16; i++) A.h[i] = 0x66666666;
        A.g1[0] = A.g1[1] = 0x77777777;
        for (size_t i = 0; i < sel.size(); i++) A.h[i] = reqs[sel[i]].h;
        return A.h;
    }
    void arr_guard(const char *what, size_t n)
    {
        if (A.g0[0] != 0x77777777 || A.g0[1] != 0x77777777 || A.g1[0] != 0x77777777 || A.g1[1] != 0x77777777) mc::fail("%s wrote outside an array", what);
        for (size_t i = n; i < n + 16; i++) if (A.h[i] != 0x66666666) mc::fail("%s wrote past the request array", what);
    }
    void kept(const char *what, const std::vector<int> &sel, size_t i)
    {
        if (A.h[i] != reqs[sel[i]].h) mc::fail("%s changed the handle of entry %zu, which it did not report, from %d to %d", what, i, reqs[sel[i]].h, A.h[i]);
    }
    std::string desc(const std::vector<int> &sel)
    {
        std::string s;
        for (int x : sel) s += reqs[x].op < 0 ? "N" : ops[reqs[x].op].done ? "C" : "P";
        return s;
    }
    void any(const std::vector<int> &sel, bool wait_, int ign = 0)
    {
        const char *nm = wait_ ? "Waitany" : "Testany";
        mc::note("%s(%s)", nm, desc(sel).c_str());
        int n = (int)sel.size(), idx = -4242, flag = -77, active = 0, comp = 0;
        for (int x : sel) { if (reqs[x].op >= 0) { active++; if (ops[reqs[x].op].done) comp++; } }
        int *a = arr_prep(sel); MPI_Status *st = st_prep(1), *sp = ign ? MPI_STATUS_IGNORE : st;
        auto f = [&] { return wait_ ? api->Waitany(n, a, &idx, sp) : api->Testany(n, a, &idx, &flag, sp); };
        if (wait_ && active && !comp) { mc::dies(nm, f); end_dead(nm); }
        mc::ok(nm, f);
        arr_guard(nm, n);
        if (idx != MPI_UNDEFINED && api == api_f) idx--;          // Fortran counts from 1
        if (!wait_ && flag != (comp || !active ? 1 : 0)) mc::fail("%s on %s: flag %d", nm, desc(sel).c_str(), flag);
        if (!comp) {
            if (idx != MPI_UNDEFINED) mc::fail("%s on %s: index %d, expected MPI_UNDEFINED", nm, desc(sel).c_str(), idx);
            for (int i = 0; i < n; i++) kept(nm, sel, i);
            if (!active) { st_guard(nm, ign ? 0 : 1); if (!ign) st_empty(nm, *st); }
            else if (ign) st_guard(nm, 0);
        } else {
            if (idx < 0 || idx >= n || reqs[sel[idx]].op < 0 || !ops[reqs[sel[idx]].op].done) mc::fail("%s on %s: index %d is not a completed request", nm, desc(sel).c_str(), idx);
            for (int i = 0; i < n; i++) if (i != idx) kept(nm, sel, i);
            st_guard(nm, ign ? 0 : 1);
            int o = reqs[sel[idx]].op; null_it(nm, A.h[idx], reqs[sel[idx]]);
            if (!ign) st_op(nm, *st, ops[o]);
        }
        after(nm);
    }
    void all(const std::vector<int> &sel, bool wait_, int ign = 0)
    {
        const char *nm = wait_ ? "Waitall" : "Testall";
        mc::note("%s(%s)", nm, desc(sel).c_str());
        int n = (int)sel.size(), flag = -77; bool pend = false;
        for (int x : sel) if (!done(reqs[x])) pend = true;
        int *a = arr_prep(sel); MPI_Status *st = st_prep(n), *sp = ign ? MPI_STATUSES_IGNORE : st;
        auto f = [&] { return wait_ ? api->Waitall(n, a, sp) : api->Testall(n, a, &flag, sp); };
        if (wait_ && pend) { mc::dies(nm, f); end_dead(nm); }
        mc::ok(nm, f);
        arr_guard(nm, n);
        if (!wait_ && flag != (pend ? 0 : 1)) mc::fail("%s on %s: flag %d", nm, desc(sel).c_str(), flag);
        if (pend) { for (int i = 0; i < n; i++) kept(nm, sel, i); if (ign) st_guard(nm, 0); }
        else {
            st_guard(nm, ign ? 0 : n);
            for (int i = 0; i < n; i++) {
                R &r = reqs[sel[i]];
                if (r.op < 0) { if (A.h[i] != 0) mc::fail("%s changed a null entry", nm); if (!ign) st_empty(nm, st[i]); }
                else { int o = r.op; null_it(nm, A.h[i], r); if (!ign) st_op(nm, st[i], ops[o]); }
            }
        }
        after(nm);
    }
    void some(const std::vector<int> &sel, bool wait_, int ign = 0)
    {
        const char *nm = wait_ ? "Waitsome" : "Testsome";
        mc::note("%s(%s)", nm, desc(sel).c_str());
        int n = (int)sel.size(), out = -4242, active = 0, comp = 0;
        for (int x : sel) { if (reqs[x].op >= 0) { active++; if (ops[reqs[x].op].done) comp++; } }
        I.g0 = I.g1 = 0x55555555; for (int i = 0; i < n + 16; i++) I.v[i] = 0x44444444;
        int *a = arr_prep(sel); MPI_Status *st = st_prep(n), *sp = ign ? MPI_STATUSES_IGNORE : st;
        auto f = [&] { return wait_ ? api->Waitsome(n, a, &out, I.v, sp) : api->Testsome(n, a, &out, I.v, sp); };
        if (wait_ && active && !comp) { mc::dies(nm, f); end_dead(nm); }
        mc::ok(nm, f);
        arr_guard(nm, n);
        if (I.g0 != 0x55555555 || I.g1 != 0x55555555) mc::fail("%s wrote outside the index array", nm);
        int want = active ? comp : MPI_UNDEFINED;
        if (out != want) mc::fail("%s on %s: outcount %d, expected %d", nm, desc(sel).c_str(), out, want);
        int k = out > 0 ? out : 0;
        for (int i = k; i < n + 16; i++) if (I.v[i] != 0x44444444) mc::fail("%s wrote index entry %d of %d", nm, i, k);
        st_guard(nm, ign ? 0 : k);
        std::vector<char> rep(n, 0);
        for (int i = 0; i < k; i++) {
            int x = api == api_f ? I.v[i] - 1 : I.v[i];
            if (x < 0 || x >= n || rep[x] || reqs[sel[x]].op < 0 || !ops[reqs[sel[x]].op].done) mc::fail("%s on %s: index %d (entry %d) is not a completed request reported once", nm, desc(sel).c_str(), x, i);
            rep[x] = 1;
        }
        for (int i = 0; i < n; i++) if (!rep[i]) kept(nm, sel, i);
        for (int i = 0; i < k; i++) {
            int x = api == api_f ? I.v[i] - 1 : I.v[i];
            int o = reqs[sel[x]].op;
            if (A.h[x] != 0) mc::fail("%s completed entry %d but left its handle at %d", nm, x, A.h[x]);
            if (!ign) st_op(nm, st[i], ops[o]);
        }
        for (int i = 0; i < n; i++) if (rep[i]) { reqs[sel[i]].h = 0; reqs[sel[i]].op = -1; }
        after(nm);
    }
    // ---- probes
    void iprobe(int ci, int tag, int src = 0, int ign = 0)
    {
        mc::note("Iprobe(source %d, tag %d, comm %d)", src, tag, ci);
        int flag = -77; MPI_Status *st = st_prep(1);
        mc::ok("Iprobe", [&] { return api->Iprobe(src, tag, comms[ci].h, &flag, ign ? MPI_STATUS_IGNORE : st); });
        int m = src == MPI_PROC_NULL ? -1 : find_send(ci, tag);
        int want = src == MPI_PROC_NULL || m >= 0;
        if (flag != want) mc::fail("Iprobe gives flag %d, expected %d", flag, want);
        if (!want || ign) { if (ign) st_guard("Iprobe", 0); }
        else { st_guard("Iprobe", 1); probe_status("Iprobe", *st, ci, m); }
        after("Iprobe");
    }
    void probe(int ci, int tag, int src = 0, int ign = 0)
    {
        mc::note("Probe(source %d, tag %d, comm %d)", src, tag, ci);
        MPI_Status *st = st_prep(1);
        auto f = [&] { return api->Probe(src, tag, comms[ci].h, ign ? MPI_STATUS_IGNORE : st); };
        int m = src == MPI_PROC_NULL ? -1 : find_send(ci, tag);
        if (m < 0 && src != MPI_PROC_NULL) { mc::dies("Probe", f); end_dead("Probe"); }
        mc::ok("Probe", f);
        st_guard("Probe", ign ? 0 : 1);
        if (!ign) probe_status("Probe", *st, ci, m);
        after("Probe");
    }
    void probe_status(const char *nm, MPI_Status &st, int ci, int m)
    {
        if (m < 0) { st_check(nm, st, MPI_PROC_NULL, MPI_ANY_TAG, 0, &t_int); return; }
        Op &o = ops[comms[ci].sq[m]];
        st_check(nm, st, 0, o.tag, (long)o.n * o.t->count(), o.t);
    }
    // ---- communicators
    int comm_added(const char *nm, int h)
    {
        fresh_handle(nm, h);
        comms.push_back(C{h, true, {}, {}});
        after(nm);
        return (int)comms.size() - 1;
    }
    int comm_new(int how, int from)
    {
        static const char *const N[COMM_HOWS] = {"Comm_dup", "Comm_split", "Comm_create", "Cart_create", "Intercomm_create", "Intercomm_merge", "Comm_split color 0", "Cart_create 2d", "Comm_create incl", "Intercomm_merge high"};
        int h = -4242, f = comms[from].h;
        mc::note("%s(comm %d)", N[how], from);
        mc::ok(N[how], [&]() -> int {
            int one = 1, zero = 0, g = -1, dd[2] = {1, 1}, pr[2] = {1, 0};
            switch (how) {
            case 0: return api->Comm_dup(f, &h);
            case 1: return api->Comm_split(f, 3, 0, &h);
            case 2: { int rc = api->Comm_group(f, &g); if (rc) return rc; return api->Comm_create(f, g, &h); }
            case 3: return api->Cart_create(f, 1, &one, &zero, 0, &h);
            case 4: return api->Intercomm_create(f, 0, f, 0, 9, &h);
            case 5: return api_c->Intercomm_merge(f, 0, &h);
            case 6: return api->Comm_split(f, 0, 5, &h);
            case 7: return api->Cart_create(f, 2, dd, pr, 1, &h);
            case 8: { int g2 = -7, rc = api->Comm_group(f, &g); if (!rc) rc = api->Group_incl(g, 1, &zero, &g2); return rc ? rc : api->Comm_create(f, g2, &h); }
            default: return api_c->Intercomm_merge(f, 1, &h);
            }
        });
        return comm_added(N[how], h);
    }
    void comm_free(int ci)
    {
        int h = comms[ci].h;
        mc::note("Comm_free(comm %d)", ci);
        mc::ok("Comm_free", [&] { return api->Comm_free(&h); });
        if (h != MPI_COMM_NULL) mc::fail("Comm_free left the handle at %d", h);
        comms[ci].live = false; comms[ci].sq.clear(); comms[ci].rq.clear();
        after("Comm_free");
    }
    // ---- at the end: every request is what the model says, matched ones can be completed
    void finish()
    {
        for (size_t i = 0; i < reqs.size(); i++) {
            if (reqs[i].op < 0) continue;
            if (ops[reqs[i].op].done) wait((int)i); else test((int)i);
        }
        if (heapcheck) mc::env::check_heap("end");
    }
    // receive every message still queued and serve every receive still posted, so that whatever is
    // left inside the library shows; then all requests must be complete
    void drain()
    {
        for (size_t c = 0; c < comms.size(); c++) {
            if (!comms[c].live) continue;
            while (!comms[c].sq.empty()) { Op o = ops[comms[c].sq[0]]; recv((int)c, MPI_ANY_TAG, fresh(o.n, *o.t), o.n, *o.t); }
            while (!comms[c].rq.empty()) { Op o = ops[comms[c].rq[0]]; int t = o.tag == MPI_ANY_TAG ? 4242 : o.tag; send(SM_SEND, (int)c, t, fresh(o.n, *o.t), o.n, *o.t); }
        }
        finish();
    }
    uint64_t fp()
    {
        uint64_t h = 77;
        for (auto &c : comms) { h = mc::mix(h, c.live); for (int x : c.sq) h = mc::mix(h, ops[x].tag * 3 + 1); for (int x : c.rq) h = mc::mix(h, ops[x].tag * 3 + 2); }
        for (auto &r : reqs) h = mc::mix(h, r.op < 0 ? 0 : 1 + ops[r.op].done * 2 + ops[r.op].send * 4 + r.op * 8);
        for (auto &o : ops) h = mc::mix(h, o.done * 2 + o.send + (uint64_t)(o.done ? o.rtag : o.tag) * 4 + o.elems * 64);
        return h;
    }
};
extern P2P pp;
inline Api *pick_api() { return mc::choose(2, "binding C/Fortran") ? api_f : api_c; }
template <class T> static T pick(const std::vector<T> &v, const char *l) { return v[mc::choose((int)v.size(), l)]; }
template <class F> void guarded(F f) { try { f(); } catch (Finished &) {} }
// legal tag values
static std::vector<int> tag_values(bool all = mc::tier)
{
    std::vector<int> v = {0, 1, 2, 3, 7, 8, 31, 32, 127, 128, 255, 256, 32766, 32767, 32768, 65535, 65536, 8388607, 16777216, 0x3fffffff, 0x40000000, 0x60000000, 1681915905, 1681915906};
    if (all) for (int k = 2; k < 31; k++) for (long d : {-1L, 0L, 1L}) { long x = (1L << k) + d; if (x > 0 && x <= 1681915906L && std::find(v.begin(), v.end(), (int)x) == v.end()) v.push_back((int)x); }
    return v;
}
