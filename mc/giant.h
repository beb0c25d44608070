// Messages of more than 2^31 (2^32) bytes copied for real.  All but the last megabyte of each buffer is one megabyte
// mapped over and over (at a period that divides no power of two), so only the copying itself costs anything.
#pragma once
#include "ways.h"
#include <sys/mman.h>
#include <unistd.h>
struct Giant {
    static constexpr long CH = 257 * 4096;
    char *b = nullptr; long chunks = 0; int fd = -1, salt = 0;
    static char val(long off, int salt) { return (char)(mc::mix(off, salt) >> 3); }
    long bytes() { return chunks * CH; }
    char expect(long off) { return off < bytes() - CH ? val(off % CH, salt) : val(off, salt); }
    void map(long n, int s)     // at least n bytes; the buffer is the last n
    {
        salt = s; chunks = (n + CH - 1) / CH; fd = memfd_create("giant", 0);
        if (fd < 0 || ftruncate(fd, 2 * CH)) { perror("mc: giant buffer"); _exit(3); }
        char *r = (char *)mmap(NULL, bytes() + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (r == MAP_FAILED) { perror("mc: giant buffer"); _exit(3); }
        b = r + 4096;
        for (long k = 0; k < chunks; k++) if (mmap(b + k * CH, CH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, k == chunks - 1 ? CH : 0) == MAP_FAILED) { perror("mc: giant buffer"); _exit(3); }
        for (long i = 0; i < CH; i++) { b[i] = expect(i); b[bytes() - CH + i] = expect(bytes() - CH + i); }
    }
    void unmap() { if (b) munmap(b - 4096, bytes() + 2 * 4096); if (fd >= 0) close(fd); b = nullptr; fd = -1; }
};
static void giant(Api *a, int way, long total, int k, int m)
{
    static Giant s, d; s.unmap(); d.unmap();
    total -= total % ((long)k * m);
    s.map(total, 1); d.map(total, 2);
    char *sb = s.b + s.bytes() - total, *db = d.b + d.bytes() - total;
    RType c = r_basic(MPI_CHAR), t, u; mk_contig(a, t, k, c); mk_commit(a, t); mk_contig(a, u, m, c); mk_commit(a, u);
    int n = (int)(total / k), w = (int)(total / m), q = 0, zero = 0, W = MPI_COMM_WORLD; MPI_Status st;
    mc::note("%s of %ld bytes, %d items of %d received as %d of %d", WAY[way], total, n, k, w, m);
    mc::hang_limit = 800;
    switch (way) {
    case 0: mc::ok("Isend", [&] { return a->Isend(sb, n, t.h, 0, 5, W, &q); }); mc::ok("Recv", [&] { return a->Recv(db, w, u.h, 0, 5, W, &st); }); mc::ok("Wait", [&] { return a->Wait(&q, &st); }); break;
    case 1: mc::ok("Irecv", [&] { return a->Irecv(db, w, u.h, 0, 5, W, &q); }); mc::ok("Send", [&] { return a->Send(sb, n, t.h, 0, 5, W); }); mc::ok("Wait", [&] { return a->Wait(&q, &st); }); break;
    case 8: mc::ok("Gather", [&] { return a->Gather(sb, n, t.h, db, w, u.h, 0, W); }); break;
    case 13: mc::ok("Scatterv", [&] { return a->Scatterv(sb, &n, &zero, t.h, db, w, u.h, 0, W); }); break;
    case 15: mc::ok("Allreduce", [&] { return a->Allreduce(sb, db, n, t.h, MPI_SUM, W); }); break;
    case 20: mc::ok("Alltoallw", [&] { return a->Alltoallw(sb, &n, &zero, &t.h, db, &w, &zero, &u.h, W); }); break;
    }
    mc::hang_limit = 20;
    for (int pass = 0; pass < 2; pass++) for (long i = 0; i < Giant::CH; i++) {
        long o = pass ? s.bytes() - Giant::CH + i : Giant::CH + i;      // the second megabyte is described altogether
        if (s.b[o] != s.expect(o)) mc::fail("the byte at %ld of the send buffer was changed", o);
        if (o >= d.bytes() - total) { if (d.b[o] != s.expect(o)) mc::fail("byte %ld of %ld is not the one sent", o - (d.bytes() - total), total); }
        else if (d.b[o] != d.expect(o)) mc::fail("a byte before the receive buffer was changed");
    }
    s.unmap(); d.unmap();
    mc::state(mc::mix(mc::mix(total, way), k * 8 + m));
}
