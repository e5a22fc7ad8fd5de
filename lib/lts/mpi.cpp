#include "lts/stub/mpi.h"
#include "lts/lts.h"
#include <cstring>
#include <cstdlib>
namespace {
enum { MAXMSG = 1024, NREQ = 32 };
struct Req { int kind, rank, peer, tag, size, order; char *buf; uint64_t sum; int no, matched, late; char data[MAXMSG]; };   // kind: 0 free, 1 send, 2 receive, 3 completed send waiting for its receive
struct Coll { int cnt, phase; double acc[16], res[16]; };
struct World { Req r[NREQ]; Coll c; int order[3][3][64][2]; };
World *W; int eager, K;
int sz(MPI_Datatype d) { return d == MPI_BYTE ? 1 : d == MPI_INT || d == MPI_FLOAT ? 4 : 8; }
uint64_t sum(const char *p, int n) { uint64_t h = 1; for (int i = 0; i < n; i++) h = h * 0x100000001b3ull + (unsigned char)p[i]; return h; }
int ord(int src, int dst, int tag, int w) { for (int i = 0; i < 64; i++) { int *o = W->order[src][dst][i]; if (i == tag) { return o[w]++; } } eng_fail("MPI tag %d out of the model's range", tag); }
void thread() { if (eng_thread() != 0) eng_fail("MPI is called by thread %d, only the main thread may (MPI_THREAD_FUNNELED)", eng_thread()); }
Req *find(int kind, int kind2, int src, int dst, int tag, int order) {
  for (Req &r : W->r) if ((r.kind == kind || r.kind == kind2) && (r.kind == 2 ? r.rank == dst && r.peer == src : r.rank == src && r.peer == dst) && r.tag == tag && r.order == order) return &r;
  return 0; }
int request(int kind, void *buf, int n, MPI_Datatype d, int peer, int tag) {
  thread(); n *= sz(d); int me = eng_rank();
  if (peer < 0 || peer >= lts::S.nRanks || peer == me) eng_fail("message between rank %d and rank %d", me, peer);
  if (n > MAXMSG) eng_fail("message of %d bytes", n);
  if (tag < 0 || tag >= 64) eng_fail("MPI tag %d out of the model's range", tag);
  for (int i = 0; i < NREQ; i++) if (!W->r[i].kind) {
    Req &r = W->r[i]; r.kind = kind; r.rank = me; r.peer = peer; r.tag = tag; r.size = n; r.buf = (char *)buf; r.no = 0; r.matched = 0; r.late = 0;
    r.order = kind == 1 ? ord(me, peer, tag, 0) : ord(peer, me, tag, 1);
    if (kind == 1) { memcpy(r.data, buf, n); r.sum = sum(r.data, n); }
    else memset(buf, 0xff, n);     // undefined until completion
    return i; }
  eng_fail("too many pending messages");
}
bool completable(Req *r) {
  if (r->kind == 1) return eager || r->matched || find(2, 2, r->rank, r->peer, r->tag, r->order);
  return find(1, 3, r->peer, r->rank, r->tag, r->order) != 0; }
void complete(MPI_Request *q) {
  Req &r = W->r[*q];
  if (r.kind == 1) {
    if (sum(r.buf, r.size) != r.sum) eng_fail("send buffer (tag %d, rank %d to %d) changed before the send completed", r.tag, r.rank, r.peer);
    if (r.matched) memset(&r, 0, sizeof r); else { r.kind = 3; r.buf = 0; r.sum = 0; r.no = 0; r.late = 0; }
  } else {
    Req *s = find(1, 3, r.peer, r.rank, r.tag, r.order);
    if (s->size != r.size) eng_fail("message size mismatch: tag %d, rank %d sends %d bytes, rank %d receives %d", r.tag, r.peer, s->size, r.rank, r.size);
    for (int i = 0; i < r.size; i++) if (r.buf[i] != (char)0xff) eng_fail("receive buffer (tag %d, rank %d from %d) written before completion", r.tag, r.rank, r.peer);
    memcpy(r.buf, s->data, r.size);
    if (s->kind == 3) memset(s, 0, sizeof *s); else s->matched = 1;
    memset(&r, 0, sizeof r);
  }
  *q = MPI_REQUEST_NULL;
}
bool pDone(void *a) { return completable((Req *)a); }
bool pPhase(void *a) { int *x = (int *)a; return W->c.phase != x[0]; }
}
extern "C" {
int MPI_Initialized(int *f) { *f = 0; return 0; }
void mpi_setup() { W = (World *)eng_shared(sizeof(World)); eager = atoi(eng_opt("eager", "0")); K = atoi(eng_opt("round", "100")); }
int MPI_Init(int *, char ***) { return 0; }
int MPI_Init_thread(int *a, char ***b, int, int *p) { MPI_Init(a, b); *p = MPI_THREAD_FUNNELED; return 0; }
int MPI_Comm_size(MPI_Comm, int *n) { *n = lts::S.nRanks; return 0; }
int MPI_Comm_rank(MPI_Comm, int *r) { *r = eng_rank(); return 0; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype d, MPI_Op op, MPI_Comm) {
  thread(); Coll &c = W->c; if (n > 16) eng_fail("allreduce");
  for (int i = 0; i < n; i++) { double v = d == MPI_DOUBLE ? ((double *)in)[i] : d == MPI_FLOAT ? ((float *)in)[i] : d == MPI_INT ? ((int *)in)[i] : (double)((unsigned long *)in)[i];
    c.acc[i] = !c.cnt ? v : op == MPI_MIN ? (v < c.acc[i] ? v : c.acc[i]) : op == MPI_MAX ? (v > c.acc[i] ? v : c.acc[i]) : c.acc[i] + v; }
  if (++c.cnt == lts::S.nRanks) { c.cnt = 0; c.phase = !c.phase; for (int i = 0; i < 16; i++) { c.res[i] = c.acc[i]; c.acc[i] = 0; } }
  else { int x[1] = {c.phase}; eng_wait(pPhase, x, "collective"); }
  for (int i = 0; i < n; i++) { double v = c.res[i]; if (d == MPI_DOUBLE) ((double *)out)[i] = v; else if (d == MPI_FLOAT) ((float *)out)[i] = v; else if (d == MPI_INT) ((int *)out)[i] = (int)v; else ((unsigned long *)out)[i] = (unsigned long)v; }
  return 0; }
int MPI_Barrier(MPI_Comm) { return MPI_Allreduce(0, 0, 0, MPI_DOUBLE, MPI_MIN, 0); }
int MPI_Finalize() {
  for (Req &r : W->r) if (r.kind && (r.rank == eng_rank() || r.kind == 3)) eng_fail("%s (tag %d, rank %d, peer %d) pending at the end of the simulation", r.kind == 2 ? "receive" : "send", r.tag, r.rank, r.peer);
  return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype d, int to, int tag, MPI_Comm, MPI_Request *r) { *r = request(1, (void *)b, n, d, to, tag); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype d, int from, int tag, MPI_Comm, MPI_Request *r) { *r = request(2, b, n, d, from, tag); return 0; }
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *) {
  thread();
  if (*q == MPI_REQUEST_NULL) { *flag = 1; return 0; }
  int me = eng_rank();
  if (*q < 0 || *q >= NREQ || !W->r[*q].kind || W->r[*q].kind == 3 || W->r[*q].rank != me) eng_fail("test of an invalid request");
  // a request is looked at once per round of tests (K tests)
  *flag = 0;
  Req &r = W->r[*q];
  if (r.no) { if (++r.no > K) r.no = 0; else return 0; }
  if (r.no == 0) { if (eng_choose_if(pDone, &r, r.kind == 1 ? "send pending" : "receive pending", r.late)) { r.no = K > 1 ? 1 : 0; if (completable(&r)) r.late = 1; return 0; } }
  complete(q); *flag = 1;
  return 0; }
int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *s) { int a = 1; for (int i = 0; i < n; i++) { int x; MPI_Test(q + i, &x, s); a &= x; } *f = a; return 0; }
int MPI_Wait(MPI_Request *q, MPI_Status *) { thread(); if (*q == MPI_REQUEST_NULL) return 0; eng_wait(pDone, &W->r[*q], "wait"); complete(q); return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *s) { for (int i = 0; i < n; i++) MPI_Wait(q + i, s); return 0; }
}
