// see eng.h; compiled without instrumentation into libeng.so
#include "eng.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <link.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <new>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); }
// engine-internal containers must not use the interposed operator new
template <class T> struct EA { typedef T value_type; EA() {} template <class U> EA(EA<U> const &) {}
  T *allocate(size_t n) { void *p = __libc_malloc(n * sizeof(T)); if (!p) { write(2, "eng: out of memory\n", 19); _exit(2); } return (T *)p; }
  void deallocate(T *p, size_t) { __libc_free(p); } };
template <class T, class U> bool operator==(EA<T> const &, EA<U> const &) { return true; }
template <class T, class U> bool operator!=(EA<T> const &, EA<U> const &) { return false; }
template <class T> using vec = std::vector<T, EA<T>>;
typedef std::basic_string<char, std::char_traits<char>, EA<char>> str;
template <class K, class V, class H = std::hash<K>> using umap = std::unordered_map<K, V, H, std::equal_to<K>, EA<std::pair<const K, V>>>;
template <class K> using uset = std::unordered_set<K, std::hash<K>, std::equal_to<K>, EA<K>>;

enum { MAXR = 3, MAXT = 4, MAXC = MAXR * MAXT };
static const size_t STACK = 1u << 20, HEAP = 4u << 20, DATA = 1u << 20, TLSZ = 64u << 10;
static char *const BASE = (char *)0x200000000000ull;

enum St : u32 { FREE_, RUN, WAIT, CHOOSE, DONE, BEGIN };
enum Op : u32 { OP_NONE, OP_VR, OP_VW, OP_AT, OP_LOCK, OP_BAR, OP_WAIT, OP_CHOOSE, OP_POINT, OP_START };

struct Co {
  u32 st, op; u64 addr; eng_pred pred; void *arg; u32 nch, choice;
  const char *what;
  void *sp; void (*fn)(void *); void *data; u64 priv; // stack below is private
  int rank, tid; u32 acc;   // id of accumulated accesses
  u32 clockToggle;
};
struct Rank { u32 nTeam, barCount, barPhase, singleCount[MAXT], singleDone; u32 inPar; u32 armed; u32 lock[8]; u64 loopNext, loopEnd, loopInc, loopChunk; u32 loopGen[MAXT], loopGenG, loopLeft; };
struct Ctl { Co co[MAXC]; Rank rk[MAXR]; u64 heapTop[MAXC]; u64 sharedTop; u32 nDone; char pad[64]; char shared[64 << 10]; };

static size_t const OFF_CTL = 0, CTLSZ = (sizeof(Ctl) + 4095) / 4096 * 4096;
static size_t const OFF_STK = CTLSZ, OFF_HEAP = OFF_STK + MAXC * STACK, OFF_DATA = OFF_HEAP + MAXC * HEAP, OFF_TLS = OFF_DATA + MAXR * DATA, ARENA = OFF_TLS + MAXC * TLSZ;
static Ctl *C; static char *shadow;
static bool arenaUp = false;

// free lists live in the arena, in front of each heap
struct HeapHdr { u64 free[64]; };
static int g_argc; static char **g_argv; static const char *g_name;
static int nRanks = 1, nThreads = 1; static void (*g_entry)(int); static void (*g_final)();
static int cur = -1;      // running coroutine
static bool exploring = false, replaying = false;
static void *engSp; static int g_rankLoaded = -1;
static char *dataLo, *dataHi, *tlsLo; static size_t tlsSz;
static u64 stkLow[MAXC];  // lowest used stack address
static bool jmpArmed = false;
static double t0; static double budget = 600; static long caseCpu = 20;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void arena_init() {
  if (arenaUp) return;
  arenaUp = true;
  void *p = mmap(BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != BASE) { write(2, "eng: no arena\n", 14); _exit(2); }
  shadow = (char *)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  C = (Ctl *)(BASE + OFF_CTL);
  for (int c = 0; c < MAXC; c++) { C->heapTop[c] = (u64)(BASE + OFF_HEAP + c * HEAP + sizeof(HeapHdr)); stkLow[c] = (u64)(BASE + OFF_STK + (c + 1) * STACK); C->co[c].rank = c / MAXT; C->co[c].tid = c % MAXT; }
}

// ---------------------------------------------------------------- heap
static const u64 MAGIC = 0x5ca1ab1e0ddba11ull;
struct Hd { u64 size, magic, cls, pad; };   // 32 bytes in front of the (64 byte aligned) block
static bool inHeap(void *p) { return arenaUp && (char *)p >= BASE + OFF_HEAP && (char *)p < BASE + OFF_DATA; }
static int clsOf(size_t n) { int c = 0; size_t s = 64; while (s < n) { c++; if (c % 2) s += s / 2; else s = s / 3 * 4; s = (s + 63) / 64 * 64; } return c; }
static size_t clsSize(int k) { size_t s = 64; for (int c = 1; c <= k; c++) { if (c % 2) s += s / 2; else s = s / 3 * 4; s = (s + 63) / 64 * 64; } return s; }
static void *eng_alloc(size_t n) {
  arena_init();
  int c = cur < 0 ? 0 : cur;
  int k = clsOf(n + 8);
  HeapHdr *h = (HeapHdr *)(BASE + OFF_HEAP + c * HEAP);
  if (k >= 64) eng_fail("allocation of %zu bytes", n);
  char *b;
  if (h->free[k]) { b = (char *)h->free[k]; h->free[k] = *(u64 *)b; *(u64 *)b = 0; }
  else {
    u64 t = (C->heapTop[c] + 32 + 63) / 64 * 64; b = (char *)t; C->heapTop[c] = t + clsSize(k);
    if (C->heapTop[c] > (u64)(BASE + OFF_HEAP + (c + 1) * HEAP)) { write(2, "eng: heap exhausted\n", 20); _exit(2); }
  }
  Hd *d = (Hd *)(b - 32); d->size = n; d->magic = MAGIC; d->cls = k;
  memcpy(b + n, &MAGIC, 8);
  return b;
}
static void eng_free(void *p) {
  if (!p) return;
  if (!inHeap(p)) { return; }  // memory of uninstrumented libraries
  Hd *d = (Hd *)((char *)p - 32);
  if (d->magic != MAGIC) eng_fail("free of an invalid or already freed pointer (block %p, header %llx %llx %llx)", p, (unsigned long long)d->size, (unsigned long long)d->magic, (unsigned long long)d->cls);
  if (memcmp((char *)p + d->size, &MAGIC, 8)) eng_fail("write beyond the end of a heap block of %llu bytes", (unsigned long long)d->size);
  int c = ((char *)p - (BASE + OFF_HEAP)) / HEAP; int k = d->cls;
  HeapHdr *h = (HeapHdr *)(BASE + OFF_HEAP + c * HEAP);
  memset(p, 0, clsSize(k)); d->size = 0; d->magic = 0;
  *(u64 *)p = h->free[k]; h->free[k] = (u64)p;
}
void *operator new(size_t n) { return eng_alloc(n); }
void *operator new[](size_t n) { return eng_alloc(n); }
void *operator new(size_t n, std::nothrow_t const &) noexcept { return eng_alloc(n); }
void *operator new[](size_t n, std::nothrow_t const &) noexcept { return eng_alloc(n); }
void operator delete(void *p) noexcept { eng_free(p); }
void operator delete[](void *p) noexcept { eng_free(p); }
void operator delete(void *p, size_t) noexcept { eng_free(p); }
void operator delete[](void *p, size_t) noexcept { eng_free(p); }
void operator delete(void *p, std::nothrow_t const &) noexcept { eng_free(p); }
void operator delete[](void *p, std::nothrow_t const &) noexcept { eng_free(p); }
static void rec(u64 a, size_t n, bool w);
extern "C" {
void *__wrap_malloc(size_t n) { return eng_alloc(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p = eng_alloc(a * b); memset(p, 0, a * b); return p; }
int __wrap_posix_memalign(void **o, size_t al, size_t n) {
  if (al <= 64) { *o = eng_alloc(n); return 0; }
  char *q = (char *)eng_alloc(n + al + 8), *r = (char *)(((u64)q + al - 1) / al * al);
  if (r != q) { Hd *d = (Hd *)(r - 32); d->size = n; d->magic = MAGIC + 1; d->pad = (u64)q; }
  *o = r;
  return 0; }
void __wrap_free(void *p) {
  if (inHeap(p) && ((Hd *)((char *)p - 32))->magic == MAGIC + 1) p = (void *)((Hd *)((char *)p - 32))->pad;
  eng_free(p); }
void *__wrap_realloc(void *p, size_t n) { void *q = eng_alloc(n); if (p) { size_t s = ((Hd *)((char *)p - 32))->size; memcpy(q, p, s < n ? s : n); eng_free(p); } return q; }
void *__wrap_memcpy(void *d, void const *s, size_t n) { if (n) { rec((u64)s, n, false); rec((u64)d, n, true); } return memcpy(d, s, n); }
void *__wrap_memmove(void *d, void const *s, size_t n) { if (n) { rec((u64)s, n, false); rec((u64)d, n, true); } return memmove(d, s, n); }
void *__wrap_memset(void *d, int v, size_t n) { if (n) rec((u64)d, n, true); return memset(d, v, n); }
}

// ---------------------------------------------------------------- coroutines
extern "C" void eng_switch(void **saveSp, void *toSp);
asm(R"(
.text
.globl eng_switch
.type eng_switch,@function
eng_switch:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  subq $16,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $16,%rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
.size eng_switch,.-eng_switch
)");

static void toEngine() { int c = cur; eng_switch(&C->co[c].sp, engSp); }
static void coMain() {
  Co &k = C->co[cur];
  k.fn(k.data);
  Co &e = C->co[cur];
  e.st = DONE; e.acc = 0;
  for (;;) toEngine();
}
static void coStart(int c, void (*fn)(void *), void *data) {
  Co &k = C->co[c]; k.fn = fn; k.data = data; k.st = RUN; k.op = OP_START; k.acc = 0; k.pred = 0; k.what = "start"; k.addr = 0;
  u64 *s = (u64 *)(BASE + OFF_STK + (c + 1) * STACK - 64);
  k.priv = (u64)(s + 8);
  s[-1] = 0; s[-2] = (u64)coMain; u64 *sp = s - 2; // ret -> coMain with aligned stack
  for (int i = 0; i < 6; i++) *--sp = 0;
  sp -= 2; u32 mx; unsigned short cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw)); memset(sp, 0, 16); memcpy(sp, &mx, 4); memcpy((char *)sp + 4, &cw, 2);
  k.sp = sp;
  if ((u64)sp < stkLow[c]) stkLow[c] = (u64)sp & ~255ull;
}
static size_t dataSz() { return dataHi - dataLo; }
static u64 segAccMark;
static char const *curSeg = "";
// runs coroutine c until its next point
static void runCo(int c) {
  int r = C->co[c].rank;
  if (nRanks > 1 ? g_rankLoaded != r : g_rankLoaded != r) memcpy(dataLo, BASE + OFF_DATA + r * DATA, dataSz());
  else memcpy(dataLo, BASE + OFF_DATA + r * DATA, dataSz());
  g_rankLoaded = r;
  memcpy(tlsLo, BASE + OFF_TLS + c * TLSZ, tlsSz);
  cur = c;
  eng_switch(&engSp, C->co[c].sp);
  cur = -1;
  memcpy(BASE + OFF_TLS + c * TLSZ, tlsLo, tlsSz);
  memcpy(BASE + OFF_DATA + r * DATA, dataLo, dataSz());
  // clear the dead part of the stack
  u64 bot = (u64)(BASE + OFF_STK + c * STACK), sp = (u64)C->co[c].sp;
  u64 p = sp - 8; u64 zeros = 0;
  while (p >= bot && zeros < 512) { if (*(u64 *)p) { *(u64 *)p = 0; zeros = 0; if (p < stkLow[c]) {} } else zeros++; p -= 8; }
  if (sp < stkLow[c]) stkLow[c] = sp & ~255ull;
  if (stkLow[c] < bot + 4096) { write(2, "eng: stack overflow\n", 20); _exit(2); }
}

// ---------------------------------------------------------------- access recording / races
struct Acc { u64 g; u32 m; };   // granule (8 bytes), low byte: read mask, next byte: write mask
static vec<Acc> seg;            // accesses of the running segment
static vec<vec<Acc>> *accSets; static umap<u64, vec<u32>> *accIdx;
struct Priv { u64 lo, hi; };
static vec<Priv> *privs;
static bool raceOn = true;
static inline bool isData(u64 a) { return a >= (u64)dataLo && a < (u64)dataHi; }
struct RecC { u64 g; u32 t, m; }; static RecC recCache[4096]; static u32 recTag = 1;   // recent accesses of this segment
static size_t segMax = 1 << 16; static void norm(vec<Acc> &v);
static void rec(u64 a, size_t n, bool w) {
  if (!exploring || cur < 0 || !raceOn) return;
  Co &k = C->co[cur];
  u64 sb = (u64)(BASE + OFF_STK + cur * STACK);
  if (a >= sb && a < k.priv) return;
  if (a >= (u64)tlsLo && a < (u64)tlsLo + tlsSz) return;
  u64 key = isData(a) ? a + ((u64)(k.rank + 1) << 56) : a;
  for (u64 e = key + n; key < e;) {
    u64 g = key >> 3; u64 end = std::min(e, (g + 1) << 3); u32 m = ((1u << (end - key)) - 1) << (key & 7);
    u32 mm = w ? m << 8 : m; RecC &rc = recCache[(g ^ g >> 12) & 4095];
    if (rc.g == g && rc.t == recTag && (rc.m & mm) == mm) { key = end; continue; }
    if (rc.g == g && rc.t == recTag) rc.m |= mm; else rc = RecC{g, recTag, mm};
    seg.push_back(Acc{g, mm});
    key = end;
  }
  if (seg.size() > segMax) { norm(seg); segMax = std::max<size_t>(1 << 16, 2 * seg.size()); }
}
static u64 hash64(const void *p, size_t n, u64 s) { const u64 *q = (const u64 *)p; u64 h = s; for (size_t i = 0; i < n / 8; i++) { h ^= q[i]; h *= 0x9fb21c651e98df25ull; h ^= h >> 32; } return h; }
static void norm(vec<Acc> &v) {
  std::sort(v.begin(), v.end(), [](Acc const &a, Acc const &b) { return a.g < b.g; });
  size_t o = 0;
  for (size_t i = 0; i < v.size(); i++) { if (o && v[o - 1].g == v[i].g) v[o - 1].m |= v[i].m; else v[o++] = v[i]; }
  v.resize(o);
}
static u32 intern(vec<Acc> const &v) {
  if (v.empty()) return 0;
  u64 h = 1; for (auto &a : v) { h ^= a.g * 0x9e3779b97f4a7c15ull + a.m; h *= 0x9fb21c651e98df25ull; h ^= h >> 29; }
  auto &b = (*accIdx)[h];
  for (u32 i : b) { auto &w = (*accSets)[i]; if (w.size() == v.size() && std::equal(v.begin(), v.end(), w.begin(), [](Acc const &x, Acc const &y) { return x.g == y.g && x.m == y.m; })) return i; }
  accSets->push_back(v); b.push_back(accSets->size() - 1); return accSets->size() - 1;
}
static str violation; // set by fail
static char const *symOf(u64 a, char *buf, size_t n) {
  if (a >> 56) { Dl_info di; u64 x = a & 0xffffffffffffffull; if (dladdr((void *)x, &di) && di.dli_sname) snprintf(buf, n, "%s+%llu", di.dli_sname, (unsigned long long)(x - (u64)di.dli_saddr)); else snprintf(buf, n, "global %#llx", (unsigned long long)x); }
  else if ((char *)a >= BASE + OFF_HEAP && (char *)a < BASE + OFF_DATA) snprintf(buf, n, "heap %#llx", (unsigned long long)(a - (u64)BASE));
  else if ((char *)a >= BASE + OFF_STK && (char *)a < BASE + OFF_HEAP) snprintf(buf, n, "stack %#llx of thread %d", (unsigned long long)(a - (u64)BASE), (int)((a - (u64)BASE - OFF_STK) / STACK));
  else snprintf(buf, n, "%#llx", (unsigned long long)a);
  return buf;
}
static void checkRaces(int c, u32 opRelease) {
  // prior accumulated set is dropped if the segment started with a release
  norm(seg);
  if (seg.empty() && !opRelease) return;
  if (privs && privs->size()) {
    size_t o = 0;
    for (auto &a : seg) { bool p = false; u64 ad = a.g << 3; for (auto &q : *privs) if (ad >= (q.lo & ~7ull) && ad < q.hi) { p = true; break; } if (!p) seg[o++] = a; }
    seg.resize(o);
  }
  for (int o = 0; o < MAXC; o++) {
    if (o == c || C->co[o].st == FREE_ || !C->co[o].acc) continue;
    auto &w = (*accSets)[C->co[o].acc];
    size_t i = 0, j = 0;
    while (i < seg.size() && j < w.size()) {
      if (seg[i].g < w[j].g) i++; else if (seg[i].g > w[j].g) j++;
      else {
        u32 sw = seg[i].m >> 8 & 255, sr = seg[i].m & 255, ow = w[j].m >> 8 & 255, orr = w[j].m & 255;
        if ((sw & (ow | orr)) || (sr & ow)) {
          char b[200];
          char m[600]; snprintf(m, sizeof m, "data race: thread %d.%d (%s) and thread %d.%d (%s) access %s without synchronization", C->co[c].rank, C->co[c].tid, sw ? "writing" : "reading", C->co[o].rank, C->co[o].tid, ow ? "writing" : "reading", symOf(seg[i].g << 3, b, sizeof b));
          violation = m; return;
        }
        i++; j++;
      }
    }
  }
  vec<Acc> n;
  if (!opRelease && C->co[c].acc) {
    n = (*accSets)[C->co[c].acc];
    n.insert(n.end(), seg.begin(), seg.end()); norm(n);
  } else n = seg;
  C->co[c].acc = intern(n);
}

// ---------------------------------------------------------------- scheduling points
struct Sh { u32 rd, wr; };
static umap<u64, Sh> *shared_; static bool grew = false;
static void yieldHere(Op op, u64 addr, const char *what) {
  Co &k = C->co[cur]; k.st = RUN; k.op = op; k.addr = addr; k.what = what;
  toEngine();
}
static bool coarse = false; static vec<u64> rdSet;   // volatile reads of the running segment
static u64 volCount;   // volatile accesses of the running segment
static void volAcc(u64 a, size_t n, bool w) {
  if (!exploring || cur < 0) return;
  Co &k = C->co[cur];
  u64 sb = (u64)(BASE + OFF_STK + cur * STACK);
  if (a >= sb && a < k.priv) return;
  u64 key = isData(a) ? a + ((u64)(k.rank + 1) << 56) : a;
  Sh &s = (*shared_)[key];
  u32 me = 1u << cur;
  u32 &f = w ? s.wr : s.rd;
  if (!(f & me)) {
    f |= me;
    u32 ot = (s.rd | s.wr) & ~me;
    if (w ? ot != 0 : (s.wr & ~me) != 0) grew = true;
  }
  if (++volCount > 6000 && !(s.wr & ~me)) { s.wr |= ~0u & ~me; grew = true; }   // spinning on memory nobody was seen writing so far
  bool need = w ? ((s.rd | s.wr) & ~me) != 0 : (s.wr & ~me) != 0;
  if (need && coarse && !w) { // coarse: reads are points only if they repeat
    bool again = false; for (u64 x : rdSet) if (x == key) { again = true; break; }
    if (!again) { rdSet.push_back(key); return; }
  }
  if (need) yieldHere(w ? OP_VW : OP_VR, key, w ? "volatile write" : "volatile read");
}
extern "C" {
bool eng_exploring() { return exploring; }
int eng_rank() { return cur < 0 ? 0 : C->co[cur].rank; }
int eng_thread() { return cur < 0 ? 0 : C->co[cur].tid; }
int eng_choose(int n, const char *what) {
  if (!exploring || n <= 1) return 0;
  Co &k = C->co[cur]; k.st = CHOOSE; k.op = OP_CHOOSE; k.nch = n; k.what = what; k.addr = 0;
  toEngine();
  return C->co[cur].choice;
}
// two choices at a scheduling point; choice 0 is possible only if the predicate holds when the thread continues
int eng_choose_if(eng_pred p, void *arg, const char *what, int freeDefer) {
  if (!exploring) return p(arg) ? 0 : 1;
  Co &k = C->co[cur]; k.st = CHOOSE; k.op = OP_CHOOSE; k.nch = 2; k.what = what; k.addr = freeDefer; k.pred = p; k.arg = arg;
  toEngine();
  return C->co[cur].choice;
}
static void waitFor(eng_pred p, void *arg, Op op, const char *what) {
  Co &k = C->co[cur];
  if (!exploring && p(arg)) return;
  k.st = WAIT; k.op = op; k.pred = p; k.arg = arg; k.what = what; k.addr = (u64)arg;
  toEngine();
}
void eng_wait(eng_pred p, void *arg, const char *what) { waitFor(p, arg, OP_WAIT, what); }
void eng_point(const char *what) { if (exploring) yieldHere(OP_POINT, 0, what); }
void eng_arm() { C->rk[eng_rank()].armed = 1; }
void eng_begin() { Co &k = C->co[cur]; k.st = BEGIN; k.what = "begin"; toEngine(); }
void *eng_shared(size_t n) { arena_init(); void *p = C->shared + C->sharedTop; C->sharedTop += (n + 63) / 64 * 64; if (C->sharedTop > sizeof(C->shared)) { write(2, "eng: shared\n", 12); _exit(2); } eng_private(p, n); return p; }
void eng_private(const void *p, size_t n) { if (!privs) privs = new (__libc_malloc(sizeof(vec<Priv>))) vec<Priv>(); u64 a = (u64)p; privs->push_back(Priv{a, a + n}); if (isData(a)) for (int r = 0; r < MAXR; r++) { u64 b = a + ((u64)(r + 1) << 56); privs->push_back(Priv{b, b + n}); } }
}
static jmp_buf failJmp;
static void failNow() {
  if (jmpArmed) longjmp(failJmp, 1);
  fprintf(stderr, "eng: failure outside exploration: %s\n", violation.c_str()); _exit(3);
}
extern "C" void eng_fail(const char *fmt, ...) {
  char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  violation = b; failNow(); __builtin_unreachable();
}
static vec<str> *events;
extern "C" void eng_event(const char *fmt, ...) { if (!replaying) return; char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); printf("      %d.%d: %s\n", eng_rank(), eng_thread(), b); }
static uset<u64> *obsSet;
extern "C" void eng_obs(u64 v) { if (obsSet) obsSet->insert(v); }

// ---------------------------------------------------------------- OpenMP runtime
static bool pBar(void *a) { u64 *x = (u64 *)a; return C->rk[x[0]].barPhase != (u32)x[1]; }
static bool pTeam(void *a) { int r = (int)(u64)a; for (int t = 1; t < (int)C->rk[r].nTeam; t++) if (C->co[r * MAXT + t].st != DONE) return false; return true; }
static bool pLock(void *a) { return *(u32 *)a == 0; }
static void bar() {
  int r = eng_rank(); Rank &k = C->rk[r]; if (k.nTeam <= 1) return;
  C->co[cur].acc = 0; if (exploring) { checkRaces(cur, 1); if (violation.size()) failNow(); (seg.clear(), recTag++); C->co[cur].acc = 0; }
  k.barCount++;
  if (k.barCount == k.nTeam) { k.barCount = 0; k.barPhase++; for (int t = 0; t < MAXT; t++) C->co[r * MAXT + t].acc = 0; }
  else { u64 x[2] = {(u64)r, k.barPhase}; waitFor(pBar, x, OP_BAR, "barrier"); }
}
static void lockAt(int i) { u32 *l = &C->rk[eng_rank()].lock[i]; waitFor(pLock, l, OP_LOCK, "critical"); *l = 1; }
static void unlockAt(int i) { if (exploring) { checkRaces(cur, 0); if (violation.size()) failNow(); (seg.clear(), recTag++); C->co[cur].acc = 0; } C->rk[eng_rank()].lock[i] = 0; }
extern "C" {
int omp_get_thread_num() { return eng_thread(); }
int omp_get_num_threads() { return C->rk[eng_rank()].inPar ? C->rk[eng_rank()].nTeam : 1; }
int omp_get_max_threads() { return nThreads; }
int omp_in_parallel() { return C->rk[eng_rank()].inPar && C->rk[eng_rank()].nTeam > 1; }
int omp_get_num_procs() { return nThreads; }
void omp_set_num_threads(int) {}
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
  int r = eng_rank(); Rank &k = C->rk[r];
  if (k.inPar) { fn(data); return; } // nested: serialized
  if (k.armed) { k.armed = 0; eng_begin(); }
  k.nTeam = nt ? std::min<unsigned>(nt, nThreads) : nThreads; k.inPar = 1; k.barCount = 0;
  u64 oldPriv = C->co[cur].priv; C->co[cur].priv = (u64)__builtin_frame_address(0);
  // forking orders everything before it
  if (exploring) { checkRaces(cur, 0); if (violation.size()) failNow(); (seg.clear(), recTag++); C->co[cur].acc = 0; }
  for (int t = 1; t < (int)k.nTeam; t++) coStart(r * MAXT + t, fn, data);
  fn(data);
  if (k.nTeam > 1) waitFor(pTeam, (void *)(u64)r, OP_BAR, "join");
  for (int t = 1; t < (int)k.nTeam; t++) { int c = r * MAXT + t; C->co[c].st = FREE_; C->co[c].acc = 0; }
  C->co[cur].priv = oldPriv; k.inPar = 0; k.nTeam = 1;
}
void GOMP_barrier() { bar(); }
void GOMP_critical_start() { lockAt(0); }
void GOMP_critical_end() { unlockAt(0); }
void GOMP_critical_name_start(void **p) { (void)p; lockAt(1); }
void GOMP_critical_name_end(void **p) { (void)p; unlockAt(1); }
void GOMP_atomic_start() { lockAt(2); }
void GOMP_atomic_end() { unlockAt(2); }
bool GOMP_single_start() {
  Rank &k = C->rk[eng_rank()]; if (k.nTeam <= 1) return true;
  if (exploring) yieldHere(OP_AT, (u64)&k.singleDone, "single");
  u32 &m = k.singleCount[eng_thread()]; m++;
  if (k.singleDone < m) { k.singleDone = m; return true; } return false;
}
static bool loopNext(long *b, long *e) {
  Rank &k = C->rk[eng_rank()];
  if (exploring) yieldHere(OP_AT, (u64)&k.loopNext, "loop");
  if ((long)k.loopNext >= (long)k.loopEnd) return false;
  *b = k.loopNext; *e = std::min<long>(k.loopEnd, *b + (long)k.loopChunk); k.loopNext = *e; return true;
}
static bool loopStart(long s, long e, long inc, long chunk, long *b, long *f) {
  Rank &k = C->rk[eng_rank()]; if (inc != 1) { write(2, "eng: loop inc\n", 14); _exit(2); }
  u32 &g = k.loopGen[eng_thread()]; g++;
  if (k.loopGenG < g) { k.loopGenG = g; k.loopNext = s; k.loopEnd = e; k.loopChunk = chunk ? chunk : 1; }
  return loopNext(b, f);
}
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long *b, long *f) { return loopStart(s, e, i, c, b, f); }
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *b, long *f) { return loopStart(s, e, i, c, b, f); }
bool GOMP_loop_guided_start(long s, long e, long i, long c, long *b, long *f) { return loopStart(s, e, i, c, b, f); }
bool GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *b, long *f) { return loopStart(s, e, i, c, b, f); }
bool GOMP_loop_dynamic_next(long *b, long *f) { return loopNext(b, f); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *b, long *f) { return loopNext(b, f); }
bool GOMP_loop_guided_next(long *b, long *f) { return loopNext(b, f); }
bool GOMP_loop_nonmonotonic_guided_next(long *b, long *f) { return loopNext(b, f); }
void GOMP_loop_end() { bar(); }
void GOMP_loop_end_nowait() {}
void GOMP_flush_all() {}

int gettimeofday(struct timeval *tv, void *) {
  tv->tv_sec = 0; tv->tv_usec = 0;
  if (cur >= 0) { Co &k = C->co[cur]; if (k.clockToggle) tv->tv_sec = 1l << k.tid; k.clockToggle ^= 1; }
  return 0;
}
// ---- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void *a) { rec((u64)a, n, false); } void __tsan_write##n(void *a) { rec((u64)a, n, true); } \
  void __tsan_volatile_read##n(void *a) { volAcc((u64)a, n, false); } void __tsan_volatile_write##n(void *a) { volAcc((u64)a, n, true); } \
  void __tsan_unaligned_read##n(void *a) { rec((u64)a, n, false); } void __tsan_unaligned_write##n(void *a) { rec((u64)a, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *a) { volAcc((u64)a, n, false); } void __tsan_unaligned_volatile_write##n(void *a) { volAcc((u64)a, n, true); } \
  void __tsan_read##n##_pc(void *a, void *) { rec((u64)a, n, false); } void __tsan_write##n##_pc(void *a, void *) { rec((u64)a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) rec((u64)a, n, false); }
void __tsan_write_range(void *a, size_t n) { if (n) rec((u64)a, n, true); }
void __tsan_vptr_update(void **a, void *) { rec((u64)a, 8, true); }
void __tsan_vptr_read(void **a) { rec((u64)a, 8, false); }
static void at(u64 a) { if (exploring && cur >= 0) yieldHere(OP_AT, a, "atomic"); }
#define ATM(n, T) \
  T __tsan_atomic##n##_load(T const volatile *a, int) { at((u64)a); return *a; } \
  void __tsan_atomic##n##_store(T volatile *a, T v, int) { at((u64)a); *a = v; } \
  T __tsan_atomic##n##_exchange(T volatile *a, T v, int) { at((u64)a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(T volatile *a, T v, int) { at((u64)a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(T volatile *a, T v, int) { at((u64)a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(T volatile *a, T v, int) { at((u64)a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(T volatile *a, T v, int) { at((u64)a); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(T volatile *a, T v, int) { at((u64)a); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(T volatile *a, T *c, T v, int, int) { at((u64)a); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(T volatile *a, T *c, T v, int, int) { at((u64)a); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  T __tsan_atomic##n##_compare_exchange_val(T volatile *a, T c, T v, int, int) { at((u64)a); T o = *a; if (o == c) *a = v; return o; }
ATM(8, u8) ATM(16, unsigned short) ATM(32, u32) ATM(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- state
struct Key { u64 a, b; bool operator==(Key const &o) const { return a == o.a && b == o.b; } };
struct KeyH { size_t operator()(Key const &k) const { return k.a; } };
static const size_t BLK = 256;
static Key curKey;
static inline Key blkHash(size_t idx, const char *p) {
  const u64 *q = (const u64 *)p; bool z = true; for (int i = 0; i < 32; i++) if (q[i]) { z = false; break; }
  if (z) return Key{0, 0};
  u64 a = idx * 0x9e3779b97f4a7c15ull + 1, b = idx * 0xc2b2ae3d27d4eb4full + 7;
  for (int i = 0; i < 32; i++) { a ^= q[i]; a *= 0x9fb21c651e98df25ull; a ^= a >> 29; b += q[i]; b *= 0xd6e8feb86659fd93ull; b ^= b >> 32; }
  a ^= a >> 32; b ^= b >> 29; a *= 0xff51afd7ed558ccdull; b *= 0xc4ceb9fe1a85ec53ull;
  return Key{a ^ (b >> 17), b ^ (a << 13)};
}
struct Undo { u32 off; u64 old; };
static vec<Undo> *curUndo;
static void diffRange(size_t lo, size_t hi) {
  lo &= ~(BLK - 1); hi = (hi + BLK - 1) & ~(BLK - 1);
  for (size_t o = lo; o < hi; o += BLK) {
    char *m = BASE + o, *s = shadow + o;
    if (!memcmp(m, s, BLK)) continue;
    Key h = blkHash(o / BLK, s); curKey.a ^= h.a; curKey.b ^= h.b;
    u64 *x = (u64 *)m, *y = (u64 *)s;
    for (int i = 0; i < 32; i++) if (x[i] != y[i]) { if (curUndo) curUndo->push_back(Undo{(u32)((o + i * 8) / 8), y[i]}); y[i] = x[i]; }
    h = blkHash(o / BLK, s); curKey.a ^= h.a; curKey.b ^= h.b;
  }
}
static void diff() {
  diffRange(OFF_CTL, OFF_CTL + (C->shared + C->sharedTop - (char *)C));
  for (int r = 0; r < nRanks; r++) {
    for (int t = 0; t < nThreads; t++) {
      int c = r * MAXT + t;
      diffRange(stkLow[c] - (u64)BASE, OFF_STK + (c + 1) * STACK);
      static u64 heapHi[MAXC]; if (C->heapTop[c] - (u64)BASE > heapHi[c]) heapHi[c] = C->heapTop[c] - (u64)BASE;
      diffRange(OFF_HEAP + c * HEAP, heapHi[c]);
      diffRange(OFF_TLS + c * TLSZ, OFF_TLS + c * TLSZ + tlsSz);
    }
    diffRange(OFF_DATA + r * DATA, OFF_DATA + r * DATA + dataSz());
  }
}
static void undo(vec<Undo> &u) {
  for (size_t i = u.size(); i-- > 0;) {
    size_t o = (size_t)u[i].off * 8; size_t b = o & ~(BLK - 1);
    Key h = blkHash(b / BLK, shadow + b); curKey.a ^= h.a; curKey.b ^= h.b;
    // undo all words of this block that follow in the log
    size_t j = i;
    for (;;) { size_t oj = (size_t)u[j].off * 8; *(u64 *)(shadow + oj) = u[j].old; *(u64 *)(BASE + oj) = u[j].old; if (j == 0 || (((size_t)u[j - 1].off * 8) & ~(BLK - 1)) != b) break; j--; }
    i = j;
    h = blkHash(b / BLK, shadow + b); curKey.a ^= h.a; curKey.b ^= h.b;
  }
  u.clear();
}

struct Dec { u8 c, ch; };
static vec<Dec> enabled() {
  vec<Dec> d;
  for (int r = 0; r < nRanks; r++) for (int t = 0; t < nThreads; t++) {
    int c = r * MAXT + t; Co &k = C->co[c];
    if (k.st == RUN) d.push_back(Dec{(u8)c, 0});
    else if (k.st == WAIT) {
      // predicates read rank data through pointers into the arena only
      if (k.pred(k.arg)) d.push_back(Dec{(u8)c, 0});
    } else if (k.st == CHOOSE) for (u32 i = k.pred && !k.pred(k.arg) ? 1 : 0; i < k.nch; i++) d.push_back(Dec{(u8)c, (u8)i});
  }
  return d;
}
static bool allDone() { for (int r = 0; r < nRanks; r++) if (C->co[r * MAXT].st != DONE) return false; return true; }

// executes one decision; returns false on a violation
static bool step(Dec d) {
  Co &k = C->co[d.c];
  u32 op = k.op; bool release = op == OP_VW || op == OP_AT;
  k.choice = d.ch; if (k.st == WAIT || k.st == CHOOSE) k.st = RUN;
  k.pred = 0; k.arg = 0; k.nch = 0; k.op = OP_NONE;
  (seg.clear(), recTag++); volCount = 0; rdSet.clear();
  if (release) C->co[d.c].acc = 0;
  itimerval it = {{0, 0}, {caseCpu, 0}}; setitimer(ITIMER_VIRTUAL, &it, 0);
  jmpArmed = true;
  if (setjmp(failJmp)) { jmpArmed = false; return false; }
  runCo(d.c);
  jmpArmed = false;
  if (exploring && raceOn) { checkRaces(d.c, 0); if (violation.size()) return false; if (C->co[d.c].st == DONE) C->co[d.c].acc = 0; }
  C->co[d.c].choice = 0;
  return true;
}
static char sigStack[1 << 16];
static void onSig(int s, siginfo_t *si, void *uc) {
  sigset_t m; sigemptyset(&m); sigaddset(&m, s); sigprocmask(SIG_UNBLOCK, &m, 0);
  char b[200];
  if (s == SIGVTALRM) snprintf(b, sizeof b, "no progress: a thread runs for %ld s of CPU time without reaching a scheduling point", caseCpu);
  else if (s == SIGABRT) snprintf(b, sizeof b, "abort");
  else snprintf(b, sizeof b, "signal %d (%s) at address %p, pc %p", s, strsignal(s), si->si_addr, (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP]);
  if (violation.empty()) violation = b;
  failNow();
}
static const char *optv(const char *k, const char *d) {
  size_t n = strlen(k);
  for (int i = 1; i < g_argc; i++) { const char *a = g_argv[i]; if (a[0] == '-' && a[1] == '-' && !strncmp(a + 2, k, n) && a[2 + n] == '=') return a + 3 + n; }
  return d;
}
extern "C" void eng_args(int c, char **v) { g_argc = c; g_argv = v; }
extern "C" const char *eng_opt(const char *k, const char *d) { return optv(k, d); }
static void describe(Dec d) {
  Co &k = C->co[d.c]; char b[200];
  printf("  %d.%d %s", k.rank, k.tid, k.what ? k.what : "");
  if (k.st == CHOOSE) printf(" := %d of %u", d.ch, k.nch);
  if (k.op == OP_VR || k.op == OP_VW) printf(" %s", symOf(k.addr, b, sizeof b));
  printf("\n");
}
static void thunk(void *r) { g_entry((int)(u64)r); }
static void jsonStr(str const &s) { putchar('"'); for (char ch : s) { if (ch == '"' || ch == '\\') { putchar('\\'); putchar(ch); } else if ((u8)ch < 32) printf("\\u%04x", ch); else putchar(ch); } putchar('"'); }

extern "C" int eng_run(int argc, char **argv, const char *name, int nr, int nt, void (*entry)(int), void (*fin)()) {
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  arena_init();
  g_argc = argc; g_argv = argv; g_name = name; nRanks = nr; nThreads = nt; g_entry = entry; g_final = fin;
  if (nr > MAXR || nt > MAXT) return 2;
  t0 = now(); budget = atof(optv("budget", "600")); caseCpu = atol(optv("case-cpu", "20")); raceOn = atoi(optv("race", "1")); coarse = atoi(optv("coarse", "0"));
  size_t maxStates = atof(optv("max-states", "60e6"));
  accSets = new (__libc_malloc(sizeof *accSets)) vec<vec<Acc>>(); accSets->push_back(vec<Acc>());
  accIdx = new (__libc_malloc(sizeof *accIdx)) umap<u64, vec<u32>>();
  shared_ = new (__libc_malloc(sizeof *shared_)) umap<u64, Sh>();
  obsSet = new (__libc_malloc(sizeof *obsSet)) uset<u64>();
  // locate the writable data and the TLS block of the executable
  struct F { static int cb(dl_phdr_info *i, size_t, void *) {
    if (i->dlpi_name && i->dlpi_name[0]) return 0;
    u64 rel = 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) rel = (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz + 4095) / 4096 * 4096;
    for (int k = 0; k < i->dlpi_phnum; k++) { auto &p = i->dlpi_phdr[k];
      if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { u64 lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz; if (rel > lo) lo = rel; dataLo = (char *)(lo & ~7ull); dataHi = (char *)((hi + 7) & ~7ull); }
      if (p.p_type == PT_TLS) { tlsLo = (char *)i->dlpi_tls_data; tlsSz = (p.p_memsz + 7) & ~7ull; } }
    return 1; } };
  dl_iterate_phdr(F::cb, 0);
  if (!dataLo || dataSz() > DATA || tlsSz > TLSZ) { fprintf(stderr, "eng: data segment %zu tls %zu\n", dataSz(), tlsSz); return 2; }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSig; sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
  stack_t ss; ss.ss_sp = sigStack; ss.ss_size = sizeof sigStack; ss.ss_flags = 0; sigaltstack(&ss, 0);
  int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP}; for (int s : sg) sigaction(s, &sa, 0);
  for (int r = 0; r < nRanks; r++) {
    memcpy(BASE + OFF_DATA + r * DATA, dataLo, dataSz());
    for (int t = 0; t < MAXT; t++) memcpy(BASE + OFF_TLS + (r * MAXT + t) * TLSZ, tlsLo, tlsSz);
    C->rk[r].nTeam = 1;
    coStart(r * MAXT, thunk, (void *)(u64)r);
  }
  str vio; vec<Dec> path; u64 nStates = 0, nTrans = 0, nTerm = 0, restarts = 0, maxDepth = 0; bool complete = true; bool stuck = false; str vioClass;
  auto report = [&](bool violated) {
    printf("{\"name\":\"%s\",\"states\":%llu,\"transitions\":%llu,\"terminal\":%llu,\"maxdepth\":%llu,\"observations\":%zu,\"restarts\":%llu,\"complete\":%s,\"seconds\":%.1f", g_name, (unsigned long long)nStates, (unsigned long long)nTrans, (unsigned long long)nTerm, (unsigned long long)maxDepth, obsSet->size(), (unsigned long long)restarts, complete ? "true" : "false", now() - t0);
    if (violated) { printf(",\"violation\":"); jsonStr(vio); printf(",\"decisions\":\""); for (auto &d : path) printf("%d.%d,", d.c, d.ch); printf("\""); }
    printf("}\n"); fflush(stdout); _exit(violated ? 1 : 0);
  };
  // ---- deterministic setup
  for (;;) {
    int c = -1; bool begin = true;
    for (int r = 0; r < nRanks && c < 0; r++) for (int t = 0; t < nThreads && c < 0; t++) { Co &k = C->co[r * MAXT + t]; if (k.st == RUN || (k.st == WAIT && k.pred(k.arg)) || k.st == CHOOSE) c = r * MAXT + t; }
    if (c < 0) { for (int r = 0; r < nRanks; r++) if (C->co[r * MAXT].st != BEGIN && C->co[r * MAXT].st != DONE) begin = false; if (begin) break; vio = "deadlock before the exploration starts"; report(true); }
    if (!step(Dec{(u8)c, 0})) { vio = "during setup: " + violation; report(true); }
  }
  for (int r = 0; r < nRanks; r++) if (C->co[r * MAXT].st == BEGIN) { C->co[r * MAXT].st = RUN; C->co[r * MAXT].op = OP_NONE; }
  curKey = Key{0, 0}; curUndo = 0; diff(); // shadow := memory
  exploring = true;
  // ---- replay
  const char *rp = optv("replay", 0);
  if (rp) {
    replaying = true; size_t n = 0;
    str txt; { FILE *f = fopen(rp, "r"); if (!f) { perror(rp); return 2; } char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) txt.append(b, k); fclose(f); }
    // the sharing information is needed first: decisions are recorded with the final set of shared addresses
    size_t p = txt.find('\n'); str sh = txt.substr(0, p), ds = txt.substr(p + 1);
    { char *q = &sh[0]; while (*q) { char *e; u64 a = strtoull(q, &e, 16); if (e == q) break; q = e + 1; u32 rd = strtoul(q, &e, 16); q = e + 1; u32 wr = strtoul(q, &e, 16); q = e; if (*q == ',') q++; (*shared_)[a] = Sh{rd, wr}; } }
    char *q = &ds[0];
    for (;;) {
      char *e; long c = strtol(q, &e, 10); if (e == q) break; q = e + 1; long ch = strtol(q, &e, 10); q = e; if (*q == ',') q++;
      auto en = enabled(); bool ok = false; for (auto &d : en) if (d.c == c && d.ch == ch) ok = true;
      if (!ok) { printf("replay diverged at step %zu\n", n); fflush(stdout); return 4; }
      describe(Dec{(u8)c, (u8)ch});
      if (!step(Dec{(u8)c, (u8)ch})) { printf("violation: %s\n", violation.c_str()); fflush(stdout); _exit(1); }
      diff(); n++;
    }
    if (allDone() && g_final) { jmpArmed = true; if (setjmp(failJmp)) { printf("violation: %s\n", violation.c_str()); fflush(stdout); _exit(1); } memcpy(dataLo, BASE + OFF_DATA, dataSz()); g_final(); jmpArmed = false; }
    auto en = enabled(); int rest = 0;
    if (!allDone() && en.empty()) { printf("violation: deadlock: no thread can continue\n"); rest = 1; }
    else if (!allDone()) { // continue round robin: a livelock never terminates
      u64 k = 0; int last = 0; double tt = now();
      while (!allDone()) { auto en = enabled(); if (en.empty()) break; Dec d = en[k++ % en.size()]; (void)last; if (k < 400) describe(d); if (!step(d)) { printf("violation: %s\n", violation.c_str()); fflush(stdout); _exit(1); } diff(); if (k > 300000 || now() - tt > 15) { printf("violation: no termination within %llu fair steps\n", (unsigned long long)k); rest = 1; break; } }
      if (!allDone() && !rest) { printf("violation: deadlock: no thread can continue\n"); rest = 1; }
    }
    fflush(stdout); _exit(rest);
  }
  // ---- exhaustive search
  struct Frame { u32 id; vec<Undo> u; vec<Dec> en; u32 next; int last; u32 pb; Key k; };
  vec<Frame> stack; size_t depth = 0;
  umap<Key, u32, KeyH> seen; vec<u32> parent; vec<u8> best; long dbg = atol(optv("dbg", "0"));
  int pbMax = atoi(optv("pb", "-1")); bool pbOn = pbMax >= 0;
  // bounded search: the running thread is part of the node; leaving it costs one preemption unless it waits, spins or is done
  auto nodeKey = [&](int last) { Key k = curKey; if (pbOn) { k.a ^= (u64)(last + 2) * 0x9e3779b97f4a7c15ull; k.b ^= (u64)(last + 2) * 0xc2b2ae3d27d4eb4full; } return k; };
  auto cost = [&](int last, Dec d) -> u32 { if (!pbOn) return 0; Co &n = C->co[d.c]; u32 r = n.st == CHOOSE && d.ch > 0 && !n.addr && (!n.pred || n.pred(n.arg)) ? 1 : 0; // deferring a possible completion
    if (last < 0 || d.c == last) return r; Co &k = C->co[last]; return r + (k.st == RUN || k.st == CHOOSE ? 1 : 0); };
  auto enabledB = [&](Frame &f) { f.en = enabled(); if (!pbOn || f.en.empty()) return; vec<Dec> e; for (auto &d : f.en) if (f.pb + cost(f.last, d) <= (u32)pbMax) e.push_back(d); f.en = e; };
  vec<Dec> pdec; vec<std::pair<u32, u32>> edges; vec<u32> terms;
  auto pathTo = [&](u32 id) { path.clear(); while (id) { path.push_back(pdec[id]); id = parent[id]; } std::reverse(path.begin(), path.end()); };
  auto dump = [&](const char *f) { (void)f; };
restart:
  seen.clear(); parent.clear(); best.clear(); pdec.clear(); edges.clear(); terms.clear(); nTrans = nTerm = 0; obsSet->clear(); maxDepth = 0;
  seen.reserve(1 << 16);
  seen[nodeKey(-1)] = 0; best.push_back(0); parent.push_back(0); pdec.push_back(Dec{0, 0});
  depth = 0; if (stack.empty()) stack.resize(1);
  stack[0].id = 0; stack[0].last = -1; stack[0].pb = 0; stack[0].k = nodeKey(-1); stack[0].en = enabled(); stack[0].next = 0; stack[0].u.clear();
  depth = 1; grew = false;
  auto writeShared = [&]() { const char *o = optv("out", 0); if (!o) return; FILE *f = fopen(o, "w"); if (!f) return; for (auto &s : *shared_) fprintf(f, "%llx %x %x,", (unsigned long long)s.first, s.second.rd, s.second.wr); fprintf(f, "\n"); for (auto &d : path) fprintf(f, "%d.%d,", d.c, d.ch); fprintf(f, "\n"); fclose(f); };
  u64 tick = 0;
  while (depth) {
    Frame &f = stack[depth - 1];
    if (f.next >= f.en.size()) { curUndo = 0; undo(f.u); depth--; continue; }
    if (++tick % 1024 == 0 && (now() - t0 > budget || seen.size() > maxStates)) { complete = false; break; }
    Dec d = f.en[f.next++];
    if (stack.size() <= depth) stack.resize(depth + 64);
    Frame &n = stack[depth]; Frame &pf = stack[depth - 1];
    n.u.clear(); curUndo = &n.u; n.pb = pf.pb + cost(pf.last, d); n.last = d.c;
    bool ok = step(d); nTrans++;
    if (!ok) { pathTo(pf.id); path.push_back(d); vio = violation; nStates = seen.size(); writeShared(); report(true); }
    if (grew) { // more sharing than known: start over
      diff(); restarts++; undo(n.u); while (depth) { undo(stack[depth - 1].u); depth--; }
      goto restart;
    }
    diff();
    auto ins = seen.emplace(nodeKey(n.last), (u32)parent.size());
    edges.emplace_back(pf.id, ins.first->second);
    if (pbOn && !ins.second) { // the thread alone runs in circles: leaving it is free
      bool cyc = false; for (size_t i = depth; i-- > 0 && !cyc && stack[i].last == n.last;) if (stack[i].k == nodeKey(n.last)) cyc = true;
      if (cyc) {
        u32 from = ins.first->second; n.last = -1; ins = seen.emplace(nodeKey(-1), (u32)parent.size());
        edges.emplace_back(from, ins.first->second); if (ins.second) edges.emplace_back(ins.first->second, from);
      }
    }
    n.k = nodeKey(n.last);
    if (!ins.second && !(pbOn && n.pb < best[ins.first->second])) { undo(n.u); continue; }
    if (ins.second) { parent.push_back(pf.id); pdec.push_back(d); best.push_back(n.pb); }
    else best[ins.first->second] = n.pb;
    n.id = ins.first->second; n.next = 0; n.en.clear();
    if (dbg && ins.second) { // distinct contents per memory area
      static umap<u64, uset<u64>> *ar; if (!ar) ar = new (__libc_malloc(sizeof *ar)) umap<u64, uset<u64>>();
      static umap<u64, uset<u64>> &A = *ar; auto add = [&](u64 nm, size_t lo, size_t hi) { A[nm].insert(hash64(BASE + lo, (hi - lo) & ~7ull, nm)); };
      add(1, 0, (char *)C->shared - (char *)C); add(2, (char *)C->shared - (char *)C, (char *)C->shared - (char *)C + C->sharedTop);
      for (int r = 0; r < nRanks; r++) { add(10 + r, OFF_DATA + r * DATA, OFF_DATA + r * DATA + dataSz()); for (int t = 0; t < nThreads; t++) { int c = r * MAXT + t; add(100 + c, stkLow[c] - (u64)BASE, OFF_STK + (c + 1) * STACK); add(200 + c, OFF_HEAP + c * HEAP, C->heapTop[c] - (u64)BASE); add(300 + c, OFF_TLS + c * TLSZ, OFF_TLS + c * TLSZ + tlsSz); } }
      static umap<u64, uset<u64>> *wd; if (!wd) wd = new (__libc_malloc(sizeof *wd)) umap<u64, uset<u64>>();
      for (auto &x : n.u) (*wd)[x.off].insert(*(u64 *)(shadow + (size_t)x.off * 8));
      if (parent.size() == (size_t)dbg) { for (auto &a : A) fprintf(stderr, "area %llu: %zu\n", (unsigned long long)a.first, a.second.size());
        vec<std::pair<size_t, u64>> v; for (auto &w : *wd) v.push_back({w.second.size(), w.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < 25 && i < v.size(); i++) fprintf(stderr, "word %#llx: %zu values\n", (unsigned long long)v[i].second * 8, v[i].first); }
    }
    if (allDone()) {
      if (ins.second) { nTerm++; terms.push_back(n.id); }
      if (g_final) { jmpArmed = true; if (setjmp(failJmp)) { pathTo(ins.first->second); vio = violation; nStates = seen.size(); writeShared(); report(true); } memcpy(dataLo, BASE + OFF_DATA, dataSz()); g_rankLoaded = -1; g_final(); jmpArmed = false; }
      undo(n.u); continue;
    }
    enabledB(n);
    if (n.en.empty()) { pathTo(n.id); vio = "deadlock: no thread can continue"; nStates = seen.size(); writeShared(); report(true); }
    depth++; if (depth > maxDepth) maxDepth = depth;
  }
  nStates = seen.size();
  if (complete) { // every state must be able to reach termination
    size_t N = parent.size(); vec<u32> head(N + 1, 0), to(edges.size());
    for (auto &e : edges) head[e.second + 1]++;
    for (size_t i = 0; i < N; i++) head[i + 1] += head[i];
    vec<u32> pos(head.begin(), head.end());
    for (auto &e : edges) to[pos[e.second]++] = e.first;
    vec<u8> mark(N, 0); vec<u32> q(terms.begin(), terms.end()); for (u32 t : q) mark[t] = 1;
    while (q.size()) { u32 s = q.back(); q.pop_back(); for (u32 i = head[s]; i < head[s + 1]; i++) if (!mark[to[i]]) { mark[to[i]] = 1; q.push_back(to[i]); } }
    // a preemption bound might cut the way to the end: a livelock is one only if a fair schedule without bound doesn't end either
    size_t nTried = 0;
    auto fairEnds = [&]() -> bool {
      fflush(stdout); pid_t pid = fork();
      if (pid == 0) {
        for (auto &d : path) { if (!step(d)) _exit(1); diff(); }
        u64 k = 0; double tt = now();
        while (!allDone()) { auto en = enabled(); if (en.empty()) _exit(1); if (!step(en[k++ % en.size()])) _exit(1); diff(); if (k > 300000 || now() - tt > 15) _exit(1); }
        _exit(0);
      }
      int st = 0; if (pid < 0 || waitpid(pid, &st, 0) < 0) return false;
      return WIFEXITED(st) && WEXITSTATUS(st) == 0;
    };
    for (size_t i = 0; i < N; i++) if (!mark[i]) { pathTo(i); if (pbOn && fairEnds()) { complete = false; if (++nTried > 40) break; continue; } vio = "livelock: from this state no schedule reaches the end of the simulation"; writeShared(); report(true); }
  }
  (void)stuck; (void)dump;
  report(false);
  return 0;
}
