#include "lts.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
namespace vhlog { void onFatal(char const *m) { eng_fail("the program aborts: %s", m); } }
namespace lts {
#ifdef LTS_ADV
static bool const adv = true;    // advection: every face is updated, with the element's own data at boundaries; remote data is not marked
#else
static bool const adv = false;
#endif
Scen S; Part P[3]; File F[8];
static void ints(const char *s, int *o, int n, int d) { for (int i = 0; i < n; i++) { if (*s) { o[i] = strtol(s, (char **)&s, 10); if (*s == ',') s++; } else o[i] = d; } }
int other(int g, int fa) { int o = fa == 0 ? g - 1 : fa == 1 ? g + 1 : -1; return o < 0 || o >= S.n ? -1 : o; }
void parse() {
  const char *t = eng_opt("tgs", "0,1"); S.n = 1; for (const char *c = t; *c; c++) S.n += *c == ',';
  ints(t, S.tg, S.n, 0); ints(eng_opt("ranks", ""), S.rank, S.n, 0); ints(eng_opt("src", ""), S.src, S.n, 0); ints(eng_opt("rec", ""), S.rec, S.n, 0); ints(eng_opt("bnd", ""), S.bnd, S.n, 0);
  S.nTgs = S.nRanks = 1; for (int i = 0; i < S.n; i++) { if (S.tg[i] >= S.nTgs) S.nTgs = S.tg[i] + 1; if (S.rank[i] >= S.nRanks) S.nRanks = S.rank[i] + 1; }
  S.nThreads = atoi(eng_opt("threads", "2")); S.sep = atoi(eng_opt("sep", "0"));
  S.end = atof(eng_opt("end", "2")); S.wf = atof(eng_opt("wf", "1000")); S.syncMax = atof(eng_opt("sync", "1000")); S.freq = atof(eng_opt("freq", "1")); S.bufSize = atoi(eng_opt("buf", "52"));
  static int se[MAXE]; ints(eng_opt("se", ""), se, S.n, 0);   // elements treated as send elements without being at a partition boundary
  auto send = [](int g) { if (se[g]) return true; for (int f = 0; f < 2; f++) { int o = other(g, f); if (o >= 0 && S.rank[o] != S.rank[g]) return true; } return false; };
  bool rev = atoi(eng_opt("rev", "0"));
  for (int r = 0; r < S.nRanks; r++) {
    Part &p = P[r]; p.nEl = 0;
    for (int se = 0; se < 2; se++) for (int tg = 0; tg < S.nTgs; tg++) { size_t c = 0; for (int i = 0; i < S.n; i++) { int g = rev ? S.n - 1 - i : i; if (S.rank[g] == r && S.tg[g] == tg && send(g) == (bool)se) { p.gid[p.nEl] = g; p.loc[g] = p.nEl++; c++; } } (se ? p.nSe : p.nIn)[tg] = c; }
    // channels: (tg, remote rank, remote tg), pairs ordered identically on both sides (by the smaller gid of the face)
    p.nCo = p.nCh = 0;
    for (int tg = 0; tg < S.nTgs; tg++) for (int ra = 0; ra < S.nRanks; ra++) for (int ta = 0; ta < S.nTgs; ta++) {
      int c = 0;
      for (int g0 = 0; g0 + 1 < S.n; g0++) { int a = g0, b = g0 + 1; int me = S.rank[a] == r ? a : S.rank[b] == r ? b : -1; if (me < 0) continue; int ot = me == a ? b : a;
        if (S.rank[ot] != ra || ra == r || S.tg[me] != tg || S.tg[ot] != ta) continue;
        p.coEl[p.nCo] = p.loc[me]; p.coFa[p.nCo] = me == a ? 1 : 0; p.coRecvEl[p.nCo] = p.loc[me]; p.coRecvFa[p.nCo] = p.coFa[p.nCo]; p.nCo++; c++; }
      if (c) { size_t *x = p.cs + 1 + 4 * p.nCh++; x[0] = tg; x[1] = ra; x[2] = ta; x[3] = c; }
    }
    p.cs[0] = p.nCh;
  }
}
int need(int g) { int m = 1 | 2; for (int f = 0; f < 3; f++) if (adv || other(g, f) >= 0 || S.bnd[g] == FREE) m |= 4 << f; if (S.src[g]) m |= 32; return m; }
// q: 0 gid+1, 1 time, 2 done parts of the current step, 3 time step in progress, 4 completed steps
void init(double *q, int g) { q[0] = g + 1; q[1] = 0; q[2] = 0; q[3] = 0; q[4] = 0; }
void predict(double t, double id, double dt, double *o) { double e = t + dt; o[0] = id * dt; o[1] = (e * e - t * t) / 2; o[2] = dt; o[3] = (e * e * e - t * t * t) / 3; o[4] = id * id * dt; }
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }
static int id(const double *d) { int g = (int)d[0] - 1; if (!(d[0] >= 1 && d[0] <= S.n && d[0] == g + 1)) eng_fail("a kernel was called with the DOFs of no element (%g)", d[0]); return g; }
void checkInt(const double *o, int g, double t0, double t1, const char *what) {
  double e[5]; predict(t0, g + 1, t1 - t0, e);
  for (int i = 0; i < 5; i++) if (!near(o[i], e[i])) {
    double l = o[2]; eng_fail("%s: expected the time integral of element %d over [%g,%g], got integrals %g %g %g %g %g (element %g, length %g, mid point %g)", what, g, t0, t1, o[0], o[1], o[2], o[3], o[4], l ? o[0] / l - 1 : -1, l, l ? o[1] / l : 0); }
}
void ck(const double *d, double dt) {
  int g = id(d);
  if (d[2] != 0) eng_fail("element %d: time prediction at time %g before the previous step is complete (parts done %g of %d)", g, d[1], d[2], need(g));
  if (!(dt >= 0)) eng_fail("element %d: negative time step %g", g, dt);
  if (dt > (1 << S.tg[g]) + 1e-9) eng_fail("element %d: time step %g exceeds the stable step %d of its time group", g, dt, 1 << S.tg[g]);
  if (d[1] + dt > S.end + 1e-9) eng_fail("element %d: time step [%g,%g] goes beyond the end time", g, d[1], d[1] + dt);
}
static void part(double *d, int bit, const char *what) { int g = id(d), m = (int)d[2]; if (m & bit) eng_fail("element %d, time %g: %s applied twice in a time step", g, d[1], what); if (!(need(g) & bit)) eng_fail("element %d: unexpected %s", g, what); m |= bit; if (m == need(g)) { d[1] += d[3]; d[4]++; d[2] = 0; eng_event("element %d reaches time %g", g, d[1]); } else d[2] = m; }
void vol(double *d, const double *td) { int g = id(d); if ((int)d[2] != 0) eng_fail("element %d: volume update out of order", g); d[3] = td[2]; checkInt(td, g, d[1], d[1] + d[3], "volume integral"); part(d, 1, "volume update"); }
void loc(double *d, const double *td) { int g = id(d); if ((int)d[2] != 1) eng_fail("element %d: local surface update out of order", g); checkInt(td, g, d[1], d[1] + d[3], "local surface integral"); part(d, 2, "local surface update"); }
void source(double *d, double t0, double t1) { int g = id(d); if (((int)d[2] & 3) != 3) eng_fail("element %d: source applied before the local update of the step", g); if (!near(t0, d[1]) || !near(t1, d[1] + d[3])) eng_fail("element %d: source integrated over [%g,%g], the step is [%g,%g]", g, t0, t1, d[1], d[1] + d[3]); part(d, 32, "source term"); }
void neigh(double *d, int fa, int vId, int fId, const double *td, const double *tdCode) {
  int g = id(d); char w[60]; snprintf(w, sizeof w, "element %d, face %d", g, fa);
  if (((int)d[2] & 3) != 3) eng_fail("%s: neighboring update before the local update of the step", w);
  int o = other(g, fa);
  if (o >= 0) {
    if (vId != code(g, fa) || fId != otherFa(fa)) eng_fail("%s: wrong vertex or face id (%d,%d)", w, vId, fId);
    bool rem = S.rank[o] != S.rank[g];
    if (!adv && rem != (tdCode != 0)) eng_fail("%s: %s data used", w, rem ? "local" : "remote");
    checkInt(td, o, d[1], d[1] + d[3], w);
    if (tdCode) for (int q = 0; q < 5; q++) if (!near(tdCode[q], d[3] * (code(o, otherFa(fa)) * 10 + otherFa(fa)))) eng_fail("%s: received data integrated for a different face", w);
  } else {
    if (!adv && S.bnd[g] != FREE) eng_fail("%s: update at an outflow boundary", w);
    if (tdCode) eng_fail("%s: remote data at the free surface", w);
    if (vId != 65535 || fId != 65535) eng_fail("%s: neighbor ids at the free surface", w);
    checkInt(td, g, d[1], d[1] + d[3], w);
  }
  part(d, 4 << fa, "neighboring update of a face");
}
void atSync(const double *d, double t) { int g = id(d); if (d[2] != 0) eng_fail("element %d: incomplete time step at the synchronization point", g); if (!near(d[1], t)) eng_fail("element %d: time %g at the synchronization point %g", g, d[1], t); }
File *file(const char *p, bool create) {
  for (File &f : F) { if (f.path[0] && !strcmp(f.path, p)) return &f; if (!f.path[0]) { if (!create) return 0; snprintf(f.path, sizeof f.path, "%s", p); return &f; } }
  return 0;
}
void checkFiles() {
  for (int g = 0; g < S.n; g++) for (int k = 0; k < S.rec[g]; k++) {
    if (S.rank[g] != eng_rank()) continue;
    char p[60]; snprintf(p, sizeof p, "out/%d/r%d_%d.csv", S.rank[g], g, k);
    File *f = file(p, false); if (!f) eng_fail("receiver %s has no output file", p);
    f->data[f->len] = 0; const char *s = f->data; int n = 0; int hdr = 0;
    while (*s == '#') { s = strchr(s, '\n') + 1; hdr++; }
    if (strncmp(s, "time,", 5)) eng_fail("receiver %s: header missing", p);
    s = strchr(s, '\n') + 1;
    int exp = 0; while (exp * S.freq < S.end - 1e-9) exp++;
    for (; *s; n++) {
      double t, v[5]; int k = 0; if (sscanf(s, "%lf,%lf,%lf,%lf,%lf,%lf%n", &t, v, v + 1, v + 2, v + 3, v + 4, &k) != 6 || s[k] != '\n') eng_fail("receiver %s: malformed row %d", p, n);
      if (n >= exp || !near(t, n * S.freq)) eng_fail("receiver %s: row %d has time %g instead of %g (%d samples expected)", p, n, t, n * S.freq, exp);
      if (std::fabs(v[0] - (g + 1)) > 1e-4 || std::fabs(v[1] - t) > 1e-4) eng_fail("receiver %s: sample at time %g holds the solution of element %g at time %g", p, t, v[0] - 1, v[1]);
      s += k + 1;
    }
    if (n != exp) eng_fail("receiver %s: %d samples written, %d expected", p, n, exp);
  }
}
}
