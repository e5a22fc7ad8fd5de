// Scenario and data-flow oracle of the local time stepping harness.
#pragma once
#include <cstddef>
#include <cstdint>
#include "eng/eng.h"
namespace lts {
enum { MAXE = 8, FREE = 0, OUT = 1 };
struct Scen {
  int n;                      // elements of the strip
  int tg[MAXE], rank[MAXE], src[MAXE], rec[MAXE], bnd[MAXE];   // bnd: boundary type of face 2 (and of the ends)
  int nTgs, nRanks, nThreads, sep;
  double end, wf, syncMax, freq;
  int bufSize;
};
extern Scen S;                // constant after parsing
struct Part {                 // local numbering of a rank
  int nEl, gid[MAXE], loc[MAXE]; size_t nIn[4], nSe[4];
  int nCo, coEl[16], coFa[16], coRecvEl[16], coRecvFa[16]; int nCh; size_t cs[1 + 4 * 16];
};
extern Part P[3];
void parse();
int other(int gid, int fa);                    // gid of the face neighbour or -1
inline int otherFa(int fa) { return fa == 0 ? 1 : 0; }
inline unsigned short code(int gid, int fa) { return 10 * gid + fa + 1; }
int need(int gid);                             // bits of a complete step
// ---- payload, nQ=5
void init(double *q, int gid);
void predict(double t, double gid, double dt, double *o);              // integrals over [t, t+dt]
void checkInt(const double *o, int gid, double t0, double t1, const char *what);
void ck(const double *dofs, double dt);
void vol(double *dofs, const double *td);
void loc(double *dofs, const double *td);
void source(double *dofs, double t0, double t1);
void neigh(double *dofs, int fa, int vId, int fId, const double *td, const double *tdCode);
void atSync(const double *dofs, double t);
// ---- files
struct File { char path[60]; int len; char data[3000]; };
extern File F[8];
File *file(const char *path, bool create);
void checkFiles();
}
