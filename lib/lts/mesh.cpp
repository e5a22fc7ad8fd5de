#include "edge_v/edge_v.h"
#include <cmath>
#include <limits>
using namespace lts;
edge_v::mesh::Mesh::Mesh(io::Gmsh &, int) {
  r = eng_rank(); Part &p = P[r]; nE = p.nEl; nV = S.n + 2; std::size_t none = std::numeric_limits<std::size_t>::max();
  for (std::size_t k = 0; k < nV; k++) { crd.push_back(0.5 * k); crd.push_back(k % 2); crd.push_back(0); sv.push_back(0); }
  ef.resize(3 * nE); efe.assign(3 * nE, none); nF = 0;
  auto inner = [&](int g) { return g >= 0 && g < S.n && S.rank[g] == r; };
  auto add = [&](int a, int b, int e0, int e1, int sp) { fv.push_back(a); fv.push_back(b); fe.push_back(e0); fe.push_back(e1 < 0 ? none : e1); sf.push_back(sp);
    double x = crd[3 * b] - crd[3 * a], y = crd[3 * b + 1] - crd[3 * a + 1], l = std::sqrt(x * x + y * y); nor.push_back(y / l); nor.push_back(-x / l); nor.push_back(0); for (int i = 0; i < 2; i++) { tan.push_back(x / l); tan.push_back(y / l); tan.push_back(0); } area.push_back(l); return nF++; };
  #ifdef LTS_ADV
  int B[2] = {105, 105}; double D = 12.5;
#else
  int B[2] = {101, 105}; double D = 12;
#endif
  // face k: vertices k, k+1 between elements k-1 and k
  for (int k = 0; k <= S.n; k++) { int a = k - 1, b = k; if (!inner(a) && !inner(b)) continue; int la = inner(a) ? p.loc[a] : -1, lb = inner(b) ? p.loc[b] : -1;
    int sp = k == 0 ? B[S.bnd[0]] : k == S.n ? B[S.bnd[S.n - 1]] : 0; std::size_t f = add(k, k + 1, la >= 0 ? la : lb, la >= 0 ? lb : -1, sp);
    if (la >= 0) ef[3 * la + 1] = f; if (lb >= 0) ef[3 * lb + 0] = f; if (la >= 0 && lb >= 0) { efe[3 * la + 1] = lb; efe[3 * lb] = la; } }
  for (int l = 0; l < (int)nE; l++) { int g = p.gid[l]; ef[3 * l + 2] = add(g, g + 2, l, -1, B[S.bnd[g]]); { ev.push_back(g); ev.push_back(g % 2 ? g + 1 : g + 2); ev.push_back(g % 2 ? g + 2 : g + 1); } vol.push_back(0.5); dia.push_back(D); se.push_back(0); }
}
