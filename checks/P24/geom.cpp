// location of points in elements, exact on integer lattices (coordinates are multiples of 1/2, all predicates are exact in doubles)
#include <limits>
#include <algorithm>
#include <vector>
#include <array>
#include <cmath>
#include <cstring>
#include "vh.hpp"
#include "constants.hpp"
#include "linalg/Geom.hpp"
#include "linalg/Mappings.hpp"
#include "linalg/HalfSpace.hpp"
#include "linalg/Domain.hpp"
#include "data/SparseEntities.hpp"
typedef std::array<double,3> P;
typedef edge::linalg::Geom G; typedef edge::linalg::Mappings M;
static P sub(P a, P const &b) { for(int d=0;d<3;d++) a[d]-=b[d]; return a; }
static double dot(P const &a, P const &b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static P cross(P const &a, P const &b) { return P{{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}}; }
static double dist(P const &a, P const &b) { P c=sub(a,b); return std::sqrt(dot(c,c)); }
static double segDist(P const &a, P const &b, P const &q) { P u=sub(b,a), w=sub(q,a); double t=dot(u,w)/dot(u,u); t=std::min(1.,std::max(0.,t)); P r; for(int d=0;d<3;d++) r[d]=a[d]+t*u[d]; return dist(r,q); }
static double triDist(P const &a, P const &b, P const &c, P const &q) {
  double m=std::min(segDist(a,b,q),std::min(segDist(b,c,q),segDist(c,a,q)));
  P n=cross(sub(b,a),sub(c,a)); double h=dot(n,sub(q,a))/dot(n,n); P r; for(int d=0;d<3;d++) r[d]=q[d]-h*n[d];
  if(dot(cross(sub(b,a),sub(r,a)),n)>=-1e-12 && dot(cross(sub(c,b),sub(r,b)),n)>=-1e-12 && dot(cross(sub(a,c),sub(r,c)),n)>=-1e-12) m=std::min(m,dist(r,q));
  return m;
}
struct El { t_entityType t; int nv, dim; P v[8];
  void soa(double *o) const { for(int d=0;d<3;d++) for(int k=0;k<nv;k++) o[d*nv+k]=v[k][d]; }
  //! reference coordinates (exact rationals evaluated in doubles)
  P ref(P const &q) const {
    P r{{0,0,0}}, w=sub(q,v[0]);
    if(t==LINE) r[0]=w[0]/(v[1][0]-v[0][0]);
    else if(t==QUAD4R) { r[0]=w[0]/(v[1][0]-v[0][0]); r[1]=w[1]/(v[3][1]-v[0][1]); }
    else if(t==HEX8R) { r[0]=w[0]/(v[1][0]-v[0][0]); r[1]=w[1]/(v[3][1]-v[0][1]); r[2]=w[2]/(v[4][2]-v[0][2]); }
    else if(t==TRIA3) { P a=sub(v[1],v[0]), b=sub(v[2],v[0]); double D=a[0]*b[1]-a[1]*b[0]; r[0]=(w[0]*b[1]-w[1]*b[0])/D; r[1]=(a[0]*w[1]-a[1]*w[0])/D; }
    else { P a=sub(v[1],v[0]), b=sub(v[2],v[0]), c=sub(v[3],v[0]); double D=dot(a,cross(b,c)); r[0]=dot(w,cross(b,c))/D; r[1]=dot(a,cross(w,c))/D; r[2]=dot(a,cross(b,w))/D; }
    return r;
  }
  //! 0: outside, 1: inside, 2: boundary
  int where(P const &q) const {
    P r=ref(q); double mn=1e300;
    if(t==TRIA3) mn=std::min({r[0],r[1],1-r[0]-r[1]}); else if(t==TET4) mn=std::min({r[0],r[1],r[2],1-r[0]-r[1]-r[2]});
    else for(int d=0;d<dim;d++) mn=std::min({mn,r[d],1-r[d]});
    return mn>1e-12 ? 1 : mn<-1e-12 ? 0 : 2;
  }
  double distance(P const &q) const {
    if(where(q)) return 0;
    if(t==TET4) return std::min(std::min(triDist(v[0],v[1],v[2],q),triDist(v[0],v[1],v[3],q)),std::min(triDist(v[0],v[2],v[3],q),triDist(v[1],v[2],v[3],q)));
    if(t==TRIA3) return std::min(segDist(v[0],v[1],q),std::min(segDist(v[1],v[2],q),segDist(v[2],v[0],q)));
    double s=0; for(int d=0;d<dim;d++) { double lo=1e300,hi=-1e300; for(int k=0;k<nv;k++) { lo=std::min(lo,v[k][d]); hi=std::max(hi,v[k][d]); } double x=std::max(0.,std::max(lo-q[d],q[d]-hi)); s+=x*x; }
    return std::sqrt(s);
  }
};
static El box(t_entityType t, P o, P s) {
  static int const h[8][3]={{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
  El e; e.t=t; e.dim=t==LINE?1:t==QUAD4R?2:3; e.nv=1<<e.dim; for(int k=0;k<8;k++) for(int d=0;d<3;d++) e.v[k][d]=k<e.nv && d<e.dim ? o[d]+s[d]*h[k][d] : 0;
  return e;
}
static void id() { vh::observe(vh::caseText().data(), vh::caseText().size()); }
//! all checks of a single point against a single element
static void point(El const &e, P const &q) {
  double s[24]; e.soa(s);
  int w=e.where(q), r=G::inside(e.t, s, q.data());
  VH_REQUIRE(r==w, "inside", "point (%g,%g,%g): inside returned %d instead of %d", q[0],q[1],q[2], r, w);
  P c=q; G::closestPoint(e.t, s, c.data());
  for(int d=e.dim;d<3;d++) VH_REQUIRE(c[d]==q[d], "closest-dim", "unused coordinate changed");
  double D=e.distance(q);
  if(w) VH_REQUIRE(dist(c,q)<=1e-12, "closest-inside", "point (%g,%g,%g) in the element moved to (%g,%g,%g)", q[0],q[1],q[2],c[0],c[1],c[2]);
  else {
    VH_REQUIRE(std::abs(dist(c,q)-D)<=1e-9*(1+D), "closest", "point (%g,%g,%g) projected to (%g,%g,%g) in distance %.12g instead of %.12g", q[0],q[1],q[2],c[0],c[1],c[2],dist(c,q),D);
    VH_REQUIRE(e.distance(c)<=1e-9, "closest-out", "projected point (%g,%g,%g) isn't in the element", c[0],c[1],c[2]);
  }
  P xi=e.ref(q);
  if(e.t!=LINE) {
    P x{{7,7,7}}; M::phyToRef(e.t, s, q.data(), x.data());
    for(int d=0;d<e.dim;d++) VH_REQUIRE(std::abs(x[d]-xi[d])<=1e-11*(1+std::abs(xi[d])), "phyToRef", "point (%g,%g,%g): reference coordinate %d is %.12g instead of %.12g", q[0],q[1],q[2],d,x[d],xi[d]);
    for(int d=e.dim;d<3;d++) VH_REQUIRE(x[d]==7, "phyToRef-dim", "unused coordinate changed");
  }
  P y{{7,7,7}}; M::refToPhy(e.t, s, xi.data(), y.data());
  for(int d=0;d<e.dim;d++) VH_REQUIRE(std::abs(y[d]-q[d])<=1e-11*(1+std::abs(q[d])), "refToPhy", "reference point (%g,%g,%g): coordinate %d is %.12g instead of %.12g", xi[0],xi[1],xi[2],d,y[d],q[d]);
  for(int d=e.dim;d<3;d++) VH_REQUIRE(y[d]==7, "refToPhy-dim", "unused coordinate changed");
}
static void jac(El const &e) {
  double s[24], J[9]; e.soa(s); M::evalJac(e.t, s, J);
  int const b[3]={1, e.t==QUAD4R||e.t==HEX8R?3:2, e.t==HEX8R?4:3};
  for(int i=0;i<e.dim;i++) for(int d=0;d<e.dim;d++) VH_REQUIRE(std::abs(J[i*e.dim+d]-(e.v[b[i]][d]-e.v[0][d]))<1e-12, "jacobian", "derivative of coordinate %d w.r.t. reference coordinate %d", d, i);
}
static P lat(int i, int n, double o, double h, int dim) { P p{{0,0,0}}; for(int d=0;d<dim;d++) { p[d]=o+h*(i%n); i/=n; } return p; }
static void single() {
  int k=vh::choose(5); static double const sc[]={1,64,0.5}, off[]={0,-3,40};
  double S=vh::pick(sc), O=vh::pick(off); El e; int n; double h=.5, lo=-1; uint64_t pts=0;
  if(k==0) { // tetrahedra with vertices on {0,1,2}^3
    int a=vh::choose(27), b=vh::choose(27), c=vh::choose(27);
    int v0=vh::thorough() ? vh::choose(27) : (a*5+b*3+c)%27;
    if(S!=1 && (a+b+c)%5) vh::skip();
    e.t=TET4; e.nv=4; e.dim=3; e.v[0]=lat(v0,3,0,1,3); e.v[1]=lat(a,3,0,1,3); e.v[2]=lat(b,3,0,1,3); e.v[3]=lat(c,3,0,1,3);
    P A=sub(e.v[1],e.v[0]),B=sub(e.v[2],e.v[0]),C=sub(e.v[3],e.v[0]); if(dot(A,cross(B,C))<=0) vh::skip();
    n=9; if(!vh::thorough()) { n=5; h=1; lo=-1; }
  }
  else if(k==1) { int a=vh::choose(16), b=vh::choose(16), c=vh::choose(16); e.t=TRIA3; e.nv=3; e.dim=2; e.v[0]=lat(a,4,0,1,2); e.v[1]=lat(b,4,0,1,2); e.v[2]=lat(c,4,0,1,2);
    if(cross(sub(e.v[1],e.v[0]),sub(e.v[2],e.v[0]))[2]<=0) vh::skip(); n=11; }
  else { t_entityType t=k==2?LINE:k==3?QUAD4R:HEX8R; P s{{1,1,1}},o{{0,0,0}}; int dim=k-1; for(int d=0;d<dim;d++) { s[d]=1+vh::choose(3); o[d]=vh::choose(2); } e=box(t,o,s); n=11; }
  for(int i=0;i<e.nv;i++) for(int d=0;d<e.dim;d++) e.v[i][d]=e.v[i][d]*S+O;
  vh::note("element type %d scale %g offset %g:", int(e.t), S, O); for(int i=0;i<e.nv;i++) vh::note(" (%g,%g,%g)", e.v[i][0],e.v[i][1],e.v[i][2]);
  if(k<2) vh::nontrivial();
  id();
  jac(e);
  int N=1; for(int d=0;d<e.dim;d++) N*=n;
  for(int i=0;i<N;i++) { P q=lat(i,n,lo,h,e.dim); for(int d=0;d<e.dim;d++) q[d]=q[d]*S+O; point(e,q); pts++; }
  // points on and close to the element: barycentric combinations
  for(int i=0;i<81;i++) { int j=i; double w[8]={}, t=0; P q{{0,0,0}}; for(int v=0;v<std::min(4,e.nv);v++) { w[v]=j%3; j/=3; t+=w[v]; } if(t!=1 && t!=2 && t!=4) continue; for(int v=0;v<e.nv && v<4;v++) for(int d=0;d<e.dim;d++) q[d]+=w[v]/t*e.v[v][d]; point(e,q); pts++; }
  vh::count("points", pts);
}
//! face coordinates of both elements of a face
static void faces() {
  int k=vh::choose(5); t_entityType t=k==0?TET4:k==1?TRIA3:k==2?QUAD4R:k==3?HEX8R:LINE; int dim=C_ENT[t].N_DIM, nf=C_ENT[t].N_FACES, nfv=C_ENT[t].N_FACE_VERTICES;
  static int const li[2][4]={{0},{1}}, qu[4][4]={{0,1},{1,2},{2,3},{3,0}}, tr[3][4]={{0,1},{1,2},{2,0}}, te[4][4]={{0,2,1},{0,1,3},{0,3,2},{1,2,3}}, he[6][4]={{0,3,2,1},{0,1,5,4},{1,2,6,5},{3,7,6,2},{0,4,7,3},{4,5,6,7}};
  auto fv=[&](int f,int v){ return t==LINE?li[f][v]:t==QUAD4R?qu[f][v]:t==TRIA3?tr[f][v]:t==TET4?te[f][v]:he[f][v]; };
  El e=box(t==TET4?HEX8R:t==TRIA3?QUAD4R:t, P{{0,0,0}}, P{{1,1,1}}); if(t==TET4||t==TRIA3) { e.t=t; e.nv=dim+1; e.v[1]=P{{1,0,0}}; e.v[2]=P{{0,1,0}}; e.v[3]=P{{0,0,1}}; }
  int f=vh::choose(nf), g=vh::choose(nf), o=t==TET4?vh::choose(3):0, p=vh::choose(36); double c[2]={p%6/5.,p/6/5.};
  if(t==TET4 && c[0]+c[1]>1) vh::skip();
  vh::note("type %d face %d/%d orientation %d point %g %g", int(t), f, g, o, c[0], c[1]); vh::nontrivial(); id();
  auto aff=[&](int F,double const *x){ P a=e.v[fv(F,0)], r=a; for(int d=0;d<3;d++) { if(nfv>1) r[d]+=x[0]*(e.v[fv(F,1)][d]-a[d]); if(nfv>2) r[d]+=x[1]*(e.v[fv(F,nfv-1)][d]-a[d]); } return r; };
  auto cmp=[&](char const *key,int F,double const *x,P const &want){ P r{{7,7,7}}; M::faToVolRef(F,t,x,r.data()); for(int d=0;d<dim;d++) VH_REQUIRE(std::abs(r[d]-want[d])<1e-14,key,"face %d coordinate %d is %.12g instead of %.12g",F,d,r[d],want[d]); };
  cmp("faToVol",f,c,aff(f,c));
  if(t==LINE) return;
  // shared face: vertex j of f is vertex (o-j) of g
  double n[2]={7,7}; M::faLocToFaNei(t,c,n,o);
  // barycentric weights w.r.t. f's vertices
  P want=e.v[fv(g,0)];
  if(t==TET4) { double w[3]={1-c[0]-c[1],c[0],c[1]}; want=P{{0,0,0}}; for(int j=0;j<3;j++) for(int d=0;d<3;d++) want[d]+=w[j]*e.v[fv(g,(o-j+3)%3)][d]; }
  else if(t==HEX8R) { double x=c[0],y=c[1],w[4]={(1-x)*(1-y),x*(1-y),x*y,(1-x)*y}; want=P{{0,0,0}}; for(int j=0;j<4;j++) for(int d=0;d<3;d++) want[d]+=w[j]*e.v[fv(g,(4-j)%4)][d]; }
  else { want=P{{0,0,0}}; for(int d=0;d<3;d++) want[d]=(1-c[0])*e.v[fv(g,1)][d]+c[0]*e.v[fv(g,0)][d]; }
  cmp("faToFa",g,n,want);
}
struct Ve { double coords[3]; };
//! assignment of points to the elements of a mesh
static void mesh() {
  int k=vh::choose(6); std::vector<Ve> ve; std::vector<El> el; std::vector<int_el> enVe; t_entityType t;
  auto add=[&](El const &e){ t=e.t; for(int i=0;i<e.nv;i++) { size_t j=0; for(;j<ve.size();j++) if(ve[j].coords[0]==e.v[i][0]&&ve[j].coords[1]==e.v[i][1]&&ve[j].coords[2]==e.v[i][2]) break; if(j==ve.size()) { Ve x; for(int d=0;d<3;d++) x.coords[d]=e.v[i][d]; ve.push_back(x); } enVe.push_back(j); } el.push_back(e); };
  auto simplex=[&](t_entityType tt,std::vector<P> v){ El e; e.t=tt; e.nv=v.size(); e.dim=e.nv-1; for(int i=0;i<e.nv;i++) e.v[i]=v[i]; double D=e.dim==3?dot(sub(v[1],v[0]),cross(sub(v[2],v[0]),sub(v[3],v[0]))):cross(sub(v[1],v[0]),sub(v[2],v[0]))[2]; if(D<0) std::swap(e.v[1],e.v[2]); add(e); };
  if(k<2) for(int b=0;b<1+k;b++) { int p[3]={0,1,2}; do { P x{{2.*b,0,0}}; std::vector<P> v{x}; for(int i=0;i<3;i++) { x[p[i]]+=2; v.push_back(x); } simplex(TET4,v); } while(std::next_permutation(p,p+3)); }
  else if(k==2) for(int i=0;i<2;i++) for(int j=0;j<2;j++) { double x=2*i,y=2*j; simplex(TRIA3,{P{{x,y,0}},P{{x+2,y,0}},P{{x+2,y+2,0}}}); simplex(TRIA3,{P{{x,y,0}},P{{x+2,y+2,0}},P{{x,y+2,0}}}); }
  else if(k==3) for(int i=0;i<3;i++) for(int j=0;j<2;j++) add(box(QUAD4R,P{{1.*i,2.*j,0}},P{{1,2,0}}));
  else if(k==4) for(int i=0;i<2;i++) for(int j=0;j<2;j++) add(box(HEX8R,P{{2.*i,j*1.,0}},P{{2,1,3}}));
  else for(int i=0;i<5;i++) add(box(LINE,P{{i*i*.5,0,0}},P{{i+.5,0,0}}));
  int rot=vh::choose(el.size()); int perm=vh::choose(2);
  // reordered elements
  { std::vector<El> e2; std::vector<int_el> v2; int n=el.size(), nv=el[0].nv; for(int i=0;i<n;i++) { int j=(perm?n-1-i:i); j=(j+rot)%n; e2.push_back(el[j]); v2.insert(v2.end(),enVe.begin()+j*nv,enVe.begin()+(j+1)*nv); } el=e2; enVe=v2; }
  vh::note("mesh %d, %d elements, rotated by %d%s", k, int(el.size()), rot, perm?", reversed":""); vh::nontrivial(); id();
  int dim=el[0].dim, n=dim==3?(vh::thorough()?15:9):23; double h=dim==3?(vh::thorough()?.5:1):.25; std::vector<P> q; int N=1; for(int d=0;d<dim;d++) N*=n;
  for(int i=0;i<N;i++) q.push_back(lat(i,n,dim==3?-2:-.75,h,dim));
  std::vector<int_el> de(q.size()+1, 77);
  int_el own=edge::data::SparseEntities::ptToEn(t, int_el(q.size()), (double const (*)[3]) q[0].data(), int_el(el.size()), enVe.data(), ve.data(), de.data());
  VH_REQUIRE(own==int_el(q.size()), "own", "%d of %d points are owned in a run with a single partition", int(own), int(q.size()));
  VH_REQUIRE(de[q.size()]==77, "overrun", "wrote behind the points");
  for(size_t i=0;i<q.size();i++) {
    VH_REQUIRE(de[i]<int_el(el.size()), "unassigned", "point (%g,%g,%g) is not assigned", q[i][0],q[i][1],q[i][2]);
    double m=1e300; for(auto &e: el) m=std::min(m,e.distance(q[i]));
    double x=el[de[i]].distance(q[i]);
    VH_REQUIRE(x<=m+1e-9, "nearest", "point (%g,%g,%g) is assigned to element %d in distance %g, the closest one has distance %g", q[i][0],q[i][1],q[i][2],int(de[i]),x,m);
    int c=0; for(auto &e: el) c+=e.where(q[i])==1; if(c==1) VH_REQUIRE(el[de[i]].where(q[i])==1, "host", "point (%g,%g,%g) isn't assigned to the element which contains it", q[i][0],q[i][1],q[i][2]);
  }
  vh::count("points", q.size());
}
template<int D> static void domain() {
  using namespace edge::linalg;
  int n=vh::choose(4); Domain<double,D,HalfSpace> dom; std::vector<std::array<P,2>> hs; vh::note("%d-dimensional domain:", D);
  for(int i=0;i<n;i++) { int c=1; for(int d=0;d<D;d++) c*=3; int a=vh::choose(c); if(a==c/2) vh::skip(); P nn{{0,0,0}},o{{0,0,0}}; int x=a; for(int d=0;d<D;d++) { nn[d]=x%3-1; x/=3; o[d]=(i*2+d+a)%4*.5-.5; }
    double N[3],O[3]; for(int d=0;d<3;d++) { N[d]=nn[d]*(1+i*3); O[d]=o[d]; } HalfSpace<double,D> h(O,N); if(i==0) { HalfSpace<double,D> cp(h); dom.add(cp); } else dom.add(h); hs.push_back({{o,nn}}); vh::note(" o(%g,%g,%g) n(%g,%g,%g)",o[0],o[1],o[2],nn[0],nn[1],nn[2]); }
  if(n>1) vh::nontrivial();
  id();
  int m=9,N=1; for(int d=0;d<D;d++) N*=m;
  for(int i=0;i<N;i++) { P q=lat(i,m,-2,.5,D); bool w=true; for(auto &h: hs) w=w && dot(h[1],sub(q,h[0]))>=0; float f[3]={float(q[0]),float(q[1]),float(q[2])};
    VH_REQUIRE(dom.inside(q.data())==w, "domain", "point (%g,%g,%g): inside the domain: %d instead of %d",q[0],q[1],q[2],!w,w); VH_REQUIRE(dom.inside(f)==w, "domain-float", "point (%g,%g,%g): inside the domain: %d instead of %d",q[0],q[1],q[2],!w,w); }
}
int main(int argc,char **argv) { return vh::run(argc,argv,"geometry",[]{ int k=vh::choose(6); if(k==0) single(); else if(k==1) faces(); else if(k==2) mesh(); else if(k==3) domain<1>(); else if(k==4) domain<2>(); else domain<3>(); }); }
