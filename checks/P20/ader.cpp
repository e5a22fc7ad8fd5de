// The seismic ADER-DG solver vs. a quadrature-based reference of the ADER-DG scheme with exact (Godunov) fluxes.
#include "ref_dg.hpp"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include "data/Dynamic.h"
#include "parallel/global.h"
#include "io/Receivers.h"
#include "impl/seismic/setups/ViscoElasticity.h"
#include "impl/seismic/setups/Elasticity.h"
#include "impl/seismic/solvers/AderDg.hpp"
#include "vh.hpp"
using namespace ref;

constexpr int NQ = CE_N_QTS_E( DIM ), NQM = CE_N_QTS_M( DIM ), RMS = N_RELAXATION_MECHANISMS, CR = N_CRUNS, NE = NF+1, NT = NQ+RMS*NQM;
typedef edge::seismic::solvers::AderDg< real_base, RMS, EL, ORDER, ORDER, CR, MM_KERNELS_SPARSE > Solver;
typedef std::vector< double > Vec; // [NT][NM]
static double const FCEN = 0.2, FRAT = 50;

struct Mat { double rho, lam, mu; V src; }; // unrelaxed parameters, anelastic sources [RMS][NQM][NQM]
// stress id of a component pair
static int sid( int a, int b ) { if( a == b ) return a; if( DIM == 2 ) return 2; int s = a+b; return s == 1 ? 3 : s == 3 ? 4 : 5; }
static V omegas() {
  V w( RMS ); if( RMS > 0 ) { V f( 2*RMS+1 ); edge::seismic::setups::ViscoElasticity::frequencies( RMS, FCEN, FRAT, f.data() ); for( int r = 0; r < RMS; r++ ) w[r] = f[2*r]; }
  return w;
}
static V s_om;
// known finding: the predictor's reactive source has the wrong sign; 0: scheme, 1: recorded deviation
static double s_react = -1;
// time derivative of the system
static Vec rhs( Vec const & q, Geo const & g, Mat const & m ) {
  Vec o( NT*NM, 0 );
  V gr[9][3]; // physical derivatives of the elastic quantities
  for( int c = 0; c < NQ; c++ ) {
    V rd[3];
    for( int d = 0; d < DIM; d++ ) { rd[d].assign( NM, 0 ); for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) rd[d][i] += ops().grad[d][i*NM+j]*q[c*NM+j]; }
    for( int p = 0; p < DIM; p++ ) { gr[c][p].assign( NM, 0 ); for( int d = 0; d < DIM; d++ ) for( int i = 0; i < NM; i++ ) gr[c][p][i] += g.inv[d][p]*rd[d][i]; }
  }
  int u = DIM == 2 ? 3 : 6;
  for( int i = 0; i < NM; i++ ) {
    double eps[3][3];
    for( int a = 0; a < DIM; a++ ) for( int b = 0; b < DIM; b++ ) eps[a][b] = 0.5*(gr[u+a][b][i]+gr[u+b][a][i]);
    double tr = 0; for( int a = 0; a < DIM; a++ ) tr += eps[a][a];
    for( int a = 0; a < DIM; a++ ) for( int b = a; b < DIM; b++ ) o[sid(a,b)*NM+i] += 2*m.mu*eps[a][b] + (a == b ? m.lam*tr : 0);
    for( int a = 0; a < DIM; a++ ) { double s = 0; for( int b = 0; b < DIM; b++ ) s += gr[sid(a,b)][b][i]; o[(u+a)*NM+i] += s/m.rho; }
    for( int r = 0; r < RMS; r++ ) {
      for( int a = 0; a < NQM; a++ ) for( int b = 0; b < NQM; b++ ) o[a*NM+i] += m.src[(r*NQM+a)*NQM+b]*q[(NQ+r*NQM+b)*NM+i];
      for( int a = 0; a < DIM; a++ ) for( int b = a; b < DIM; b++ ) {
        int s = NQ+r*NQM+sid(a,b);
        o[s*NM+i] += s_om[r]*( eps[a][b] + s_react*q[s*NM+i] );
      }
    }
  }
  return o;
}
// time integrated predictor
static Vec tint( Vec q, Geo const & g, Mat const & m, double dt ) {
  Vec r( NT*NM, 0 ); double f = dt;
  for( int k = 0; k < ORDER; k++ ) { for( int i = 0; i < NT*NM; i++ ) r[i] += f*q[i]; f *= dt/(k+2); if( k+1 < ORDER ) q = rhs( q, g, m ); }
  return r;
}
enum { INT, PER, REM, FREE, OUT };
struct Fa { int kind, num, side, rel, fId, vId; }; // rel: 0 eq, 1 E less than, 2 E greater than
struct Cfg { int geo; Geo e, n[6]; Fa fa[6]; Mat me, mn[6]; };
static V s_fb[6]; // basis at the face points [q][NM]
// reference update of E
static Vec refStep( Cfg const & c, Vec const & qe, Vec const & te, Vec const * tn, std::vector<V> const & nb ) {
  Vec rs( NT*NM, 0 ), o = qe; Ops const & op = ops();
  int u = DIM == 2 ? 3 : 6;
  // flux of the momentum and the strains, quantity-wise: o = n-flux
  auto flux = []( Mat const & m, double const T[3], double const v[3], double const n[3], double * F ) {
    int u = DIM == 2 ? 3 : 6; double vn = 0; for( int d = 0; d < DIM; d++ ) vn += v[d]*n[d];
    for( int a = 0; a < DIM; a++ ) for( int b = a; b < DIM; b++ ) {
      double e = 0.5*(v[a]*n[b]+v[b]*n[a]); F[sid(a,b)] = -2*m.mu*e - (a == b ? m.lam*vn : 0);
      for( int r = 0; r < RMS; r++ ) F[NQ+r*NQM+sid(a,b)] = -s_om[r]*e; }
    for( int a = 0; a < DIM; a++ ) F[u+a] = -T[a]/m.rho;
  };
  // volume
  for( size_t q = 0; q < op.qp.size(); q++ ) {
    static std::vector<V> bv, bd; // cached
    if( bv.empty() ) for( size_t p = 0; p < op.qp.size(); p++ ) { V b(NM), e(NM*DIM); for( int i = 0; i < NM; i++ ) { b[i] = basis( EL, i, op.qp[p] ); for( int d = 0; d < DIM; d++ ) e[i*DIM+d] = basis( EL, i, op.qp[p], d ); } bv.push_back(b); bd.push_back(e); }
    double s[9]; for( int k = 0; k < NQ; k++ ) { s[k] = 0; for( int i = 0; i < NM; i++ ) s[k] += bv[q][i]*te[k*NM+i]; }
    double F[3][NT];
    for( int d = 0; d < DIM; d++ ) {
      double n[3] = {0,0,0}; n[d] = 1; double T[3]; for( int a = 0; a < DIM; a++ ) T[a] = s[sid(a,d)];
      flux( c.me, T, s+u, n, F[d] );
    }
    for( int k = 0; k < NT; k++ ) for( int i = 0; i < NM; i++ ) for( int p = 0; p < DIM; p++ ) {
      double gp = 0; for( int d = 0; d < DIM; d++ ) gp += bd[q][i*DIM+d]*c.e.inv[d][p];
      rs[k*NM+i] += op.qw[q]*gp*F[p][k]; }
  }
  // surface
  for( int f = 0; f < NF; f++ ) {
    P N = c.e.nrm( f ); double l = 0; for( int d = 0; d < DIM; d++ ) l += N[d]*N[d]; l = std::sqrt(l); double n[3] = {0,0,0}; for( int d = 0; d < DIM; d++ ) n[d] = N[d]/l;
    double zp = std::sqrt( c.me.rho*(c.me.lam+2*c.me.mu) ), zs = std::sqrt( c.me.rho*c.me.mu ), zpr = zp, zsr = zs;
    if( c.fa[f].kind <= REM ) { zpr = std::sqrt( c.mn[f].rho*(c.mn[f].lam+2*c.mn[f].mu) ); zsr = std::sqrt( c.mn[f].rho*c.mn[f].mu ); }
    for( size_t q = 0; q < op.fp.size(); q++ ) {
      double s[2][9]; for( int k = 0; k < NQ; k++ ) {
        s[0][k] = s[1][k] = 0; for( int i = 0; i < NM; i++ ) { s[0][k] += s_fb[f][q*NM+i]*te[k*NM+i]; if( c.fa[f].kind <= REM ) s[1][k] += nb[f][q*NM+i]*tn[f][k*NM+i]; } }
      double T[2][3], v[2][3], Tn[2], vn[2], Ts[3], vs[3];
      for( int w = 0; w < 2; w++ ) {
        Tn[w] = vn[w] = 0;
        for( int a = 0; a < DIM; a++ ) { T[w][a] = 0; for( int b = 0; b < DIM; b++ ) T[w][a] += s[w][sid(a,b)]*n[b]; v[w][a] = s[w][u+a]; Tn[w] += T[w][a]*n[a]; vn[w] += v[w][a]*n[a]; }
      }
      auto star = [&]( double zl, double zr, double tl, double trr, double vl, double vr, double & t, double & vv ) {
        if( c.fa[f].kind == FREE ) { t = 0; vv = zl > 0 ? vl-tl/zl : 0; }
        else if( c.fa[f].kind == OUT ) { vv = zl > 0 ? (-tl+zl*vl)/(2*zl) : 0; t = tl+zl*(vv-vl); }
        else if( zl+zr == 0 ) { vv = 0; t = 0; }
        else { vv = (trr-tl+zl*vl+zr*vr)/(zl+zr); t = tl+zl*(vv-vl); }
      };
      double tns, vns; star( zp, zpr, Tn[0], Tn[1], vn[0], vn[1], tns, vns );
      for( int a = 0; a < DIM; a++ ) {
        double tt, vt; star( zs, zsr, T[0][a]-Tn[0]*n[a], T[1][a]-Tn[1]*n[a], v[0][a]-vn[0]*n[a], v[1][a]-vn[1]*n[a], tt, vt );
        Ts[a] = tns*n[a]+tt; vs[a] = vns*n[a]+vt;
      }
      double F[NT]; flux( c.me, Ts, vs, n, F );
      double sc = op.fw[q]*l/std::fabs(c.e.det);
      for( int k = 0; k < NT; k++ ) for( int i = 0; i < NM; i++ ) rs[k*NM+i] -= sc*s_fb[f][q*NM+i]*F[k];
    }
  }
  for( int k = 0; k < NT; k++ ) for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) o[k*NM+i] += op.massInv[i*NM+j]*rs[k*NM+j];
  // anelastic sources
  for( int i = 0; i < NM; i++ ) for( int r = 0; r < RMS; r++ ) for( int a = 0; a < NQM; a++ ) {
    for( int b = 0; b < NQM; b++ ) o[a*NM+i] += c.me.src[(r*NQM+a)*NQM+b]*te[(NQ+r*NQM+b)*NM+i];
    o[(NQ+r*NQM+a)*NM+i] -= s_om[r]*te[(NQ+r*NQM+a)*NM+i];
  }
  return o;
}

typedef std::size_t lid;
static lid const MX = std::numeric_limits< lid >::max();
// mesh arrays of E (id NF) and its neighbors (ids 0..NF-1)
struct World {
  edge::data::Dynamic mem;
  std::vector<t_vertexChars> ve; std::vector<t_faceChars> fc; std::vector<t_elementChars> ec;
  std::vector<std::array<lid,2>> faEl; lid elVe[NE][NV], elFa[NE][NF], elFaEl[NE][NF]; unsigned short fId[NE][NF], vId[NE][NF];
  t_bgPars bg[NE], bgRe[NF]; unsigned short recvFa[NF]; lid recvEl[NF];
  real_base (*dofsE)[NQ][NM][CR]; real_base (*dofsA)[NM][CR];
  real_base (*tD[3][NE])[NM][CR]; real_base (**tDp[3])[NM][CR];
  real_base (*send[NE*NF])[NMF][CR]; real_base (*recv[NE*NF])[NMF][CR];
  Solver * so = nullptr;
  ~World() { delete so; }
  void * alloc( size_t n ) { void * p = mem.allocate( n, 4096, false, false ); std::memset( p, 0, n ); return p; }
  World( Cfg const & c, t_bgPars const * i_bg, bool remoteSide, int rf ) {
    static double const area6 = 1;
    (void) area6;
    for( int e = 0; e < NE; e++ ) {
      Geo const & g = e == NF ? c.e : c.n[e];
      for( int v = 0; v < NV; v++ ) { elVe[e][v] = ve.size(); t_vertexChars x; std::memset( &x, 0, sizeof x ); for( int d = 0; d < 3; d++ ) x.coords[d] = d < DIM ? g.ve[v][d] : 0; ve.push_back( x ); }
      t_elementChars x; std::memset( &x, 0, sizeof x ); ec.push_back( x );
      bg[e] = i_bg[e];
    }
    auto addFa = [&]( lid l, lid r, Geo const & g, int f, bool rev, int_spType t ) {
      t_faceChars x; std::memset( &x, 0, sizeof x ); x.spType = t;
      P n = g.nrm( f ); double len = 0; for( int d = 0; d < DIM; d++ ) len += n[d]*n[d]; len = std::sqrt( len );
      x.area = EL == TET4 ? len/2 : len;
      for( int d = 0; d < DIM; d++ ) x.outNormal[d] = (rev ? -1 : 1)*n[d]/len;
      P a = g.ve[faVe(f,0)], b = a; if( NVF > 1 ) b = g.ve[faVe(f,1)];
      double tl = 0; for( int d = 0; d < DIM; d++ ) tl += (b[d]-a[d])*(b[d]-a[d]); tl = std::sqrt( tl );
      if( DIM > 1 ) for( int d = 0; d < DIM; d++ ) x.tangent0[d] = (b[d]-a[d])/tl;
      if( DIM == 3 ) for( int d = 0; d < 3; d++ ) { int d1 = (d+1)%3, d2 = (d+2)%3; x.tangent1[d] = x.outNormal[d1]*x.tangent0[d2]-x.outNormal[d2]*x.tangent0[d1]; }
      fc.push_back( x ); faEl.push_back( std::array<lid,2>{{l,r}} ); return (lid) fc.size()-1;
    };
    for( int e = 0; e < NE; e++ ) for( int f = 0; f < NF; f++ ) { elFa[e][f] = elFaEl[e][f] = MX; fId[e][f] = vId[e][f] = std::numeric_limits<unsigned short>::max(); }
    for( int f = 0; f < NF; f++ ) {
      Fa const & a = c.fa[f]; int_spType en = ec[NF].spType;
      int rel = a.kind <= REM ? a.rel : 0;
      en |= C_LTS_AD[f][rel]; if( rel == 1 ) en |= C_LTS_EL[EL_INT_LT]; if( rel == 2 ) en |= C_LTS_EL[EL_INT_GT]; ec[NF].spType = en;
      if( a.kind <= REM ) {
        elFaEl[NF][f] = f; fId[NF][f] = a.fId; vId[NF][f] = a.vId; elFaEl[f][a.fId] = NF; fId[f][a.fId] = f; vId[f][a.fId] = a.vId;
        int nrel = a.rel == 0 ? 0 : 3-a.rel; ec[f].spType |= C_LTS_AD[a.fId][nrel]; if( nrel == 1 ) ec[f].spType |= C_LTS_EL[EL_INT_LT]; if( nrel == 2 ) ec[f].spType |= C_LTS_EL[EL_INT_GT];
      }
      if( a.kind == INT ) { lid n = a.side ? addFa( f, NF, c.e, f, true, MESH_TYPE_NONE ) : addFa( NF, f, c.e, f, false, MESH_TYPE_NONE ); elFa[NF][f] = n; elFa[f][a.fId] = n; }
      else if( a.kind == PER ) { elFa[NF][f] = addFa( NF, f, c.e, f, false, PERIODIC ); elFa[f][a.fId] = addFa( f, NF, c.n[f], a.fId, false, PERIODIC ); }
      else if( a.kind == REM ) { elFa[NF][f] = addFa( NF, MX, c.e, f, false, remoteSide ? OUTFLOW : MESH_TYPE_NONE ); elFa[f][a.fId] = addFa( f, MX, c.n[f], a.fId, false, remoteSide ? MESH_TYPE_NONE : OUTFLOW ); elFaEl[NF][f] = elFaEl[f][a.fId] = MX; }
      else elFa[NF][f] = addFa( NF, MX, c.e, f, false, a.kind == FREE ? FREE_SURFACE : OUTFLOW );
    }
    for( int e = 0; e < NF; e++ ) for( int f = 0; f < NF; f++ ) if( elFa[e][f] == MX ) { elFa[e][f] = addFa( e, MX, c.n[e], f, false, OUTFLOW ); ec[e].spType |= C_LTS_AD[f][0]; }
    dofsE = (decltype(dofsE)) alloc( sizeof(*dofsE)*NE ); dofsA = (decltype(dofsA)) alloc( sizeof(*dofsA)*(NE*RMS*NQM+1) );
    for( int t = 0; t < 3; t++ ) { for( int e = 0; e < NE; e++ ) {
      int_spType s = ec[e].spType; bool need = t == 0 || (t == 1 && (s & C_LTS_EL[EL_INT_LT]) == C_LTS_EL[EL_INT_LT]) || (t == 2 && (s & C_LTS_EL[EL_INT_GT]) == C_LTS_EL[EL_INT_GT]);
      tD[t][e] = need ? (real_base (*)[NM][CR]) alloc( sizeof(real_base)*NQ*NM*CR ) : nullptr; }
      tDp[t] = tD[t]; }
    for( int i = 0; i < NE*NF; i++ ) { send[i] = nullptr; recv[i] = nullptr; }
    lid nIn = remoteSide ? 0 : NF, nSe = NE-nIn, nCo = 0;
    // communicating faces, the first one varies
    for( int i = 0; i < NF; i++ ) {
      int g = (i+rf)%NF; if( rf < 0 || c.fa[g].kind != REM ) continue;
      recvEl[nCo] = remoteSide ? g : NF; recvFa[nCo] = remoteSide ? c.fa[g].fId : g; bgRe[nCo] = remoteSide ? bg[NF] : bg[g]; nCo++;
    }
    so = new Solver( nIn, nSe, (lid) fc.size(), nCo, recvFa, recvEl, (lid const (*)[2]) faEl.data(), elVe, elFa, ve.data(), fc.data(), ec.data(), bg, bgRe, FCEN, FRAT, mem );
  }
  void set( int e, int cr, Vec const & q ) {
    for( int k = 0; k < NQ; k++ ) for( int i = 0; i < NM; i++ ) dofsE[e][k][i][cr] = q[k*NM+i];
    for( int k = 0; k < RMS*NQM; k++ ) for( int i = 0; i < NM; i++ ) dofsA[e*RMS*NQM+k][i][cr] = q[(NQ+k)*NM+i];
  }
  Vec get( int e, int cr ) {
    Vec q( NT*NM ); for( int k = 0; k < NQ; k++ ) for( int i = 0; i < NM; i++ ) q[k*NM+i] = dofsE[e][k][i][cr];
    for( int k = 0; k < RMS*NQM; k++ ) for( int i = 0; i < NM; i++ ) q[(NQ+k)*NM+i] = dofsA[e*RMS*NQM+k][i][cr];
    return q;
  }
  void local( lid first, lid n, bool ft, double dt ) {
    static edge::io::Receivers re;
    so->local( first, n, ft, 0.0, dt, lid(0), ec.data(), vId, dofsE, dofsA, tDp, send, re );
  }
  void neigh( lid first, lid n, bool ft ) {
    so->neigh( first, n, ft, fc.data(), ec.data(), elFa, elFaEl, fId, vId, tDp, dofsE, dofsA, (real_base const (* const *)[NMF][CR]) recv );
  }
};

static double rnd( uint32_t & s ) { s = s*1664525u+1013904223u; return ((s>>8)%2001)/1000.0-1; }
static bool s_acoustic = false;
static Vec dense( uint32_t seed ) {
  uint32_t s = seed*2654435761u+12345u; Vec q( NT*NM ); for( auto & x : q ) x = rnd(s);
  if( s_acoustic ) for( int i = 0; i < NM; i++ ) { q[1*NM+i] = q[0*NM+i]; q[2*NM+i] = 0; }
  return q;
}
static Vec add( Vec a, Vec const & b, double s ) { for( size_t i = 0; i < a.size(); i++ ) a[i] += s*b[i]; return a; }

static void body() {
  static bool init = false;
  if( !init ) {
    init = true; fillPre(); s_om = omegas();
    for( int f = 0; f < NF; f++ ) for( size_t q = 0; q < ops().fp.size(); q++ ) for( int i = 0; i < NM; i++ ) s_fb[f].push_back( basis( EL, i, faToEl( f, ops().fp[q] ) ) );
    void * p = nullptr; if( posix_memalign( &p, 4096, sizeof(t_scratchMem) ) ) abort(); std::memset( p, 0, sizeof(t_scratchMem) ); edge::parallel::g_scratchMem = (t_scratchMem*) p;
  }
  bool th = vh::thorough();
  int f = vh::choose( NF );
#ifdef PP_USE_MPI
  static int const kinds[] = { REM, INT }; int kind = vh::pick( kinds );
#else
  static int const kinds[] = { INT, FREE, OUT, PER }; int kind = vh::pick( kinds );
#endif
  bool ne = kind <= REM;
  int num = ne ? vh::choose( nNum() ) : 0, side = kind == INT ? vh::choose( 2 ) : 0, rel = ne ? vh::choose( 3 ) : 0;
  int matv = vh::choose( RMS == 0 && DIM == 2 ? 3 : 2 );
  int rest = vh::choose( kind == REM ? 3 : 2 ), geo = th ? vh::choose( 3 ) : (f+num+kind+rel)%3;
  s_acoustic = matv == 2;
  Cfg c; c.geo = geo; c.e = center( geo );
  t_bgPars bg[NE]; static double const mats[3][5] = {{2.7,3.1,1.7,120,60},{1.9,1.2,0.9,80,40},{3.3,5.5,2.9,200,90}};
  auto mk = [&]( int id, t_bgPars & b ) {
    if( matv == 0 ) id = 0;
    b.rho = mats[id][0]; b.lam = mats[id][1]; b.mu = s_acoustic ? 0 : mats[id][2]; b.qp = mats[id][3]; b.qs = mats[id][4];
    Mat m; m.rho = b.rho; m.lam = b.lam; m.mu = b.mu;
    if( RMS > 0 ) {
      m.src.resize( RMS*NQM*NQM ); double l, mu; static double s[RMS+1][NQM*NQM];
      edge::seismic::setups::ViscoElasticity::src( RMS, FCEN, FRAT, b.qp, b.qs, b.lam, b.mu, l, mu, s ); m.lam = l; m.mu = mu;
      for( int i = 0; i < RMS*NQM*NQM; i++ ) m.src[i] = s[i/(NQM*NQM)][i%(NQM*NQM)];
    }
    return m;
  };
  c.me = mk( 0, bg[NF] );
  for( int g = 0; g < NF; g++ ) {
    Fa & a = c.fa[g]; bool ok = true; a.kind = INT; a.num = g == f ? num : (g+f+num)%nNum(); a.side = g == f ? side : (g+num)%2; a.rel = g == f ? rel : 0;
    if( g == f ) a.kind = kind;
    else if( rest == 1 ) { static int const ks[5] = { INT, FREE, INT, OUT, INT }, rs[5] = {1,0,2,0,0}; int x = (g+2*f+num+kind)%5; a.kind = ks[x]; a.rel = rs[x]; }
    else if( rest == 2 ) { static int const rs[5] = {1,0,2,0,2}; a.kind = REM; a.rel = rs[(g+2*f+num)%5]; }
    c.n[g] = neighbor( c.e, g, a.num, a.fId, a.vId, ok ); if( !ok || a.fId < 0 ) { if( g == f ) vh::skip(); abort(); }
    c.mn[g] = mk( 1+g%2, bg[g] );
  }
  vh::note( "face=%d kind=%s numbering=%d (face %d, vertex %d) side=%d lts=%d material=%d rest=%d geometry=%d", f,
            kind == INT ? "int" : kind == PER ? "periodic" : kind == REM ? "remote" : kind == FREE ? "free-surface" : "outflow", num, c.fa[f].fId, c.fa[f].vId, side, rel, matv, rest, geo );
  World w( c, bg, false, kind == REM ? (f+1)%NF : -1 );
  World * w2 = nullptr; std::vector< real_base > buf;
  struct Del { World *& p; ~Del() { delete p; } } del{ w2 };
  if( kind == REM ) {
    w2 = new World( c, bg, true, f ); buf.assign( NF*2*NQ*NMF*CR, 0 );
    for( int g = 0; g < NF; g++ ) if( c.fa[g].kind == REM ) w2->send[g*NF+c.fa[g].fId] = w.recv[NF*NF+g] = (real_base (*)[NMF][CR]) ( buf.data() + g*2*NQ*NMF*CR );
  }
  // basis of E and the neighbor at the faces' quadrature points
  std::vector<V> nb( NF );
  for( int g = 0; g < NF; g++ ) if( c.fa[g].kind <= REM ) {
    for( size_t q = 0; q < ops().fp.size(); q++ ) { P x = c.n[g].toRef( c.e.phy( faToEl( g, ops().fp[q] ) ) ); for( int i = 0; i < NM; i++ ) nb[g].push_back( basis( EL, i, x ) ); }
  }
  double const dt = 0.13;
  bool lt = false, eqOnly = true; for( int g = 0; g < NF; g++ ) if( c.fa[g].kind <= REM ) { lt = lt || c.fa[g].rel == 1; eqOnly = eqOnly && c.fa[g].rel == 0; }
  // states: one dense, then unit vectors of E, then of the neighbor
  struct State { int type, id; };
  std::vector< State > st; for( int i = 0; i < CR; i++ ) st.push_back( State{0,i} );
  auto units = [&]( int type, bool all ) {
    int step = all ? 1 : 7;
    for( int i = 0; i < NT*NM; i += step ) { int k = i/NM; if( s_acoustic && (k == 1 || k == 2) ) continue; st.push_back( State{type,i} ); }
  };
  bool all = th || CR > 1 || NT*NM <= 40;
  units( 1, all ); if( ne ) units( 2, all );
  auto unit = [&]( int id ) { Vec q( NT*NM, 0 ); q[id] = 1; if( s_acoustic && id/NM == 0 ) q[NM+id] = 1; return q; };
  double tol = sizeof(real_base) == 4 ? 2E-4 : 1E-10;
  bool known = false;
  for( size_t b = 0; b < st.size(); b += CR ) for( int s = 0; s < (lt ? 2 : 1); s++ ) {
    Vec qe[CR], qn[CR][6], qn2[CR][6], tn[CR][6];
    for( int cr = 0; cr < CR; cr++ ) {
      State x = st[std::min( b+cr, st.size()-1 )];
      for( int g = 0; g < NF; g++ ) {
        qn[cr][g] = x.type == 0 ? dense( 17*g+x.id+3 ) : Vec( NT*NM, 0 ); qn2[cr][g] = x.type == 0 ? dense( 31*g+x.id+7 ) : Vec( NT*NM, 0 );
        if( x.type == 2 && g == f ) { qn[cr][g] = unit( x.id ); qn2[cr][g] = unit( (x.id+1)%(s_acoustic ? NM : NT*NM) ); if( c.fa[g].rel != 2 ) qn2[cr][g] = qn[cr][g]; }
      }
      qe[cr] = x.type == 0 ? dense( 99+x.id+s ) : x.type == 1 ? unit( x.id ) : Vec( NT*NM, 0 );
    }
    auto tints = [&]( int cr ) {
      for( int g = 0; g < NF; g++ ) {
        if( c.fa[g].kind > REM ) continue;
        Geo const & ge = c.n[g]; Mat const & m = c.mn[g];
        if( c.fa[g].rel == 0 ) tn[cr][g] = tint( qn[cr][g], ge, m, dt );
        if( c.fa[g].rel == 1 ) { tn[cr][g] = tint( qn[cr][g], ge, m, dt ); if( s == 1 ) tn[cr][g] = add( tint( qn[cr][g], ge, m, 2*dt ), tn[cr][g], -1 ); }
        if( c.fa[g].rel == 2 ) tn[cr][g] = add( tint( qn[cr][g], ge, m, dt/2 ), tint( qn2[cr][g], ge, m, dt/2 ), 1 );
      }
    };
    // real solver
    auto setN = [&]( World & wo, bool second ) { for( int cr = 0; cr < CR; cr++ ) for( int g = 0; g < NF; g++ ) wo.set( g, cr, second && c.fa[g].rel == 2 ? qn2[cr][g] : qn[cr][g] ); };
    for( int cr = 0; cr < CR; cr++ ) w.set( NF, cr, qe[cr] );
    setN( w, false );
    if( eqOnly && kind != REM ) w.local( 0, NE, s == 0, dt );
    else {
      w.local( NF, 1, s == 0, dt );
      for( int g = 0; g < NF; g++ ) {
        World & wo = c.fa[g].kind == REM ? *w2 : w; Fa const & a = c.fa[g];
        for( int cr = 0; cr < CR; cr++ ) wo.set( g, cr, qn[cr][g] );
        if( a.kind > REM || a.rel == 0 ) wo.local( g, 1, s == 0, dt );
        else if( a.rel == 1 ) wo.local( g, 1, true, 2*dt );
        else { wo.local( g, 1, true, dt/2 ); for( int cr = 0; cr < CR; cr++ ) wo.set( g, cr, qn2[cr][g] ); wo.local( g, 1, false, dt/2 ); }
      }
    }
    w.neigh( NF, 1, s == 0 );
    for( int cr = 0; cr < CR; cr++ ) {
      if( b+cr >= st.size() ) break;
      Vec o = w.get( NF, cr ), r; int bad = -1; double want = 0;
      for( int at = 0; at < (RMS > 0 ? 2 : 1); at++ ) {
        s_react = at == 0 ? -1 : 1; tints( cr );
        r = refStep( c, qe[cr], tint( qe[cr], c.e, c.me, dt ), tn[cr], nb ); s_react = -1;
        double sc = 1; for( double x : r ) sc = std::max( sc, std::fabs(x) );
        int miss = -1;
        for( int i = 0; i < NT*NM && miss < 0; i++ ) if( !(s_acoustic && i/NM == 2) && !(std::fabs( o[i]-r[i] ) <= tol*sc) ) miss = i;
        if( at == 0 ) { bad = miss; if( miss >= 0 ) want = r[miss]; }
        else if( miss < 0 ) { bad = -1; known = true; }
        if( bad < 0 ) break;
      }
      if( bad >= 0 )
        vh::fail( "update", "step %d, run %d, initial state %s %d: quantity %d mode %d after the step: %.12g, ADER-DG scheme: %.12g", s, cr,
                  st[b+cr].type == 0 ? "dense" : st[b+cr].type == 1 ? "unit of element" : "unit of neighbor", st[b+cr].id, bad/NM, bad%NM, o[bad], want );
      vh::count( "updates" );
    }
  }
  // reported once per kind of face
  if( known && f == 0 && num == 0 && side == 0 && rel == 0 && matv == 0 && rest == 0 ) vh::fail( "viscoelastic-predictor-sign", "the viscoelastic predictor adds +omega times the memory variables to their derivatives, the update -omega" );
  if( ne && (rel || matv) ) vh::nontrivial();
  vh::obs( f ); vh::obs( num ); vh::obs( kind ); vh::obs( rel );
}
int main( int c, char ** v ) { return vh::run( c, v, "ader", body ); }
