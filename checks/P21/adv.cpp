// The advection ADER-DG solver vs. a quadrature-based reference of the ADER-DG scheme with upwind fluxes.
#include "ref_dg.hpp"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include "data/Dynamic.h"
#include "mesh/common.hpp"
#include "linalg/Mappings.hpp"
#include "linalg/Matrix.h"
#include "impl/advection/solvers/AderDg.hpp"
#include "impl/advection/solvers/common.hpp"
#include "vh.hpp"
using namespace ref;
constexpr int CR = N_CRUNS, NE = NF+1;
typedef edge::advection::solvers::AderDg< real_base, EL, ORDER, ORDER, CR > Solver;
typedef std::vector< double > Vec;
typedef std::size_t lid;
static lid const MX = std::numeric_limits< lid >::max();
static double dotn( P const & a, P const & b ) { double s = 0; for( int d = 0; d < DIM; d++ ) s += a[d]*b[d]; return s; }

static Vec tint( Vec q, Geo const & g, P const & a, double dt ) {
  Vec r( NM, 0 ); double f = dt;
  for( int k = 0; k < ORDER; k++ ) {
    for( int i = 0; i < NM; i++ ) r[i] += f*q[i];
    f *= dt/(k+2); Vec n( NM, 0 );
    for( int d = 0; d < DIM; d++ ) { double s = 0; for( int p = 0; p < DIM; p++ ) s += a[p]*g.inv[d][p];
      for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) n[i] -= s*ops().grad[d][i*NM+j]*q[j]; }
    q = n;
  }
  return r;
}
enum { INT, PER, REM, OUT };
struct Fa { int kind, num, side, rel, fId, vId; };
struct Cfg { Geo e, n[6]; Fa fa[6]; P ae, an[6]; };
static V s_fb[6], s_vb, s_vd;
static Vec refStep( Cfg const & c, Vec const & q, Vec const & te, Vec const * tn, std::vector<V> const & nb ) {
  Vec rs( NM, 0 ), o = q; Ops const & op = ops();
  for( size_t p = 0; p < op.qp.size(); p++ ) {
    double s = 0; for( int i = 0; i < NM; i++ ) s += s_vb[p*NM+i]*te[i];
    for( int i = 0; i < NM; i++ ) for( int d = 0; d < DIM; d++ ) for( int x = 0; x < DIM; x++ ) rs[i] += op.qw[p]*s*s_vd[(p*NM+i)*DIM+d]*c.e.inv[d][x]*c.ae[x];
  }
  for( int f = 0; f < NF; f++ ) {
    P n = c.e.nrm( f ); double l = std::sqrt( dotn( n, n ) );
    double sl = dotn( c.ae, n )/l, sr = c.fa[f].kind == OUT ? 0 : dotn( c.an[f], n )/l;
    for( size_t p = 0; p < op.fp.size(); p++ ) {
      double l0 = 0, r0 = 0; for( int i = 0; i < NM; i++ ) { l0 += s_fb[f][p*NM+i]*te[i]; if( c.fa[f].kind != OUT ) r0 += nb[f][p*NM+i]*tn[f][i]; }
      double F = (sl > 0 ? sl*l0 : 0) + (sr < 0 ? sr*r0 : 0);
      for( int i = 0; i < NM; i++ ) rs[i] -= op.fw[p]*l/std::fabs(c.e.det)*s_fb[f][p*NM+i]*F;
    }
  }
  for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) o[i] += op.massInv[i*NM+j]*rs[j];
  return o;
}

struct World {
  edge::data::Dynamic mem;
  std::vector<t_vertexChars> ve; std::vector<t_faceChars> fc; std::vector<t_elementChars> ec;
  std::vector<std::array<lid,2>> faEl; lid elVe[NE][NV], elFa[NE][NF], elFaEl[NE][NF]; unsigned short fId[NE][NF], vId[NE][NF];
  t_bgPars bg[NE][1], bgRe[1]; unsigned short recvFa[1]; lid recvEl[1];
  real_base star[NE][DIM], fs[NE][NF*2];
  real_base (*dofs)[1][NM][CR]; real_base (*tDa[3][NE])[NM][CR]; real_base (**tD[3])[NM][CR]; real_base (*send[NE*NF])[NM][CR]; real_base const (*recv[NE*NF])[NM][CR];
  Solver so;
  void * alloc( size_t n ) { void * p = mem.allocate( n, 4096, false, false ); std::memset( p, 0, n ); return p; }
  static void par( P const & a, t_bgPars & b ) { b.a = a[0];
#if PP_N_DIM > 1
    b.b = a[1];
#endif
#if PP_N_DIM > 2
    b.c = a[2];
#endif
  }
  World( Cfg const & c, bool remoteSide, int rf ): so( mem ) {
    for( int e = 0; e < NE; e++ ) {
      Geo const & g = e == NF ? c.e : c.n[e];
      for( int v = 0; v < NV; v++ ) { elVe[e][v] = ve.size(); t_vertexChars x; std::memset( &x, 0, sizeof x ); for( int d = 0; d < 3; d++ ) x.coords[d] = d < DIM ? g.ve[v][d] : 0; ve.push_back( x ); }
      t_elementChars x; std::memset( &x, 0, sizeof x ); ec.push_back( x ); par( e == NF ? c.ae : c.an[e], bg[e][0] );
      for( int f = 0; f < NF; f++ ) { elFa[e][f] = elFaEl[e][f] = MX; fId[e][f] = vId[e][f] = std::numeric_limits<unsigned short>::max(); }
    }
    auto addFa = [&]( lid l, lid r, Geo const & g, int f, bool rev, int_spType t ) {
      t_faceChars x; std::memset( &x, 0, sizeof x ); x.spType = t; P n = g.nrm( f ); double len = std::sqrt( dotn( n, n ) );
      x.area = EL == TET4 ? len/2 : len; for( int d = 0; d < DIM; d++ ) x.outNormal[d] = (rev ? -1 : 1)*n[d]/len;
      fc.push_back( x ); faEl.push_back( std::array<lid,2>{{l,r}} ); return (lid) fc.size()-1;
    };
    for( int f = 0; f < NF; f++ ) {
      Fa const & a = c.fa[f]; int rel = a.kind != OUT ? a.rel : 0;
      ec[NF].spType |= C_LTS_AD[f][rel]; if( rel == 1 ) ec[NF].spType |= C_LTS_EL[EL_INT_LT]; if( rel == 2 ) ec[NF].spType |= C_LTS_EL[EL_INT_GT];
      if( a.kind != OUT ) {
        elFaEl[NF][f] = f; fId[NF][f] = a.fId; vId[NF][f] = a.vId; elFaEl[f][a.fId] = NF; fId[f][a.fId] = f; vId[f][a.fId] = a.vId;
        int nr = rel == 0 ? 0 : 3-rel; ec[f].spType |= C_LTS_AD[a.fId][nr]; if( nr == 1 ) ec[f].spType |= C_LTS_EL[EL_INT_LT]; if( nr == 2 ) ec[f].spType |= C_LTS_EL[EL_INT_GT];
      }
      if( a.kind == INT ) { lid n = a.side ? addFa( f, NF, c.e, f, true, MESH_TYPE_NONE ) : addFa( NF, f, c.e, f, false, MESH_TYPE_NONE ); elFa[NF][f] = n; elFa[f][a.fId] = n; }
      else if( a.kind == PER ) { elFa[NF][f] = addFa( NF, f, c.e, f, false, PERIODIC ); elFa[f][a.fId] = addFa( f, NF, c.n[f], a.fId, false, PERIODIC ); }
      else if( a.kind == REM ) { elFa[NF][f] = addFa( NF, MX, c.e, f, false, remoteSide ? OUTFLOW : MESH_TYPE_NONE ); elFa[f][a.fId] = addFa( f, MX, c.n[f], a.fId, false, remoteSide ? MESH_TYPE_NONE : OUTFLOW ); elFaEl[NF][f] = elFaEl[f][a.fId] = MX; }
      else elFa[NF][f] = addFa( NF, MX, c.e, f, false, OUTFLOW );
    }
    for( int e = 0; e < NF; e++ ) for( int f = 0; f < NF; f++ ) if( elFa[e][f] == MX ) { elFa[e][f] = addFa( e, MX, c.n[e], f, false, OUTFLOW ); ec[e].spType |= C_LTS_AD[f][0]; }
    dofs = (decltype(dofs)) alloc( sizeof(*dofs)*NE );
    for( int t = 0; t < 3; t++ ) for( int e = 0; e < NE; e++ ) {
      int_spType s = ec[e].spType; bool need = t == 0 || (t == 1 && (s & C_LTS_EL[EL_INT_LT]) == C_LTS_EL[EL_INT_LT]) || (t == 2 && (s & C_LTS_EL[EL_INT_GT]) == C_LTS_EL[EL_INT_GT]);
      tD[t] = tDa[t]; tDa[t][e] = need ? (real_base (*)[NM][CR]) alloc( sizeof(real_base)*NM*CR ) : nullptr; }
    for( int i = 0; i < NE*NF; i++ ) { send[i] = nullptr; recv[i] = nullptr; }
    lid nIn = remoteSide ? 0 : NF, nCo = 0;
    if( rf >= 0 ) { nCo = 1; recvEl[0] = remoteSide ? rf : NF; recvFa[0] = remoteSide ? c.fa[rf].fId : rf; bgRe[0] = remoteSide ? bg[NF][0] : bg[rf][0]; }
    Solver::setupStarM( NE, ve.data(), elVe, bg, star );
    edge::advection::solvers::common::setupSolvers( nIn, NE-nIn, fc.size(), nCo, recvFa, recvEl, elVe, (lid const (*)[2]) faEl.data(), elFa, elFaEl, ve.data(), fc.data(), bg, bgRe, fs );
  }
  void set( int e, int cr, Vec const & q ) { for( int i = 0; i < NM; i++ ) dofs[e][0][i][cr] = q[i]; }
  Vec get( int e, int cr ) { Vec q( NM ); for( int i = 0; i < NM; i++ ) q[i] = dofs[e][0][i][cr]; return q; }
  void local( lid first, lid n, bool ft, double dt ) {
    so.local( first, n, ft, dt, ec.data(), star, fs, dofs, tD, send );
  }
  void neigh( bool ft, bool mpi ) {
    so.neigh( lid(NF), lid(1), ft, fc.data(), ec.data(), fs, elFa, elFaEl, fId, vId, tD, dofs, mpi ? recv : nullptr );
  }
};
static Vec dense( uint32_t seed ) { uint32_t s = seed*2654435761u+12345u; Vec q( NM ); for( auto & x : q ) { s = s*1664525u+1013904223u; x = ((s>>8)%2001)/1000.0-1; } return q; }
static Vec add( Vec a, Vec const & b, double s ) { for( size_t i = 0; i < a.size(); i++ ) a[i] += s*b[i]; return a; }
static Vec unit( int i ) { Vec q( NM, 0 ); q[i] = 1; return q; }

static void body() {
  static bool init = false;
  if( !init ) {
    init = true; fillPre();
    for( int f = 0; f < NF; f++ ) for( size_t q = 0; q < ops().fp.size(); q++ ) for( int i = 0; i < NM; i++ ) s_fb[f].push_back( basis( EL, i, faToEl( f, ops().fp[q] ) ) );
    for( size_t q = 0; q < ops().qp.size(); q++ ) for( int i = 0; i < NM; i++ ) { s_vb.push_back( basis( EL, i, ops().qp[q] ) ); for( int d = 0; d < DIM; d++ ) s_vd.push_back( basis( EL, i, ops().qp[q], d ) ); }
  }
  bool th = vh::thorough();
  int f = vh::choose( NF );
#ifdef PP_USE_MPI
  static int const kinds[] = { REM, INT }; int kind = vh::pick( kinds );
#else
  static int const kinds[] = { INT, OUT, PER }; int kind = vh::pick( kinds );
#endif
  bool ne = kind != OUT;
  int num = ne ? vh::choose( nNum() ) : 0, side = kind == INT ? vh::choose( 2 ) : 0, rel = ne ? vh::choose( 3 ) : 0;
  int dir = vh::choose( 2*DIM+1 ), nsp = ne ? vh::choose( 4 ) : 0, rest = vh::choose( 2 ), geo = th ? vh::choose( 3 ) : (f+num+kind+rel+dir)%3;
  Cfg c; c.e = center( geo );
  for( int d = 0; d < 3; d++ ) c.ae[d] = dir == 2*DIM ? 0.7-0.5*d+0.2*geo : (dir/2 == d ? (dir%2 ? -1.3 : 0.9) : 0);
  for( int g = 0; g < NF; g++ ) {
    Fa & a = c.fa[g]; bool ok = true; a.kind = INT; a.num = g == f ? num : (g+f+num)%nNum(); a.side = g == f ? side : (g+num)%2; a.rel = g == f ? rel : 0;
    if( g == f ) a.kind = kind;
    else if( rest == 1 ) { static int const ks[5] = { INT, OUT, INT, INT, OUT }, rs[5] = {1,0,2,0,0}; int x = (g+2*f+num+kind)%5; a.kind = ks[x]; a.rel = rs[x]; }
    c.n[g] = neighbor( c.e, g, a.num, a.fId, a.vId, ok ); if( !ok || a.fId < 0 ) { if( g == f ) vh::skip(); abort(); }
    int y = g == f ? nsp : (g+nsp)%4; static double const fac[4] = { 1, 2, -0.5, 0 };
    for( int d = 0; d < 3; d++ ) c.an[g][d] = fac[y]*c.ae[d] + (y == 3 ? 0.4*(d+1)*(g%2 ? 1 : -1) : 0);
  }
  vh::note( "face=%d kind=%s numbering=%d (face %d, vertex %d) side=%d lts=%d speed=(%g,%g,%g) neighbor's=(%g,%g,%g) rest=%d geometry=%d", f, kind == INT ? "int" : kind == PER ? "periodic" : kind == REM ? "remote" : "outflow",
            num, c.fa[f].fId, c.fa[f].vId, side, rel, c.ae[0], c.ae[1], c.ae[2], c.an[f][0], c.an[f][1], c.an[f][2], rest, geo );
  World w( c, false, kind == REM ? f : -1 ), * w2 = nullptr; std::vector< real_base > buf;
  struct Del { World *& p; ~Del() { delete p; } } del{ w2 };
  if( kind == REM ) {
    w2 = new World( c, true, f ); buf.assign( 2*NM*CR, 0 );
    w2->send[f*NF+c.fa[f].fId] = (real_base (*)[NM][CR]) buf.data(); w.recv[NF*NF+f] = (real_base const (*)[NM][CR]) buf.data();
  }
  // time step statistics
  {
    double mi, av, ma, emi = 1E99, eav = 0, ema = 0; bool ok = true;
    for( int e = 0; e < NE; e++ ) { w.ec[e].inDia = 0.3+0.1*((e+f)%NE); P const & a = e == NF ? c.ae : c.an[e]; double s = std::sqrt( dotn( a, a ) ); ok = ok && s > 0;
      double dt = SCALE_CFL*w.ec[e].inDia/s/(2*ORDER-1); emi = std::min( emi, dt ); eav += dt/NE; ema = std::max( ema, dt ); }
    edge::advection::solvers::common::getTimeStepStatistics( NE, w.ec.data(), w.bg, mi, av, ma );
    if( ok ) VH_REQUIRE( std::fabs(mi-emi) < 1E-5*emi && std::fabs(av-eav) < 1E-5*eav && std::fabs(ma-ema) < 1E-5*ema, "time-step", "min/ave/max time step: %g %g %g, CFL: %g %g %g", mi, av, ma, emi, eav, ema );
  }
  std::vector<V> nb( NF );
  for( int g = 0; g < NF; g++ ) if( c.fa[g].kind != OUT )
    for( size_t q = 0; q < ops().fp.size(); q++ ) { P x = c.n[g].toRef( c.e.phy( faToEl( g, ops().fp[q] ) ) ); for( int i = 0; i < NM; i++ ) nb[g].push_back( basis( EL, i, x ) ); }
  double const dt = 0.13; bool lt = false, eqOnly = true;
  for( int g = 0; g < NF; g++ ) if( c.fa[g].kind != OUT ) { lt = lt || c.fa[g].rel == 1; eqOnly = eqOnly && c.fa[g].rel == 0; }
  struct State { int type, id; }; std::vector< State > st; for( int i = 0; i < CR; i++ ) st.push_back( State{0,i} );
  for( int i = 0; i < NM; i++ ) st.push_back( State{1,i} );
  if( ne ) for( int i = 0; i < NM; i++ ) st.push_back( State{2,i} );
  double tol = sizeof(real_base) == 4 ? 1E-4 : 1E-10;
  for( size_t b = 0; b < st.size(); b += CR ) for( int s = 0; s < (lt ? 2 : 1); s++ ) {
    Vec qe[CR], qn[CR][6], qn2[CR][6], tn[CR][6];
    for( int cr = 0; cr < CR; cr++ ) {
      State x = st[std::min( b+cr, st.size()-1 )];
      for( int g = 0; g < NF; g++ ) {
        qn[cr][g] = x.type == 0 ? dense( 17*g+x.id+3 ) : Vec( NM, 0 ); qn2[cr][g] = x.type == 0 ? dense( 31*g+x.id+7 ) : Vec( NM, 0 );
        if( x.type == 2 && g == f ) { qn[cr][g] = unit( x.id ); qn2[cr][g] = unit( (x.id+1)%NM ); }
        if( c.fa[g].rel != 2 ) qn2[cr][g] = qn[cr][g];
        if( c.fa[g].kind == OUT ) continue;
        Geo const & ge = c.n[g]; P const & m = c.an[g];
        if( c.fa[g].rel == 0 ) tn[cr][g] = tint( qn[cr][g], ge, m, dt );
        if( c.fa[g].rel == 1 ) { tn[cr][g] = tint( qn[cr][g], ge, m, dt ); if( s == 1 ) tn[cr][g] = add( tint( qn[cr][g], ge, m, 2*dt ), tn[cr][g], -1 ); }
        if( c.fa[g].rel == 2 ) tn[cr][g] = add( tint( qn[cr][g], ge, m, dt/2 ), tint( qn2[cr][g], ge, m, dt/2 ), 1 );
      }
      qe[cr] = x.type == 0 ? dense( 99+x.id+s ) : x.type == 1 ? unit( x.id ) : Vec( NM, 0 );
    }
    for( int cr = 0; cr < CR; cr++ ) { w.set( NF, cr, qe[cr] ); for( int g = 0; g < NF; g++ ) w.set( g, cr, qn[cr][g] ); }
    if( eqOnly && kind != REM ) w.local( 0, NE, s == 0, dt );
    else {
      w.local( NF, 1, s == 0, dt );
      for( int g = 0; g < NF; g++ ) {
        World & wo = kind == REM && g == f ? *w2 : w; Fa const & a = c.fa[g];
        for( int cr = 0; cr < CR; cr++ ) wo.set( g, cr, qn[cr][g] );
        if( a.kind == OUT || a.rel == 0 ) wo.local( g, 1, s == 0, dt );
        else if( a.rel == 1 ) wo.local( g, 1, true, 2*dt );
        else { wo.local( g, 1, true, dt/2 ); for( int cr = 0; cr < CR; cr++ ) wo.set( g, cr, qn2[cr][g] ); wo.local( g, 1, false, dt/2 ); }
      }
    }
    w.neigh( s == 0, kind == REM || (f+num)%2 );
    for( int cr = 0; cr < CR; cr++ ) {
      if( b+cr >= st.size() ) break;
      Vec r = refStep( c, qe[cr], tint( qe[cr], c.e, c.ae, dt ), tn[cr], nb ), o = w.get( NF, cr );
      double sc = 1; for( double x : r ) sc = std::max( sc, std::fabs(x) );
      for( int i = 0; i < NM; i++ ) if( !(std::fabs( o[i]-r[i] ) <= tol*sc) )
        vh::fail( "update", "step %d, run %d, initial state %s %d: mode %d after the step: %.12g, ADER-DG scheme: %.12g", s, cr, st[b+cr].type == 0 ? "dense" : st[b+cr].type == 1 ? "unit of element" : "unit of neighbor", st[b+cr].id, i, o[i], r[i] );
      vh::count( "updates" );
    }
  }
  if( ne && (rel || nsp) ) vh::nontrivial();
  vh::obs( f ); vh::obs( num ); vh::obs( kind ); vh::obs( rel ); vh::obs( dir ); vh::obs( nsp );
}
int main( int c, char ** v ) { return vh::run( c, v, "adv", body ); }
