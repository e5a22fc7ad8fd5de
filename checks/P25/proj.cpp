// quadrature, basis, projection of initial values and error norms for one element type, order and precision
#include "vh.hpp"
#include "ref_dg.hpp"
#include <sstream>
#include "dg/QuadraturePoints.h"
#include "dg/QuadratureEval.hpp"
#include "setups/InitialDofs.hpp"
using namespace ref;
static double const EPS = sizeof(real_base) == 4 ? 2e-5 : 1e-10;
static bool const SIMPLEX = EL == TRIA3 || EL == TET4;
static edge::dg::Basis *g_basis;
static V g_mass;
static void setup() {
  static std::vector<double> m; std::vector<P> p; V w; quad( EL, p, w ); m.assign( NM*NM, 0 );
  for( size_t q = 0; q < p.size(); q++ ) { double b[NM]; for( int i = 0; i < NM; i++ ) b[i] = basis( EL, i, p[q] ); for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) m[i*NM+j] += w[q]*b[i]*b[j]; }
  // EDGEpre's mass matrix is exact
  for( auto & x : m ) if( std::abs( x ) < 1e-6*( sizeof(real_base) == 4 ? 10 : 1e-6 ) ) x = 0;
  g_mass = m; for( int i = 0; i < NM*NM; i++ ) edge::pre::dg::s_mass[i] = m[i];
  g_basis = new edge::dg::Basis( EL, ORDER );
}
static double ipow( double x, int e ) { double r = 1; while( e-- ) r *= x; return r; }
static double mono( int const * e, P const & p ) { return ipow( p[0], e[0] )*ipow( p[1], e[1] )*ipow( p[2], e[2] ); }
//! monomials: total degree (simplices) or degree per dimension
static bool monomial( int k, int deg, bool total, int * e ) { int n = deg+1; for( int d = 0; d < 3; d++ ) { e[d] = d < DIM ? k%n : 0; if( d < DIM ) k /= n; } return !total || e[0]+e[1]+e[2] <= deg; }
static int nMono( int deg ) { int r = 1; for( int d = 0; d < DIM; d++ ) r *= deg+1; return r; }
//! vertices of affine elements
struct Ge { double v[3][8]; P map( P const & x ) const {
    P r; int const b[3] = { 1, EL == QUAD4R || EL == HEX8R ? 3 : 2, EL == HEX8R ? 4 : 3 };
    for( int d = 0; d < 3; d++ ) { r[d] = v[d][0]; for( int k = 0; k < DIM; k++ ) r[d] += x[k]*( v[d][b[k]]-v[d][0] ); } return r; }
  double det() const { P o = map( P{{0,0,0}} ), a[3]; for( int k = 0; k < DIM; k++ ) { P e{{0,0,0}}; e[k] = 1; a[k] = map( e ); for( int d = 0; d < 3; d++ ) a[k][d] -= o[d]; }
    return DIM == 1 ? a[0][0] : DIM == 2 ? a[0][0]*a[1][1]-a[0][1]*a[1][0] : a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0]) + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]); } };
static Ge geo( int g ) {
  Ge r; static double const te[3][4][3] = {{{0,0,0},{1,0,0},{0,1,0},{0,0,1}},{{.1,.2,.3},{1.1,.3,.4},{.2,1.3,.1},{.3,.4,1.2}},{{1,1,1},{.2,1.1,.8},{.9,.2,.3},{1.2,.8,.1}}};
  static double const bo[4][3] = {{1,1,1},{.5,1.5,.8},{2,.7,1.1},{.3,.3,.3}};
  for( int v = 0; v < 8; v++ ) for( int d = 0; d < 3; d++ ) r.v[d][v] = 0;
  int p[4] = {0,1,2,3}; if( g == 3 ) { p[0] = 2; p[1] = 0; p[2] = 1; }
  for( int v = 0; v < NV; v++ ) for( int d = 0; d < DIM; d++ ) r.v[d][v] = SIMPLEX ? te[g == 3 ? 1 : g][p[v]][d] : refVe(v)[d]*bo[g][d] + .25*g*(d+1)*.5;
  if( SIMPLEX && r.det() < 0 ) for( int d = 0; d < DIM; d++ ) std::swap( r.v[d][1], r.v[d][2] );
  return r;
}
static void id() { vh::observe( vh::caseText().data(), vh::caseText().size() ); }
//! independent quadrature of high order on the reference element
struct Hi { std::vector<P> p; V w; Hi() { V x, q; gauss( 2*ORDER+4, x, q ); int n = x.size();
  for( int i = 0; i < n; i++ ) for( int j = 0; j < ( DIM > 1 ? n : 1 ); j++ ) for( int k = 0; k < ( DIM > 2 ? n : 1 ); k++ ) {
    P r{{x[i],0,0}}; double u = q[i], s = 1-x[i]; if( DIM > 1 ) { r[1] = SIMPLEX ? x[j]*s : x[j]; u *= q[j]*( SIMPLEX ? s : 1 ); s -= r[1]; } if( DIM > 2 ) { r[2] = SIMPLEX ? x[k]*s : x[k]; u *= q[k]*( SIMPLEX ? s : 1 ); }
    p.push_back( r ); w.push_back( u ); } } };
static Hi & hi() { static Hi h; return h; }

static void quadrature() {
  int n = vh::choose( ORDER+2 )+1, g = vh::choose( 4 ), deg = SIMPLEX ? 2*n-DIM : 2*n-1, e[3]; if( deg < 0 ) vh::skip();
  int k = vh::choose( nMono( deg ) ); if( !monomial( k, deg, SIMPLEX, e ) ) vh::skip();
  vh::note( "quadrature of order %d, geometry %d, x^%d y^%d z^%d", n, g, e[0], e[1], e[2] ); id(); if( e[0]+e[1]+e[2] > 1 ) vh::nontrivial();
  Ge ge = geo( g ); real_mesh v[3][8] = {}; std::vector<real_mesh> x[3]; std::vector<real_base> w;
  real_mesh *flat = v[0]; for( int d = 0; d < 3; d++ ) for( int j = 0; j < NV; j++ ) flat[d*NV+j] = ge.v[d][j];
  edge::dg::QuadraturePoints::getQpts( EL, n, (real_mesh const (*)[NV]) flat, x[0], x[1], x[2], w );
  double I = 0, ref = 0, R = 0; P mn{{1e9,1e9,1e9}};
  for( size_t q = 0; q < w.size(); q++ ) { P p{{0,0,0}}; for( int d = 0; d < DIM; d++ ) p[d] = x[d][q]; I += w[q]*mono( e, p ); VH_REQUIRE( w[q] > 0, "weight", "weight of point %d is %g", int(q), double(w[q]) ); }
  for( size_t q = 0; q < hi().w.size(); q++ ) { double f = mono( e, ge.map( hi().p[q] ) )*hi().w[q]*ge.det(); R += f; ref += std::abs( f ); }
  VH_REQUIRE( std::abs( I-R ) <= EPS*( ref+1 ), "quadrature", "integral is %.12g instead of %.12g", I, R );
}
static void basisFun() {
  int m = vh::choose( NM ), k = vh::choose( NM+1 );
  vh::note( "mode %d with %d", m, k ); id(); vh::nontrivial();
  if( k < NM ) {
    if( k != m ) VH_REQUIRE( std::abs( g_mass[m*NM+k] ) <= EPS, "orthogonal", "modes aren't orthogonal: %g", g_mass[m*NM+k] );
    else VH_REQUIRE( g_mass[m*NM+m] > 1e-6, "degenerate", "mode vanishes" );
    return;
  }
  // derivatives by high-order differences, exact for polynomials of degree up to eight
  static double const c[4] = {4./5,-1./5,4./105,-1./280};
  for( int i = 0; i < 27; i++ ) { P p{{.1013+.17*(i%3), DIM > 1 ? .1327+.15*(i/3%3) : 0, DIM > 2 ? .1119+.13*(i/9) : 0}};
    for( int d = 0; d < DIM; d++ ) { double D = 0, h = sizeof(real_base) == 4 ? .1 : .05, sc = 1;
      for( int s = 1; s <= 4; s++ ) { P a = p, b = p; a[d] += s*h; b[d] -= s*h; double fa = basis( EL, m, a ), fb = basis( EL, m, b ); D += c[s-1]*( fa-fb )/h; sc = std::max( sc, std::abs( fa )+std::abs( fb ) ); }
      double v = basis( EL, m, p, d ); VH_REQUIRE( std::abs( v-D ) <= EPS*10*sc/h, "derivative", "mode %d direction %d at (%g,%g,%g): %.12g instead of %.12g", m, d, p[0], p[1], p[2], v, D );
      if( m == 0 ) VH_REQUIRE( v == 0, "constant", "mode 0 isn't constant" ); }
    double pt[3] = {p[0],p[1],p[2]}; real_mesh rp[3] = {real_mesh(pt[0]),real_mesh(pt[1]),real_mesh(pt[2])}; std::vector<real_base> md( NM, 0 ); md[m] = 2; md[0] += 1;
    double want = 2*basis( EL, m, p )+basis( EL, 0, p ), got = g_basis->modal2ptval( rp, md.data() );
    VH_REQUIRE( std::abs( got-want ) <= EPS*(1+std::abs(want)), "modal2ptval", "mode %d at (%g,%g,%g): %.12g instead of %.12g", m, p[0], p[1], p[2], got, want ); }
  for( int o = 1; o <= ORDER+1; o++ ) { std::vector<real_mesh> x[3]; std::vector<real_base> w; edge::dg::QuadraturePoints::getQpts( EL, o, C_REF_ELEMENT.VE.ENT[EL], x[0], x[1], x[2], w );
    std::vector<real_base> md( NM, 0 ); md[m] = 2; md[0] += 1;
    for( size_t q = 0; q < w.size(); q++ ) { P p{{x[0][q], DIM > 1 ? x[1][q] : 0, DIM > 2 ? x[2][q] : 0}}; double want = 2*basis( EL, m, p )+basis( EL, 0, p ), got = g_basis->modal2refPtVal( o, q, md.data() );
      VH_REQUIRE( std::abs( got-want ) <= EPS*(1+std::abs(want)), "modal2refPtVal", "mode %d, order %d, point %d: %.12g instead of %.12g", m, o, int(q), got, want ); } }
  std::vector<real_base> mi( NM*NM ); for( int r = 0; r < 2; r++ ) { g_basis->getMassInvDense( NM, mi.data(), r ); for( int j = 0; j < NM; j++ ) { double s = 0; for( int l = 0; l < NM; l++ ) s += mi[m*NM+l]*g_mass[l*NM+j]; VH_REQUIRE( std::abs( s-(j==m) ) <= EPS*10, "massInv", "row %d column %d of the mass matrix times its inverse: %g", m, j, s ); } }
}
template< class Q, bool E > struct Wrap { template< class A, class B, class C > static void element( A & a, B & b, C & c ) { Q::element( a, b, c ); } };
template< class Q > struct Wrap< Q, false > { template< class A, class B, class C > static void element( A &, B &, C & ) {} };
template< t_entityType T > struct Faces { static void run() {
  int const NQ = CE_N_FACE_QUAD_POINTS( T, ORDER ), NE = CE_N_QUAD_POINTS( T, ORDER );
  typedef edge::dg::QuadratureEval< T, ORDER, ORDER, 2 > Q;
  static real_mesh pts[(NO+1)*NF][NQ][DIM]; static real_base w[NQ], ev[(NO+1)*NF][NQ][NM];
  static real_base ep[NE][DIM], ew[NE], ee[NE][NM];
  int f = vh::choose( NF ), o = vh::choose( NO+1 );
  vh::note( "quadrature points of face %d, option %d", f, o-1 ); id(); vh::nontrivial();
  Q::faces( pts, w, ev );
  std::vector<real_mesh> x[3]; std::vector<real_base> fw; edge::dg::QuadraturePoints::getQpts( FA, ORDER, C_REF_ELEMENT.VE.ENT[FA], x[0], x[1], x[2], fw );
  VH_REQUIRE( fw.size() == NQ, "size", "%d points", int(fw.size()) );
  for( int q = 0; q < NQ; q++ ) { P c{{x[0][q], DIM > 2 ? x[1][q] : 0, 0}}; P e = faToEl( f, o ? faToFa( o-1, c ) : c ); int r = o ? NF+f*NO+o-1 : f;
    if( o && EL == HEX8R ) e = faToEl( f, P{{c[1],c[0],0}} );
    for( int d = 0; d < DIM; d++ ) VH_REQUIRE( std::abs( pts[r][q][d]-e[d] ) <= EPS, "face-points", "point %d coordinate %d: %.12g instead of %.12g", q, d, double(pts[r][q][d]), e[d] );
    VH_REQUIRE( std::abs( w[q]-fw[q] ) <= EPS, "face-weights", "weight %d is %g instead of %g", q, double(w[q]), double(fw[q]) );
    for( int m = 0; m < NM; m++ ) { double b = basis( EL, m, e ); VH_REQUIRE( std::abs( ev[r][q][m]-b ) <= EPS*(1+std::abs(b)), "face-basis", "mode %d at point %d: %.12g instead of %.12g", m, q, double(ev[r][q][m]), b ); }
    real_base dofs[NM][2], out[2]; double s[2] = {0,0}; for( int m = 0; m < NM; m++ ) for( int c = 0; c < 2; c++ ) { dofs[m][c] = std::sin( 1.+m*3+c*7 ); s[c] += dofs[m][c]*double(ev[r][q][m]); }
    Q::evalBasis( ev[r][q], dofs, out ); for( int c = 0; c < 2; c++ ) VH_REQUIRE( std::abs( out[c]-s[c] ) <= EPS*NM, "evalBasis", "run %d: %g instead of %g", c, double(out[c]), s[c] ); }
  if( sizeof(real_base) != sizeof(real_mesh) ) return;
  Wrap< Q, sizeof(real_base) == sizeof(real_mesh) >::element( ep, ew, ee ); double sum = 0;
  for( int q = 0; q < NE; q++ ) { P p{{0,0,0}}; for( int d = 0; d < DIM; d++ ) p[d] = ep[q][d]; sum += ew[q]; for( int m = 0; m < NM; m++ ) { double b = basis( EL, m, p ); VH_REQUIRE( std::abs( ee[q][m]-b ) <= EPS*(1+std::abs(b))*10, "element-basis", "mode %d at point %d: %.12g instead of %.12g", m, q, double(ee[q][m]), b ); } }
  if( EL != TET4 || ORDER > 1 ) VH_REQUIRE( std::abs( sum-(EL == TET4 ? 1./6 : EL == TRIA3 ? .5 : 1) ) <= EPS, "element-weights", "sum of the weights is %g", sum );
} };
template<> struct Faces< LINE > { static void run() { vh::skip(); } };
struct VeC { double coords[3]; }; struct ElC {};
static void initial() {
  int const NQ = 2, NC = 3; typedef edge::setups::InitialDofs< EL, ORDER, NQ, NC > I;
  int deg = ORDER-1, e[3], k = vh::choose( nMono( ORDER ) ); if( !monomial( k, ORDER, SIMPLEX, e ) ) vh::skip();
  bool in = monomial( k, ORDER, SIMPLEX, e ) && ( SIMPLEX ? e[0]+e[1]+e[2] <= deg : std::max( e[0], std::max( e[1], e[2] ) ) <= deg );
  int first = vh::choose( 3 ), size = vh::choose( 3 ), qt = vh::choose( NQ ), cr = vh::choose( NC ); bool unset = vh::choose( 2 );
  vh::note( "initial values x^%d y^%d z^%d in quantity %d of run %d, elements %d to %d%s", e[0], e[1], e[2], qt, cr, first, first+size, unset ? ", other quantities aren't set" : "" ); id(); vh::nontrivial();
  // independent elements
  int const NE = 4; std::vector<VeC> ve; static std::size_t elVe[NE][NV]; Ge ge[NE];
  for( int i = 0; i < NE; i++ ) { ge[i] = geo( i ); for( int v = 0; v < NV; v++ ) { VeC c; for( int d = 0; d < 3; d++ ) c.coords[d] = ge[i].v[d][v]; elVe[i][v] = ve.size(); ve.push_back( c ); } }
  std::string s[NC]; for( int c = 0; c < NC; c++ ) for( int q = 0; q < NQ; q++ ) { std::ostringstream o; if( unset && q != qt ) continue; o << q << " " << (q+1)*.5*(c+1) << " 0 0 0 "; if( q == qt && c == cr ) o << q << " 1 " << e[0] << " " << e[1] << " " << e[2] << " "; s[c] += o.str(); }
  static real_base dofs[NE][NQ][NM][NC]; for( auto & a : dofs ) for( auto & b : a ) for( auto & c : b ) for( auto & d : c ) d = 77;
  I::dg( std::size_t(first), std::size_t(size), s, *g_basis, elVe, ve.data(), dofs );
  for( int i = 0; i < NE; i++ ) for( int q = 0; q < NQ; q++ ) for( int c = 0; c < NC; c++ ) {
    bool sel = i >= first && i < first+size;
    if( !sel ) { for( int m = 0; m < NM; m++ ) VH_REQUIRE( dofs[i][q][m][c] == 77, "range", "element %d was changed", i ); continue; }
    double base = unset && q != qt ? 0 : (q+1)*.5*(c+1); bool has = q == qt && c == cr;
    V r( NM, 0 ); double sc = 1;
    for( size_t p = 0; p < hi().p.size(); p++ ) { double f = base+( has ? mono( e, ge[i].map( hi().p[p] ) ) : 0 ), u = 0; for( int m = 0; m < NM; m++ ) { double b = 0; b = basis( EL, m, hi().p[p] ); r[m] += hi().w[p]*f*b; } (void) u; sc = std::max( sc, std::abs( f ) ); }
    for( int m = 0; m < NM; m++ ) { double x = r[m]/g_mass[m*NM+m]; VH_REQUIRE( std::abs( dofs[i][q][m][c]-x ) <= EPS*10*sc, "projection", "element %d quantity %d run %d mode %d: %.12g instead of %.12g", i, q, c, m, double(dofs[i][q][m][c]), x ); }
    if( in ) for( int p = 0; p < 8; p++ ) { P x{{.1+.2*(p&1),DIM>1?.15+.25*(p/2&1):0,DIM>2?.05+.4*(p/4):0}}; double v = 0; for( int m = 0; m < NM; m++ ) v += dofs[i][q][m][c]*basis( EL, m, x ); double w = base+( has ? mono( e, ge[i].map( x ) ) : 0 );
      VH_REQUIRE( std::abs( v-w ) <= EPS*20*sc, "reproduction", "element %d quantity %d run %d: value %.12g instead of %.12g", i, q, c, v, w ); }
  }
  // error norms of the exact solution shifted by constants (and by a monomial of one sign)
  if( in && size && !unset ) {
    for( int mode = 0; mode < 2; mode++ ) {
      double l1[NQ][NC], l2[NQ][NC], li[NQ][NC]; std::string t[NC];
      for( int c = 0; c < NC; c++ ) for( int q = 0; q < NQ; q++ ) { std::ostringstream o; o.precision( 17 ); o << q << " " << (q+1)*.5*(c+1)+( mode ? 0 : -.1*(c+1)*(q+2) ) << " 0 0 0 "; if( q == qt && c == cr ) o << q << " " << 1+.25*mode << " " << e[0] << " " << e[1] << " " << e[2] << " "; t[c] += o.str(); }
      I::err( std::size_t(first), std::size_t(size), t, *g_basis, elVe, ve.data(), (ElC*) nullptr, dofs, l1, l2, li );
      for( int q = 0; q < NQ; q++ ) for( int c = 0; c < NC; c++ ) { bool has = q == qt && c == cr; double a = 0, b = 0, mx = 0, vol = 0;
        for( int i = first; i < first+size; i++ ) for( size_t p = 0; p < hi().p.size(); p++ ) { double d = mode ? ( has ? .25*mono( e, ge[i].map( hi().p[p] ) ) : 0 ) : .1*(c+1)*(q+2); d = std::abs( d ); double w = hi().w[p]*ge[i].det(); a += w*d; b += w*d*d; mx = std::max( mx, d ); vol += w; }
        double tol = EPS*50*( 1+mx*mx )*( 1+vol );
        if( SIMPLEX && 2*deg > 2*(ORDER+1)-DIM && mode ) continue;
        VH_REQUIRE( std::abs( l1[q][c]-a ) <= tol, "l1", "quantity %d run %d: %.12g instead of %.12g", q, c, l1[q][c], a );
        VH_REQUIRE( std::abs( l2[q][c]-b ) <= tol, "l2", "quantity %d run %d: squared norm %.12g instead of %.12g", q, c, l2[q][c], b );
        if( !mode ) VH_REQUIRE( std::abs( li[q][c]-mx ) <= tol, "linf", "quantity %d run %d: %.12g instead of %.12g", q, c, li[q][c], mx );
        else VH_REQUIRE( li[q][c] <= mx*1.1+tol && li[q][c] >= a/vol-tol, "linf", "quantity %d run %d: %.12g isn't between the mean %.12g and the maximum %.12g", q, c, li[q][c], a/vol, mx ); }
    }
  }
}
//! all generated basis functions (beyond the modes of the configured order)
static void allModes() {
  // highest degrees of the generated functions
  int const O = DIM == 1 ? 10 : EL == TRIA3 ? 10 : EL == TET4 ? ( vh::thorough() ? 11 : 8 ) : EL == QUAD4R ? 8 : vh::thorough() ? 5 : 3;
  int n = 1; if( SIMPLEX ) { n = EL == TRIA3 ? O*(O+1)/2 : O*(O+1)*(O+2)/6; } else for( int d = 0; d < DIM; d++ ) n *= O;
  if( sizeof(real_base) == 4 || ORDER == 1 || ( EL == TET4 && ORDER != 3 ) || ( EL == HEX8R && ORDER != 2 ) ) vh::skip();
  int m = vh::choose( n ); vh::note( "generated basis function %d of %d", m, n ); id(); vh::nontrivial();
  auto ev = [&]( int b, P const & p, int d ) { return edge::dg::Basis::evalBasis( b, EL, p[0], p[1], p[2], d, O ); };
  static V s_tab, s_w; static int s_n = 0;
  if( !s_n ) { s_n = n; V x, q; gauss( O+1, x, q ); int l = x.size();
    std::vector<P> pts;
    for( int i = 0; i < l; i++ ) for( int j = 0; j < ( DIM > 1 ? l : 1 ); j++ ) for( int k = 0; k < ( DIM > 2 ? l : 1 ); k++ ) {
      P r{{x[i],0,0}}; double u = q[i], s = 1-x[i]; if( DIM > 1 ) { r[1] = SIMPLEX ? x[j]*s : x[j]; u *= q[j]*( SIMPLEX ? s : 1 ); s -= r[1]; } if( DIM > 2 ) { r[2] = SIMPLEX ? x[k]*s : x[k]; u *= q[k]*( SIMPLEX ? s : 1 ); }
      pts.push_back( r ); s_w.push_back( u ); }
    s_tab.resize( n*pts.size() ); for( int b = 0; b < n; b++ ) for( size_t i = 0; i < pts.size(); i++ ) s_tab[b*pts.size()+i] = ev( b, pts[i], -1 ); }
  size_t np = s_w.size(); double mm = 0; for( size_t i = 0; i < np; i++ ) mm += s_w[i]*s_tab[m*np+i]*s_tab[m*np+i];
  VH_REQUIRE( mm > 1e-12, "degenerate", "function vanishes" );
  for( int k = 0; k < m; k++ ) { double s = 0, kk = 0; for( size_t i = 0; i < np; i++ ) { s += s_w[i]*s_tab[m*np+i]*s_tab[k*np+i]; kk += s_w[i]*s_tab[k*np+i]*s_tab[k*np+i]; }
    VH_REQUIRE( std::abs( s ) <= 1e-9*std::sqrt( kk*mm ), "orthogonal", "not orthogonal to function %d: %g", k, s ); }
  // exact differences for polynomials of degree up to ten
  static double const c[5] = {5./6,-5./21,5./84,-5./504,1./1260};
  for( int i = 0; i < ( DIM == 1 ? 5 : DIM == 2 ? 25 : 27 ); i++ ) { P p{{.23+.11*(i%5), DIM > 1 ? .21+.12*(i/5) : 0, 0}};
    if( DIM == 3 ) p = P{{.24+.07*(i%3), .23+.06*(i/3%3), .22+.05*(i/9)}};
    for( int d = 0; d < DIM; d++ ) { double D = 0, h = .04, sc = 1;
      for( int s = 1; s <= 5; s++ ) { P a = p, b = p; a[d] += s*h; b[d] -= s*h; double fa = ev( m, a, -1 ), fb = ev( m, b, -1 ); D += c[s-1]*( fa-fb )/h; sc = std::max( sc, std::abs( fa )+std::abs( fb ) ); }
      double v = ev( m, p, d ); VH_REQUIRE( std::abs( v-D ) <= 1e-11*sc/h, "derivative", "direction %d at (%g,%g,%g): %.12g instead of %.12g", d, p[0], p[1], p[2], v, D ); } }
}
int main( int argc, char ** argv ) { setup(); return vh::run( argc, argv, "projection", []{ int k = vh::choose( 5 ); if( k == 0 ) quadrature(); else if( k == 1 ) basisFun(); else if( k == 2 ) Faces< EL >::run(); else if( k == 3 ) allModes(); else initial(); } ); }
