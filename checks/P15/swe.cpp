// Finite volume solver of the shallow water equations: all states of small meshes against a textbook f-wave solver and invariants.
#include <limits>
#include <algorithm>
#include "constants.hpp"
#include "impl/swe/solvers/FiniteVolume.hpp"
#include "vh.hpp"
#include <vector>
#include <array>
#include <map>
#include <cmath>
typedef std::array< double, 2 > V2;
static const double G = 9.80665;
struct Fa { size_t el[2]; double n[2], area; int bnd; };       // bnd: 0 inner, 1 reflecting, 2 outflow
struct Me { std::vector< double > vol, dia; std::vector< Fa > fa; std::vector< std::vector< size_t > > elFa; };
struct Ce { double h, hu[2], b; };

// textbook f-wave solver, left and right updates of (h, hu)
static void fwave( double hL, double hR, double huL, double huR, double bL, double bR, double o_u[2][2] ) {
  double uL = huL/hL, uR = huR/hR, hr = ( hL+hR )/2, ur = ( uL*std::sqrt( hL ) + uR*std::sqrt( hR ) ) / ( std::sqrt( hL ) + std::sqrt( hR ) );
  double l[2] = { std::min( uL-std::sqrt( G*hL ), ur-std::sqrt( G*hr ) ), std::max( uR+std::sqrt( G*hR ), ur+std::sqrt( G*hr ) ) };
  double d[2] = { huR-huL, huR*uR+G/2*hR*hR - huL*uL-G/2*hL*hL + G*hr*( bR-bL ) };
  double a[2] = { ( l[1]*d[0]-d[1] ) / ( l[1]-l[0] ), ( d[1]-l[0]*d[0] ) / ( l[1]-l[0] ) };
  for( int s = 0; s < 2; s++ ) for( int q = 0; q < 2; q++ ) o_u[s][q] = 0;
  for( int w = 0; w < 2; w++ ) { int s = l[w] > 0 || ( l[w] == 0 && w == 0 ) ? 1 : 0; o_u[s][0] += a[w]; o_u[s][1] += a[w]*l[w]; }
}
struct FaC { double area, outNormal[3]; long long spType; }; struct ElC { double volume, inDia; long long spType; };

template< t_entityType T_EL, unsigned short CR, typename R, int ND, int NF >
static void solve( Me const & m, std::vector< std::vector< Ce > > const & i_st, double i_dt, size_t i_cut, std::vector< std::vector< std::array< double, 3 > > > & o_st, double o_dt[3] ) {
  size_t n = m.vol.size(), nf = m.fa.size();
  std::vector< R > l_d( n*( ND+1 )*CR ), l_b( n ), l_nu( nf*4*CR, R( 77 ) );
  typedef R (*Dofs)[ND+1][1][CR]; typedef R (*Bath)[1][1]; typedef R (*Nus)[2][2][CR];
  Dofs d = (Dofs) l_d.data(); Bath b = (Bath) l_b.data(); Nus nu = (Nus) l_nu.data();
  std::vector< std::array< size_t, 2 > > l_fe( nf ); std::vector< std::array< size_t, NF > > l_ef( n ); std::vector< FaC > l_fc( nf ); std::vector< ElC > l_ec( n );
  for( size_t e = 0; e < n; e++ ) {
    for( int c = 0; c < CR; c++ ) { d[e][0][0][c] = i_st[c][e].h; for( int q = 0; q < ND; q++ ) d[e][1+q][0][c] = i_st[c][e].hu[q]; }
    b[e][0][0] = i_st[0][e].b; l_ec[e] = { m.vol[e], m.dia[e], 0 }; for( int f = 0; f < NF; f++ ) l_ef[e][f] = m.elFa[e][f];
  }
  for( size_t f = 0; f < nf; f++ ) { l_fe[f] = { m.fa[f].el[0], m.fa[f].el[1] }; l_fc[f] = { m.fa[f].area, { m.fa[f].n[0], m.fa[f].n[1], 0 }, ( m.fa[f].bnd == 1 ? (long long) REFLECTING : m.fa[f].bnd == 2 ? (long long) OUTFLOW : 0 ) | 32768 }; }
  typedef edge::swe::solvers::FiniteVolume< T_EL, CR > FV;
  FV::getTimeStepStatistics( n, l_ec.data(), (R const (*)[ND+1][1][CR]) d, o_dt[0], o_dt[1], o_dt[2] );
  typedef size_t const (*FE)[2]; typedef size_t const (*EF)[NF];
  size_t l_c = std::min( i_cut, nf );
  FV::nusN( l_c, nf-l_c, (FE) l_fe.data(), l_fc.data(), (R const (*)[ND+1][1][CR]) d, (R const (*)[1][1]) b, nu );
  FV::nusN( size_t( 0 ), l_c, (FE) l_fe.data(), l_fc.data(), (R const (*)[ND+1][1][CR]) d, (R const (*)[1][1]) b, nu );
  l_c = std::min( i_cut, n );
  FV::update( l_c, n-l_c, R( i_dt ), (FE) l_fe.data(), (EF) l_ef.data(), l_fc.data(), l_ec.data(), (R const (*)[2][2][CR]) nu, d );
  FV::update( size_t( 0 ), l_c, R( i_dt ), (FE) l_fe.data(), (EF) l_ef.data(), l_fc.data(), l_ec.data(), (R const (*)[2][2][CR]) nu, d );
  o_st.assign( CR, std::vector< std::array< double, 3 > >( n ) );
  for( int c = 0; c < CR; c++ ) for( size_t e = 0; e < n; e++ ) for( int q = 0; q < 3; q++ ) o_st[c][e][q] = q <= ND ? (double) d[e][q][0][c] : 0;
}

// polygons in 2D
static Me poly( std::vector< V2 > const & c, std::vector< std::vector< int > > const & els, int i_bnd, int i_flip ) {
  Me m; std::map< std::pair< int, int >, size_t > l_id;
  for( size_t e = 0; e < els.size(); e++ ) {
    double a = 0; size_t k = els[e].size(); m.elFa.push_back( {} );
    for( size_t v = 0; v < k; v++ ) {
      V2 p = c[ els[e][v] ], q = c[ els[e][(v+1)%k] ]; a += ( p[0]*q[1]-p[1]*q[0] )/2;
      auto key = std::minmax( els[e][v], els[e][(v+1)%k] ); double l = std::hypot( q[0]-p[0], q[1]-p[1] );
      if( !l_id.count( key ) ) { l_id[key] = m.fa.size(); m.fa.push_back( { { e, std::numeric_limits< size_t >::max() }, { ( q[1]-p[1] )/l, -( q[0]-p[0] )/l }, l, i_bnd } ); }
      else { Fa & f = m.fa[ l_id[key] ]; f.el[1] = e; f.bnd = 0; }
      m.elFa.back().push_back( l_id[key] );
    }
    m.vol.push_back( a ); m.dia.push_back( std::sqrt( a ) * 0.7 );
  }
  int k = 0; for( Fa & f : m.fa ) if( f.bnd == 0 && ( ( i_flip >> k++ ) & 1 ) ) { std::swap( f.el[0], f.el[1] ); f.n[0] *= -1; f.n[1] *= -1; }
  return m;
}

static void body() {
  bool T = vh::thorough();
  int l_ty = vh::choose( 5 ); // line, quad strip, quad 2x2, trias; line periodic
  Me m; int ND = l_ty == 0 || l_ty == 4 ? 1 : 2, l_bnd = 1 + vh::choose( 2 ), l_flip = 0;
  if( ND == 1 ) {
    size_t n = l_ty == 4 ? 3 : 1 + vh::choose( 3 );
    l_flip = vh::choose( 2 );
    for( size_t e = 0; e < n; e++ ) { m.vol.push_back( e == 1 ? 2 : 1 ); m.dia.push_back( e == 1 ? 2 : 1 ); m.elFa.push_back( { e, e+1 } ); }
    for( size_t f = 0; f <= n; f++ ) {
      Fa x; x.area = 1; x.n[1] = 0; x.bnd = 0;
      if( l_ty == 4 && f == n ) { m.elFa[n-1][1] = 0; continue; }
      if( f == 0 && l_ty != 4 ) x = { { 0, std::numeric_limits< size_t >::max() }, { -1, 0 }, 1, l_bnd };
      else if( f == n ) x = { { n-1, std::numeric_limits< size_t >::max() }, { 1, 0 }, 1, 3-l_bnd };
      else { size_t a = f == 0 ? n-1 : f-1, b = f; if( l_flip && f%2 == 1 ) x = { { b, a }, { -1, 0 }, 1, 0 }; else x = { { a, b }, { 1, 0 }, 1, 0 }; }
      m.fa.push_back( x );
    }
  }
  else {
    l_flip = vh::choose( 2 );
    if( l_ty == 1 ) m = poly( { {0,0},{1,0},{3,0},{0,1},{1,1},{3,1} }, { {0,1,4,3}, {1,2,5,4} }, l_bnd, l_flip );
    else if( l_ty == 2 ) m = poly( { {0,0},{1,0},{2,0},{0,1},{1,1},{2,1},{0,2},{1,2},{2,2} }, { {0,1,4,3}, {1,2,5,4}, {3,4,7,6}, {4,5,8,7} }, l_bnd, l_flip ? 5 : 0 );
    else m = poly( { {0,0},{2,0},{2,1},{0,1} }, { {0,1,2}, {0,2,3} }, l_bnd, l_flip );
  }
  size_t n = m.vol.size();
  // states
  static const double H[] = { 1, 4, 0.25 }, U[] = { 0, 1, -9, 5 }, B[] = { -1, -4, 0.5 };
  int l_mode = vh::choose( 2 ); // 0: arbitrary, 1: lake at rest
  std::vector< Ce > s( n ); bool l_allWet = true, l_flat = true;
  for( auto & c : s ) {
    int b = vh::choose( n > 2 && !T ? ( l_mode ? 3 : 2 ) : 3 ); if( n > 2 && !T && l_mode == 0 ) b = b ? 2 : 0;
    c.b = B[b]; c.hu[0] = c.hu[1] = 0;
    if( c.b > 0 ) { c.h = 0; l_allWet = false; continue; }
    if( l_mode ) c.h = -c.b;
    else {
      c.h = H[ n > 2 ? vh::choose( T && n < 4 ? 3 : 2 ) : vh::choose( 3 ) ];
      double u = U[ n > 2 ? vh::choose( n > 3 ? 2 : 3 ) : vh::choose( 4 ) ]; c.hu[0] = c.h*u;
      if( ND == 2 ) c.hu[1] = c.h * U[ vh::choose( n > 3 ? 2 : 3 ) ];
    }
  }
  for( auto & c : s ) if( c.b != s[0].b ) l_flat = false;
  size_t l_cut = vh::choose( 2 ) ? 1 : 0;
  double l_dt = 0.0625;
  vh::note( "mesh %d, cells %zu, boundary %d, flip %d, ", l_ty, n, l_bnd, l_flip ); for( auto & c : s ) vh::note( "[h=%g hu=%g,%g b=%g] ", c.h, c.hu[0], c.hu[1], c.b );
  // reference
  std::vector< std::array< double, 3 > > l_ref( n ); double l_out = 0;
  for( size_t e = 0; e < n; e++ ) l_ref[e] = { s[e].h, s[e].hu[0], s[e].hu[1] };
  double l_speed = 0;
  for( auto & f : m.fa ) {
    Ce const & a = s[ f.el[0] ]; Ce b = f.bnd ? a : s[ f.el[1] ];
    double na = a.hu[0]*f.n[0] + a.hu[1]*f.n[1], nb = b.hu[0]*f.n[0] + b.hu[1]*f.n[1];
    if( f.bnd == 1 ) nb = -na;
    bool wa = a.b < 0, wb = b.b < 0; if( !wa && !wb ) continue;
    double u[2][2];
    if( wa && wb ) fwave( a.h, b.h, na, nb, a.b, b.b, u ); else if( wa ) fwave( a.h, a.h, na, -na, a.b, a.b, u ); else fwave( b.h, b.h, -nb, nb, b.b, b.b, u );
    for( int k = 0; k < 2; k++ ) { if( !( k ? wb : wa ) || ( k && f.bnd ) ) continue; size_t e = f.el[k]; double c = l_dt * f.area / m.vol[e];
      l_ref[e][0] -= c*u[k][0]; for( int q = 0; q < ND; q++ ) l_ref[e][1+q] -= c*f.n[q]*u[k][1]; l_speed = std::max( l_speed, std::abs( u[k][1] )*c ); }
  }
  auto l_check = [&]( std::vector< std::array< double, 3 > > const & r, double tol, char const * w ) {
    double l_m[2] = { 0, 0 };
    for( size_t e = 0; e < n; e++ ) {
      for( int q = 0; q <= ND; q++ ) VH_REQUIRE( std::abs( r[e][q]-l_ref[e][q] ) <= tol * ( 1 + std::abs( l_ref[e][q] ) + l_speed ), "step", "%s: cell %zu, quantity %d is %.12g after the step, expected %.12g", w, e, q, r[e][q], l_ref[e][q] );
      if( s[e].b > 0 ) VH_REQUIRE( r[e][0] == 0 && r[e][1] == 0 && r[e][2] == 0, "dry", "%s: dry cell %zu changed", w, e );
      if( l_mode ) VH_REQUIRE( std::abs( r[e][0]-s[e].h ) <= tol*10 && std::abs( r[e][1] ) <= tol*10 && std::abs( r[e][2] ) <= tol*10, "lake", "%s: lake at rest moves in cell %zu: %g %g %g", w, e, r[e][0], r[e][1], r[e][2] );
      l_m[0] += s[e].h*m.vol[e]; l_m[1] += r[e][0]*m.vol[e];
    }
    bool l_closed = true; for( auto & f : m.fa ) if( f.bnd == 2 && s[ f.el[0] ].b < 0 && std::abs( s[ f.el[0] ].hu[0]*f.n[0]+s[ f.el[0] ].hu[1]*f.n[1] ) > 0 ) l_closed = false;
    // water is conserved: the wet boundaries which reflect are closed by symmetry
    if( l_closed ) VH_REQUIRE( std::abs( l_m[0]-l_m[1] ) <= tol*20*( 1 + l_m[0] + l_speed ), "mass", "%s: amount of water changes from %.12g to %.12g", w, l_m[0], l_m[1] );
  };
  std::vector< std::vector< std::array< double, 3 > > > r; double l_d[3], l_d2[3];
  std::vector< std::vector< Ce > > l_one( 1, s ), l_two( 2, s ), l_two2( 2, s );
  for( auto & c : l_two[1] ) if( c.b < 0 ) { c.h += 0.5; c.hu[0] += 0.25; } // other run, same bathymetry
  std::swap( l_two2[0], l_two2[1] ); l_two2[0] = l_two[1];
  #define RUN( E, NDI, NFA ) \
    solve< E, 1, double, NDI, NFA >( m, l_one, l_dt, l_cut, r, l_d ); l_check( r[0], 1E-12, "double" ); auto l_r1 = r[0]; \
    solve< E, 2, double, NDI, NFA >( m, l_two, l_dt, l_cut, r, l_d2 ); l_check( r[0], 1E-12, "fused, first" ); \
    for( size_t e = 0; e < n; e++ ) for( int q = 0; q < 3; q++ ) VH_REQUIRE( r[0][e][q] == l_r1[e][q], "fused", "the result of a run depends on the other one" ); \
    auto l_r2 = r[1]; solve< E, 2, double, NDI, NFA >( m, l_two2, l_dt, 1-l_cut, r, l_d2 ); l_check( r[1], 1E-12, "fused, second" ); \
    for( size_t e = 0; e < n; e++ ) for( int q = 0; q < 3; q++ ) VH_REQUIRE( r[0][e][q] == l_r2[e][q] && r[1][e][q] == l_r1[e][q], "fused", "results depend on the position of the runs" ); \
    double l_df[3]; solve< E, 1, float, NDI, NFA >( m, l_one, l_dt, l_cut, r, l_df ); l_check( r[0], 1E-4, "float" );
  if( ND == 1 ) { RUN( LINE, 1, 2 ) } else if( l_ty == 3 ) { RUN( TRIA3, 2, 3 ) } else { RUN( QUAD4R, 2, 4 ) }
  // time steps: bounded by the wave speeds of all cells, runs and directions
  auto l_lim = [&]( std::vector< std::vector< Ce > > const & x, bool i_sum ) { double d = std::numeric_limits< double >::max(); for( auto & st : x ) for( size_t e = 0; e < n; e++ ) if( st[e].h > 0 ) {
    double u = i_sum ? ( std::abs( st[e].hu[0] )+std::abs( st[e].hu[1] ) )/st[e].h : std::hypot( st[e].hu[0], st[e].hu[1] )/st[e].h; d = std::min( d, 0.9*m.dia[e]/ND/( u+std::sqrt( G*st[e].h ) ) ); } return d; };
  VH_REQUIRE( l_d[0] <= l_lim( l_one, false )*( 1+1E-12 ), "cfl", "time step %.12g exceeds the CFL limit %.12g", l_d[0], l_lim( l_one, false ) );
  VH_REQUIRE( l_d2[0] <= l_lim( l_two, false )*( 1+1E-12 ), "cfl", "time step %.12g of the fused runs exceeds the CFL limit %.12g", l_d2[0], l_lim( l_two, false ) );
  VH_REQUIRE( l_d[0] >= l_lim( l_one, true )*( 1-1E-12 ), "cfl", "time step %.12g is smaller than required, %.12g", l_d[0], l_lim( l_one, true ) );
  if( l_allWet ) {
    VH_REQUIRE( l_d[0] <= l_d[1]*( 1+1E-12 ) && l_d[1] <= l_d[2]*( 1+1E-12 ), "stats", "minimum, average, maximum time steps are %g, %g, %g", l_d[0], l_d[1], l_d[2] );

  }
  if( !l_mode && !l_flat ) vh::nontrivial();
  (void) l_out; vh::obs( l_ty*4+l_bnd*2+l_flip ); for( size_t e = 0; e < n; e++ ) for( int q = 0; q < 3; q++ ) vh::obs( (long long) ( l_ref[e][q]*1E6 ) );
}
int main( int c, char ** v ) { return vh::run( c, v, "swe", body ); }
