// Exhaustive enumeration of sampled series x integration intervals against the exact integral of the piecewise linear interpolant.
#include "io/logging.h"
#include "linalg/Series.hpp"
#include "vh.hpp"
#include <vector>
#include <cmath>

// exact integral of the piecewise linear function (na outside of the samples)
static double ref( double dx, double xs, std::vector< double > const & v, double x1, double x2, double na ) {
  double l_end = xs + ( v.size()-1 )*dx, r = 0;
  double a = std::min( std::max( x1, xs ), l_end ), b = std::min( std::max( x2, xs ), l_end );
  r += na * ( ( x2-x1 ) - ( b-a ) );
  for( size_t c = 0; c+1 < v.size(); c++ ) {
    double lo = std::max( a, xs+c*dx ), hi = std::min( b, xs+(c+1)*dx );
    if( hi <= lo ) continue;
    double s = ( v[c+1]-v[c] )/dx;
    double f1 = v[c] + s*( lo-xs-c*dx ), f2 = v[c] + s*( hi-xs-c*dx );
    r += 0.5*( f1+f2 )*( hi-lo );
  }
  return r;
}

template< typename R, unsigned short N >
static void go( double dx, double xs, std::vector< std::vector< double > > const & v, double x1, double x2, double na, double tol ) {
  size_t n = v[0].size();
  std::vector< R > l_v( n*N );
  for( unsigned short s = 0; s < N; s++ ) for( size_t p = 0; p < n; p++ ) l_v[p*N+s] = v[s][p];
  R l_int[N];
  for( unsigned short s = 0; s < N; s++ ) l_int[s] = 77;
  edge::linalg::Series< N >::integrate( R(dx), R(xs), n, (R const (*)[N]) l_v.data(), R(x1), R(x2), l_int, R(na) );
  for( unsigned short s = 0; s < N; s++ ) {
    double r = ref( dx, xs, v[s], x1, x2, na );
    VH_REQUIRE( vh::close( l_int[s], r, tol ), "integral", "series %d: integral over [%g,%g] is %g, exact %g", s, x1, x2, (double) l_int[s], r );
    vh::obs( l_int[s] );
  }
}

static void body() {
  static const double l_dxs[] = { 1.0, 0.5, 0.001953125 };
  static const double l_xss[] = { 0.0, 3.0, -1.0 };
  static const double l_vals[] = { 0.0, 1.0, -2.0 };
  int l_prec = vh::choose( 2 );
  double dx = vh::pick( l_dxs ), xs = vh::pick( l_xss );
  double na = vh::choose( 2 ) ? 0.5 : 0.0;
  int n = 1 + vh::choose( vh::thorough() ? 5 : 4 );
  // all intervals on a sub-grid of a quarter (half) of the sampling distance, reaching over both ends
  int l_nG = ( n-1 )*4 + 2*5;
  int i1 = vh::choose( l_nG+1 );
  int i2 = i1 + vh::choose( l_nG+1-i1 );
  double x1 = xs + ( i1-5 )*0.25*dx, x2 = xs + ( i2-5 )*0.25*dx;
  std::vector< double > v;
  for( int p = 0; p < n; p++ ) v.push_back( vh::pick( l_vals ) );
  std::vector< double > w( v.rbegin(), v.rend() ), u( n, 4.0 );
  std::vector< std::vector< double > > l_s = { v, w, u };
  vh::note( "prec=%d dx=%g start=%g na=%g [%g,%g] vals=", l_prec, dx, xs, na, x1, x2 );
  for( double y : v ) vh::note( "%g ", y );
  if( l_prec == 0 ) { go< double, 3 >( dx, xs, l_s, x1, x2, na, 1E-9 ); go< double, 1 >( dx, xs, l_s, x1, x2, na, 1E-9 ); }
  else go< float, 1 >( dx, xs, l_s, x1, x2, na, 1E-5 );
  vh::obs( x1 ); vh::obs( x2 ); vh::obs( dx ); vh::obs( xs ); vh::obs( l_prec ); for( double y : v ) vh::obs( y );
  if( i2 > i1 && n > 1 && i1 > 0 && i2 < l_nG ) vh::nontrivial();
}
int main( int c, char ** v ) { return vh::run( c, v, "series", body ); }
