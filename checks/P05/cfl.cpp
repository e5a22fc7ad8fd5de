// Exhaustive enumeration of wave speeds x diameters for the CFL time steps of EDGE-V.
#include <limits>
#include <vector>
#include "models/Model.h"
#include "time/Cfl.h"
#include "vh.hpp"
using namespace edge_v;
struct Mod: models::Model {
  std::vector< double > v;
  void init( t_idx, double const (*)[3] ) {}
  void free() {}
  double getMinSpeed( t_idx ) const { return 0.001; }
  double getMaxSpeed( t_idx p ) const { return v.at( p ); }
};
static void body() {
  static const t_entityType l_tys[] = { LINE, TRIA3, QUAD4R, TET4 };
  t_entityType l_ty = vh::pick( l_tys );
  unsigned short nv = CE_N_VES( l_ty );
  static const double l_sp[] = { 1.0, 3.0, 8.0 };
  static const double l_di[] = { 1.0, 0.125, 10.0 };
  bool l_velEl = vh::choose( 2 );
  int l_share = vh::choose( 2 );
  t_idx n = 1 + vh::choose( 3 );
  // strip: consecutive elements share nv-1 vertices (or the elements are numbered in reverse)
  t_idx nVe = nv + n - 1;
  std::vector< t_idx > l_elVe( n*nv );
  for( t_idx e = 0; e < n; e++ ) for( unsigned short v = 0; v < nv; v++ ) l_elVe[e*nv+v] = l_share ? e+v : nVe-1-e-v;
  Mod m;
  t_idx l_nSp = l_velEl ? n : nVe;
  for( t_idx p = 0; p < l_nSp; p++ ) m.v.push_back( vh::pick( l_sp ) );
  std::vector< double > d;
  for( t_idx e = 0; e < n; e++ ) d.push_back( vh::pick( l_di ) );
  std::vector< double > l_crds( nVe*3, 0.0 );
  time::Cfl l_cfl( l_ty, nVe, n, l_elVe.data(), (double const (*)[3]) l_crds.data(), d.data(), l_velEl, m );
  std::vector< double > r( n );
  double l_min = 1E300;
  for( t_idx e = 0; e < n; e++ ) {
    double c = 0;
    if( l_velEl ) c = m.v[e];
    else { for( unsigned short v = 0; v < nv; v++ ) c += m.v[ l_elVe[e*nv+v] ]; c /= nv; }
    r[e] = d[e] / c;
    if( r[e] < l_min ) l_min = r[e];
  }
  vh::note( "type=%d nEls=%zu perElement=%d speeds=[", (int) l_ty, (size_t) n, l_velEl );
  for( double x : m.v ) vh::note( "%g ", x );
  vh::note( "] dia=[" ); for( double x : d ) vh::note( "%g ", x ); vh::note( "]" );
  bool l_one = false;
  for( t_idx e = 0; e < n; e++ ) {
    double t = l_cfl.getTimeSteps()[e];
    VH_REQUIRE( vh::close( t, r[e]/l_min, 1E-12 ), "ts", "element %zu: relative time step %g, expected %g", (size_t) e, t, r[e]/l_min );
    VH_REQUIRE( t > 1-1E-12, "min", "element %zu: relative time step %g below 1", (size_t) e, t );
    if( vh::close( t, 1, 1E-12 ) ) l_one = true;
    vh::obs( t );
  }
  VH_REQUIRE( l_one, "min", "no element with relative time step one" );
  if( n > 1 ) vh::nontrivial();
}
int main( int c, char ** v ) { return vh::run( c, v, "cfl", body ); }
