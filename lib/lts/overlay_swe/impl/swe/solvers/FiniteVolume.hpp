#ifndef EDGE_SWE_SOLVERS_FINITE_VOLUME_HPP
#define EDGE_SWE_SOLVERS_FINITE_VOLUME_HPP
// finite volume solver on tagged data: DOFs of an element hold its id+1, its time and the number of its steps; net-updates hold the face's id+1 and the time of the used DOFs
#include "constants.hpp"
#include "lts/lts.h"
#include "parallel/global.h"
namespace edge { namespace swe { namespace solvers {
template< t_entityType TL_T_EL, unsigned short TL_N_CRS > struct FiniteVolume {
  static int id( double q ) { int g = int( q ) - 1; if( !( q >= 1 && q <= lts::S.n && q == g + 1 ) ) eng_fail( "the DOFs of no element are used (%g)", q ); return g; }
  template< typename L, typename C, typename R > static void getTimeStepStatistics( L, C, R, double & o_min, double & o_ave, double & o_max ) { o_min = o_ave = o_max = 1; }
  template< typename L, typename C, typename R >
  static void nusN( L first, L size, L const (*faEl)[2], C const *, R const (*dofs)[3][1][TL_N_CRS], R const (*bath)[1][1], R (*nus)[2][2][TL_N_CRS] ) {
    for( L f = first; f < first + size; f++ ) {
      double t[2];
      for( int s = 0; s < 2; s++ ) { L e = faEl[f][s]; if( e == std::numeric_limits< L >::max() ) { t[s] = t[0]; continue; }
        int g = id( dofs[e][0][0][0] ); if( lts::P[ parallel::g_rank ].gid[e] != g ) eng_fail( "face %d: data of element %d instead of %d", int( f ), g, lts::P[ parallel::g_rank ].gid[e] ); t[s] = dofs[e][1][0][0];
        if( bath[e][0][0] != R( lts::S.src[0] ? -( g + 1 ) : 0 ) ) eng_fail( "element %d: bathymetry %g", g, double( bath[e][0][0] ) ); }
      if( t[0] != t[1] ) eng_fail( "face %d: net-updates from an element at time %g and one at time %g", int( f ), t[0], t[1] );
      for( int s = 0; s < 2; s++ ) for( int c = 0; c < TL_N_CRS; c++ ) { nus[f][s][0][c] = f + 1; nus[f][s][1][c] = t[0] + 1; }
    }
  }
  template< typename L, typename C, typename D, typename R >
  static void update( L first, L size, R dt, L const (*faEl)[2], L const (*elFa)[3], C const *, D const *, R const (*nus)[2][2][TL_N_CRS], R (*dofs)[3][1][TL_N_CRS] ) {
    for( L e = first; e < first + size; e++ ) {
      int g = id( dofs[e][0][0][0] ); double t = dofs[e][1][0][0];
      if( !( dt >= 0 ) || dt > 1 + 1e-9 ) eng_fail( "element %d: time step %g (stable step: 1)", g, double( dt ) );
      if( t + dt > lts::S.end + 1e-9 ) eng_fail( "element %d: step [%g,%g] beyond the end", g, t, t + dt );
      for( int a = 0; a < 3; a++ ) { L f = elFa[e][a]; int s = faEl[f][0] != e;
        if( nus[f][s][0][0] != f + 1 || nus[f][s][1][0] != t + 1 ) eng_fail( "element %d at time %g: net-updates of face %d at time %g used", g, t, int( nus[f][s][0][0] ) - 1, double( nus[f][s][1][0] ) - 1 ); }
      dofs[e][1][0][0] = t + dt; dofs[e][2][0][0] += 1; eng_event( "element %d reaches time %g", g, t + dt );
    }
  }
};
} } }
#endif
