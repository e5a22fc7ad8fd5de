#ifndef EDGE_SETUPS_INITIAL_DOFS_HPP
#define EDGE_SETUPS_INITIAL_DOFS_HPP
#include "constants.hpp"
#include "lts/lts.h"
#include "parallel/global.h"
namespace edge { namespace setups {
template< t_entityType EL, unsigned short O_SP, unsigned short N_Q, unsigned short N_CRS > struct InitialDofs {
  static unsigned short const NM = CE_N_ELEMENT_MODES( EL, O_SP );
  template< typename L, typename A, typename B, typename C2, typename D, typename T >
  static void dg( L first, L size, A const &, B const &, C2, D, T (*dofs)[N_Q][NM][N_CRS] ) {
    for( L e = first; e < first + size; e++ ) { double q[5]; lts::init( q, lts::P[ parallel::g_rank ].gid[e] ); 
#ifdef LTS_ADV
      double s = 0; for( int k = 0; k < NM; k++ ) { dofs[e][0][k][0] = k < 5 ? q[k] : k == 5 ? s : 0; if( k < 5 ) s += q[k]; } }
#else
      for( int k = 0; k < N_Q; k++ ) for( int m = 0; m < NM; m++ ) dofs[e][k][m][0] = q[k]; }
#endif
    }
  template< typename... A > static void err( A const &... ) {}
};
} }
#endif
