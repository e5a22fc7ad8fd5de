#ifndef EDGE_ADVECTION_KERNELS_VOL_INT_HPP
#define EDGE_ADVECTION_KERNELS_VOL_INT_HPP
#include "payload.hpp"
namespace edge { namespace advection { namespace kernels {
template< typename T, t_entityType EL, unsigned short O_SP, unsigned short N_CRS >
struct VolInt {
  static unsigned short const NM = CE_N_ELEMENT_MODES( EL, O_SP );
  VolInt( data::Dynamic & ) {}
  template< typename S2 > void apply( S2, T const td[1][NM][N_CRS], T dofs[1][NM][N_CRS] ) const { double d[5], t[5]; payload::get< NM >( dofs[0], d, "volume" ); payload::get< NM >( td[0], t, "volume" ); lts::vol( d, t ); payload::put< NM >( dofs[0], d ); }
};
} } }
#endif
