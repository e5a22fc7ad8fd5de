#ifndef EDGE_ADVECTION_KERNELS_SURF_INT_HPP
#define EDGE_ADVECTION_KERNELS_SURF_INT_HPP
#include "payload.hpp"
namespace edge { namespace advection { namespace kernels {
template< typename T, t_entityType EL, unsigned short O_SP, unsigned short N_CRS >
struct SurfInt {
  static unsigned short const NM = CE_N_ELEMENT_MODES( EL, O_SP );
  SurfInt( data::Dynamic & ) {}
  template< typename S2 > void local( S2, T const td[1][NM][N_CRS], T dofs[1][NM][N_CRS] ) const { double d[5], t[5]; payload::get< NM >( dofs[0], d, "surface" ); payload::get< NM >( td[0], t, "surface" ); lts::loc( d, t ); payload::put< NM >( dofs[0], d ); }
  void neigh( unsigned short fa, unsigned short vId, unsigned short fId, T, T const td[1][NM][N_CRS], T dofs[1][NM][N_CRS] ) const {
    double d[5], t[5]; payload::get< NM >( dofs[0], d, "neighbor" ); payload::get< NM >( td[0], t, "neighboring data" ); lts::neigh( d, fa, vId, fId, t, 0 ); payload::put< NM >( dofs[0], d ); }
};
} } }
#endif
