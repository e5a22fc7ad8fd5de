#ifndef EDGE_ADVECTION_KERNELS_TIME_PRED_HPP
#define EDGE_ADVECTION_KERNELS_TIME_PRED_HPP
#include "payload.hpp"
namespace edge { namespace advection { namespace kernels {
template< typename T, t_entityType EL, unsigned short O_SP, unsigned short O_TI, unsigned short N_CRS >
struct TimePred {
  static unsigned short const NM = CE_N_ELEMENT_MODES( EL, O_SP );
  TimePred( data::Dynamic & ) {}
  template< typename S2 > static void ck( T dt, S2, T const dofs[NM][N_CRS], T der[O_TI][NM][N_CRS], T tInt[NM][N_CRS] ) {
    double d[5], o[5]; payload::get< NM >( dofs, d, "time prediction" ); lts::ck( d, dt ); payload::put< NM >( der[0], d ); lts::predict( d[1], d[0], dt, o ); payload::put< NM >( tInt, o ); }
  static void integrate( T dt, T const der[O_TI][NM][N_CRS], T tInt[NM][N_CRS] ) { double d[5], o[5]; payload::get< NM >( der[0], d, "time integration" ); lts::predict( d[1], d[0], dt, o ); payload::put< NM >( tInt, o ); }
};
} } }
#endif
