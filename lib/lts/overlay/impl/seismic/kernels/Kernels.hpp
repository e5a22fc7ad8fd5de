#ifndef EDGE_SEISMIC_KERNELS_KERNELS_HPP
#define EDGE_SEISMIC_KERNELS_KERNELS_HPP
#include "constants.hpp"
#include "data/Dynamic.h"
#include "lts/lts.h"
namespace edge { namespace seismic { namespace kernels {
template< typename T, unsigned short N_RMS, t_entityType EL, unsigned short O_SP, unsigned short O_TI, unsigned short N_CRS >
class Kernels {
  public:
  static unsigned short const NM = CE_N_ELEMENT_MODES( EL, O_SP ); static unsigned short const NF = CE_N_ELEMENT_MODES( C_ENT[EL].TYPE_FACES, O_SP ); static unsigned short const NQ = 5;
  typedef T (*PM)[NM][N_CRS]; typedef T const (*CPM)[NM][N_CRS]; typedef T (*PF)[NF][N_CRS]; typedef T const (*CPF)[NF][N_CRS];
  // every mode holds the payload value of its quantity
  static void get( CPM d, double *o, char const * w ) { for( int q = 0; q < NQ; q++ ) { o[q] = d[q][0][0]; for( int m = 1; m < NM; m++ ) if( !(d[q][m][0] == o[q]) ) eng_fail( "%s: modes out of sync", w ); } }
  static void put( PM d, double const *o ) { for( int q = 0; q < NQ; q++ ) for( int m = 0; m < NM; m++ ) d[q][m][0] = o[q]; }
  struct Time {
    template< typename A, typename B, typename C2, typename D, typename E2, typename F2 >
    void ck( T dt, A, B, C2, CPM dofs, D, E2, T (*der)[NQ][NM][N_CRS], F2, PM tInt, void * ) const {
      double d[5], o[5]; get( dofs, d, "time prediction" ); lts::ck( d, dt ); put( der[0], d ); lts::predict( d[1], d[0], dt, o ); put( tInt, o ); }
    void integrate( T dt, T const (*der)[NQ][NM][N_CRS], PM tInt ) const { double d[5], o[5]; get( der[0], d, "time integration" ); lts::predict( d[1], d[0], dt, o ); put( tInt, o ); }
    void evalTimePrediction( unsigned short n, T const * pts, T const (*der)[NQ][NM][N_CRS], T (*out)[NQ][NM][N_CRS] ) const {
      double d[5]; get( der[0], d, "receiver evaluation" );
      for( unsigned short p = 0; p < n; p++ ) for( int q = 0; q < NQ; q++ ) for( int m = 0; m < NM; m++ ) out[p][q][m][0] = m ? 0 : q == 0 ? d[0] : q == 1 ? d[1] + pts[p] : q; }
  } m_time;
  struct Vol {
    template< typename A, typename B, typename C2, typename D, typename E2 >
    void apply( A, B, C2, CPM td, D, PM dofs, E2, void * ) const { double d[5], t[5]; get( dofs, d, "volume" ); get( td, t, "volume" ); lts::vol( d, t ); put( dofs, d ); }
  } m_volInt;
  struct Surf {
    template< typename A, typename B, typename C2 >
    void local( A, B, CPM td, PM dofs, C2, void *, CPM = nullptr, CPM = nullptr ) const { double d[5], t[5]; get( dofs, d, "surface" ); get( td, t, "surface" ); lts::loc( d, t ); put( dofs, d ); }
    void neighFluxInt( unsigned short, unsigned short vId, unsigned short fId, CPM td, PF out, CPM = nullptr ) const {
      double t[5]; get( td, t, "send data" );
      for( int q = 0; q < NQ; q++ ) for( int m = 0; m < NF; m++ ) out[q][m][0] = m == 0 ? t[q] : t[2] * (vId * 10 + fId); }
    template< typename A, typename B, typename C2 >
    void neigh( unsigned short fa, unsigned short vId, unsigned short fId, A, B, CPM td, CPF tdFi, PM dofs, C2, void *, CPM = nullptr ) const {
      double d[5], t[5], c[5]; get( dofs, d, "neighbor" );
      if( tdFi != nullptr ) { for( int q = 0; q < NQ; q++ ) { t[q] = tdFi[q][0][0]; c[q] = tdFi[q][1][0]; } }
      else get( td, t, "neighbor" );
      lts::neigh( d, fa, vId, fId, t, tdFi ? c : nullptr ); put( dofs, d ); }
    template< typename A, typename B > void scatterUpdateA( A, B ) const {}
  } m_surfInt;
  Kernels( T const *, data::Dynamic & ) {}
};
} } }
#endif
