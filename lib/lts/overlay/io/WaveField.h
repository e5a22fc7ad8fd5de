#ifndef EDGE_IO_WAVE_FIELD_H
#define EDGE_IO_WAVE_FIELD_H
#include <string>
#include "constants.hpp"
#include "lts/lts.h"
namespace edge { namespace io {
struct WaveField {
  std::size_t m_nEls; real_base (*m_dofs)[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS]; int m_k = lts::S.wf < lts::S.end ? 0 : 1;  // the initial wave field is only written if there are others before the end

  static WaveField *& last() { static WaveField * l_w; return l_w; }
  template< typename A, typename B, typename C2, typename D >
  WaveField( std::string, std::string, std::size_t, std::size_t i_nEls, A, B, C2, D i_dofs, int_spType ) { m_nEls = i_nEls; m_dofs = (real_base (*)[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS]) i_dofs; last() = this; eng_arm(); }
  ~WaveField() { if( (m_k) * lts::S.wf <= lts::S.end - 1E-6 ) eng_fail( "wave field %d at time %g missing", m_k, m_k * lts::S.wf ); }
  void check( double t ) { for( std::size_t e = 0; e < m_nEls; e++ ) { double d[5];
#ifdef LTS_SWE
    d[0] = m_dofs[e][0][0][0]; d[1] = m_dofs[e][1][0][0]; d[2] = 0; lts::atSync( d, t ); continue;
#endif
    for( int q = 0; q < 5; q++ ) 
#ifdef LTS_ADV
    d[q] = m_dofs[e][0][q][0];
#else
    d[q] = m_dofs[e][q][0][0];
#endif
    lts::atSync( d, t ); } }
  void write( double ) { if( m_k * lts::S.wf > lts::S.end + 1E-6 ) eng_fail( "too many wave fields" ); check( m_k * lts::S.wf ); m_k++; eng_event( "wave field %d", m_k ); }
};
} }
#endif
