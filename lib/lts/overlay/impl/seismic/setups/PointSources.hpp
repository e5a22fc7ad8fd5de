#ifndef EDGE_SEISMIC_POINT_SOURCES_HPP
#define EDGE_SEISMIC_POINT_SOURCES_HPP
#include "constants.hpp"
#include "data/Dynamic.h"
#include "lts/lts.h"
#include "parallel/global.h"
namespace edge { namespace seismic { namespace setups {
template< typename T, typename LID, t_entityType EL, unsigned short O_SP, unsigned short N_CRS >
class PointSources {
  static unsigned short const NM = CE_N_ELEMENT_MODES( EL, O_SP );
  std::size_t m_el[8]; int m_n = 0;
  public:
  template< typename A, typename B, typename C2, typename D, typename E2 >
  bool init( std::string const *, A spType, std::size_t nEls, B, C2, D, E2 * elChars, data::Dynamic & ) {
    lts::Part & p = lts::P[ parallel::g_rank ];
    m_n = 0;
    for( std::size_t e = 0; e < nEls; e++ ) if( lts::S.src[ p.gid[e] ] ) { elChars[e].spType |= spType; m_el[m_n++] = e; }
    return m_n > 0;
  }
  template< typename L2 >
  void apply( L2 first, L2 size, T t0, T t1, T (*dofs)[5][NM][N_CRS] ) const {
    for( L2 s = first; s < first + size; s++ ) {
      if( (int) s >= m_n ) eng_fail( "source %d of %d", (int) s, m_n );
      double d[5]; auto x = dofs[ m_el[s] ];
      for( int q = 0; q < 5; q++ ) { d[q] = x[q][0][0]; for( int m = 1; m < NM; m++ ) if( !(x[q][m][0] == d[q]) ) eng_fail( "source: modes out of sync" ); }
      lts::source( d, t0, t1 );
      for( int q = 0; q < 5; q++ ) for( int m = 0; m < NM; m++ ) x[q][m][0] = d[q];
    }
  }
};
} } }
#endif
