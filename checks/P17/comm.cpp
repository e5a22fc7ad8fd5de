#include <limits>
#include "mesh/Communication.h"
#include "comm.h"
using namespace edge_v;
std::vector< Part > commStruct( int nf, unsigned short i_nTgs, std::vector< std::size_t > const & i_elFaEl, std::vector< std::size_t > const & i_nPaEls, std::vector< unsigned short > const & i_tg ) {
  t_entityType l_ty = nf == 2 ? LINE : nf == 3 ? TRIA3 : TET4;
  std::vector< t_idx > l_ad( i_elFaEl.begin(), i_elFaEl.end() ), l_n( i_nPaEls.begin(), i_nPaEls.end() );
  mesh::Communication c( i_nTgs, l_ty, i_tg.size(), l_ad.data(), l_n.size(), l_n.data(), i_tg.data() );
  std::vector< Part > r( l_n.size() );
  for( size_t p = 0; p < r.size(); p++ ) {
    size_t k = c.nSeRe( p );
    r[p].st.assign( c.getStruct( p ), c.getStruct( p ) + 1 + 4*c.getStruct( p )[0] );
    r[p].se.assign( c.getSendEl( p ), c.getSendEl( p )+k ); r[p].re.assign( c.getRecvEl( p ), c.getRecvEl( p )+k ); r[p].sf.assign( c.getSendFa( p ), c.getSendFa( p )+k ); r[p].rf.assign( c.getRecvFa( p ), c.getRecvFa( p )+k );
  }
  return r;
}
