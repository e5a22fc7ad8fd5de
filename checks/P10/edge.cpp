// the solver's side
#include "constants.hpp"
#include "parallel/global.h"
#include "mesh/EdgeV.h"
#include <limits>
#include "load.h"
namespace edge { namespace parallel { int g_thread = 0; char g_threadStr[10] = "0"; int g_nThreads = 1, g_rank = 0, g_nRanks = 1; std::string g_rankStr = "0"; } }
void loadEdge( std::string const & i_msh, std::string const & i_h5, int i_rank, int i_nRanks, size_t nf, Loaded & r ) {
  edge::parallel::g_rank = i_rank; edge::parallel::g_nRanks = i_nRanks;
  edge::mesh::EdgeV m( i_msh, i_h5, std::numeric_limits< int >::max() );
  r.nEls = m.nEls(); r.nVes = m.nVes(); r.nFas = m.nFas(); r.nTgs = m.nTgs(); r.nIn = m.nElsIn(); r.nSe = m.nElsSe();
  t_enLayout l = m.getElLayout(); r.nEnts = l.nEnts;
  for( int t = 0; t < r.nTgs; t++ ) {
    r.lay[0].push_back( { (size_t) l.timeGroups[t].inner.first, (size_t) l.timeGroups[t].inner.size } ); r.lay[1].push_back( { (size_t) l.timeGroups[t].send[0].first, (size_t) l.timeGroups[t].send[0].size } );
    r.cnt[0].push_back( m.nTgElsIn()[t] ); r.cnt[1].push_back( m.nTgElsSe()[t] ); r.own.push_back( l.timeGroups[t].nEntsOwn ); r.relDt.push_back( m.getRelDt()[t] );
  }
  r.nNone = m.nVas( "/edge_v/vs" ); r.nVp = m.nVas( "/edge_v/vp" ); r.vp.resize( r.nVp ); m.getData( "/edge_v/vp", r.vp.data() );
  r.nCo = m.nCommElFa();
  if( i_nRanks > 1 ) { r.cs.assign( m.getCommStruct(), m.getCommStruct()+1+4*m.getCommStruct()[0] );
    for( size_t i = 0; i < r.nCo; i++ ) { r.co[0].push_back( m.getSendEl()[i] ); r.co[1].push_back( m.getSendFa()[i] ); r.co[2].push_back( m.getRecvEl()[i] ); r.co[3].push_back( m.getRecvFa()[i] ); } }
  size_t nev = nf == 6 ? 8 : 4, nfv = nf == 6 ? 4 : 2;
  // tets and quads both have four faces
  bool l_tet = false; if( nf == 3 ) nev = 3; if( nf == 4 ) { for( size_t v = 0; v < r.nVes; v++ ) if( m.getVeCrds()[v][2] != 0 ) l_tet = true; if( l_tet ) nfv = 3; }
  for( size_t v = 0; v < r.nVes; v++ ) r.crds.push_back( { m.getVeCrds()[v][0], m.getVeCrds()[v][1], m.getVeCrds()[v][2] } );
  r.elVe.assign( m.getElVe(), m.getElVe()+r.nEls*nev ); r.elFa.assign( m.getElFa(), m.getElFa()+r.nEls*nf ); r.elFaEl.assign( m.getElFaEl(), m.getElFaEl()+r.nEls*nf ); r.faVe.assign( m.getFaVe(), m.getFaVe()+r.nFas*nfv );
  r.ve.assign( r.nEls*nf, 77 ); r.fa.assign( r.nEls*nf, 77 ); m.setSeVeFaIdsAd( r.ve.data(), r.fa.data() );
  std::vector< t_vertexChars > v( r.nVes ); std::vector< t_faceChars > f( r.nFas ); std::vector< t_elementChars > e( r.nEls );
  for( auto & x : v ) x.spType = 64; for( auto & x : f ) x.spType = 64; for( auto & x : e ) x.spType = 64;
  m.setLtsTypes( e.data() );
  for( size_t x = 0; x < r.nEls; x++ ) {
    auto is = [&]( long long b ) { return ( e[x].spType & b ) == b; }; long long l_all = 0;
    r.el.push_back( { is( C_LTS_EL[EL_INT_EQ] ), is( C_LTS_EL[EL_INT_LT] ), is( C_LTS_EL[EL_INT_GT] ) } ); l_all = C_LTS_EL[EL_INT_EQ] | C_LTS_EL[EL_INT_LT] | C_LTS_EL[EL_INT_GT];
    for( size_t k = 0; k < nf; k++ ) { r.ad.push_back( { is( C_LTS_AD[k][AD_EQ] ), is( C_LTS_AD[k][AD_LT] ), is( C_LTS_AD[k][AD_GT] ) } ); l_all |= C_LTS_AD[k][AD_EQ] | C_LTS_AD[k][AD_LT] | C_LTS_AD[k][AD_GT]; }
    r.other.push_back( e[x].spType & ~l_all );
  }
  m.setSpTypes( v.data(), f.data(), e.data() );
  for( auto & x : f ) r.faSp.push_back( x.spType );
}
