// Exhaustive enumeration of partitioned, time-grouped meshes (adjacency graphs) for the communication structure of EDGE-V.
#include <limits>
#include <vector>
#include <set>
#include <map>
#include <tuple>
#include "mesh/Communication.h"
#include "vh.hpp"
using namespace edge_v;
static const t_idx NONE = std::numeric_limits< t_idx >::max();
typedef std::tuple< unsigned short, t_idx, unsigned short > Key; // local time group, remote partition, remote time group
typedef std::pair< t_idx, unsigned short > ElFa;                 // global element and face

static void body() {
  static const t_entityType l_tys[] = { TRIA3, TET4, LINE, QUAD4R, HEX8R };
  t_idx n = 1 + vh::choose( vh::thorough() ? 6 : 5 );
  t_entityType l_ty = n >= 5 && !vh::thorough() ? TRIA3 : vh::pick( l_tys );
  if( n == 6 && l_ty != LINE && l_ty != TRIA3 ) vh::skip();
  unsigned short nf = CE_N_FAS( l_ty );
  // partitions: contiguous, non-empty
  std::vector< t_idx > l_nPaEls( 1, 1 ), l_pa( 1, 0 );
  for( t_idx e = 1; e < n; e++ ) {
    if( vh::choose( 2 ) ) { l_nPaEls.push_back( 1 ); }
    else l_nPaEls.back()++;
    l_pa.push_back( l_nPaEls.size()-1 );
  }
  t_idx nPas = l_nPaEls.size();
  // time groups: region (inner, send) and time group ascend within every partition
  unsigned short nTgs = n >= 5 ? 2 : ( n == 4 && l_ty != TRIA3 ? 2 : 3 );
  std::vector< unsigned short > l_tg( n ); std::vector< bool > l_send( n );
  for( t_idx e = 0; e < n; e++ ) {
    bool l_first = e == 0 || l_pa[e] != l_pa[e-1];
    int l_min = l_first ? 0 : l_send[e-1]*nTgs + l_tg[e-1];
    int l_max = nPas == 1 ? nTgs : 2*nTgs;
    int v = l_min + vh::choose( l_max-l_min );
    l_send[e] = v / nTgs; l_tg[e] = v % nTgs;
  }
  // graph
  int l_order = vh::choose( 3 ); // face slots: ascending, descending, leaving a boundary face first
  std::vector< t_idx > l_adj( n*nf, NONE );
  std::vector< int > l_deg( n, 0 );
  auto slot = [&]( t_idx a ) { int d = l_deg[a]++; return l_order == 0 ? d : l_order == 1 ? nf-1-d : ( d+1 ) % nf; };
  std::vector< bool > l_isSe( n, false );
  bool l_order2 = vh::choose( n < 5 ? 2 : 1 ); // order of the edges
  std::vector< std::pair< t_idx, t_idx > > l_edges;
  for( t_idx a = 0; a < n; a++ ) for( t_idx b = a+1; b < n; b++ ) {
    if( l_deg[a] >= nf || l_deg[b] >= nf ) continue;
    if( l_pa[a] != l_pa[b] && !( l_send[a] && l_send[b] ) ) continue; // inner elements have no remote neighbors
    if( vh::choose( 2 ) ) { l_edges.push_back( { a, b } ); l_deg[a]++; l_deg[b]++; if( l_pa[a] != l_pa[b] ) l_isSe[a] = l_isSe[b] = true; }
  }
  for( t_idx e = 0; e < n; e++ ) if( l_isSe[e] != l_send[e] ) vh::skip();
  l_deg.assign( n, 0 );
  for( size_t i = 0; i < l_edges.size(); i++ ) {
    auto & x = l_edges[ l_order2 ? l_edges.size()-1-i : i ];
    int sa = slot( x.first ), sb = slot( x.second );
    l_adj[ x.first*nf+sa ] = x.second; l_adj[ x.second*nf+sb ] = x.first;
  }
  vh::note( "faces=%d nTgs=%d partitions=[", nf, nTgs );
  for( t_idx p : l_nPaEls ) vh::note( "%zu ", (size_t) p );
  vh::note( "] tgs=[" ); for( auto t : l_tg ) vh::note( "%d ", t );
  vh::note( "] adj=[" ); for( t_idx a : l_adj ) { if( a == NONE ) vh::note( "- " ); else vh::note( "%zu ", (size_t) a ); }
  vh::note( "]" );

  mesh::Communication l_comm( nTgs, l_ty, n, l_adj.data(), nPas, l_nPaEls.data(), l_tg.data() );

  // reference
  std::vector< std::map< Key, std::set< ElFa > > > l_ref( nPas );
  std::vector< t_idx > l_first( nPas+1, 0 );
  for( t_idx p = 0; p < nPas; p++ ) l_first[p+1] = l_first[p] + l_nPaEls[p];
  std::vector< t_idx > l_in( nPas*nTgs, 0 ), l_se( nPas*nTgs, 0 );
  for( t_idx e = 0; e < n; e++ ) {
    ( l_isSe[e] ? l_se : l_in )[ l_pa[e]*nTgs + l_tg[e] ]++;
    for( unsigned short f = 0; f < nf; f++ ) {
      t_idx a = l_adj[ e*nf+f ];
      if( a != NONE && l_pa[a] != l_pa[e] ) l_ref[ l_pa[e] ][ Key( l_tg[e], l_pa[a], l_tg[a] ) ].insert( ElFa( e, f ) );
    }
  }
  std::vector< std::map< Key, std::vector< ElFa > > > l_sends( nPas ), l_recvs( nPas );
  for( t_idx p = 0; p < nPas; p++ ) {
    for( unsigned short t = 0; t < nTgs; t++ ) {
      VH_REQUIRE( l_comm.nGroupElsIn( p )[t] == l_in[ p*nTgs+t ], "inner", "partition %zu, group %d: %zu inner elements, expected %zu", (size_t) p, t, (size_t) l_comm.nGroupElsIn( p )[t], (size_t) l_in[ p*nTgs+t ] );
      VH_REQUIRE( l_comm.nGroupElsSe( p )[t] == l_se[ p*nTgs+t ], "send-els", "partition %zu, group %d: %zu send elements, expected %zu", (size_t) p, t, (size_t) l_comm.nGroupElsSe( p )[t], (size_t) l_se[ p*nTgs+t ] );
    }
    t_idx const * s = l_comm.getStruct( p );
    VH_REQUIRE( s[0] == l_ref[p].size(), "channels", "partition %zu has %zu channels, expected %zu", (size_t) p, (size_t) s[0], l_ref[p].size() );
    t_idx o = 0, l_tot = 0;
    for( auto & r : l_ref[p] ) l_tot += r.second.size();
    VH_REQUIRE( l_comm.nSeRe( p ) == l_tot, "faces", "partition %zu has %zu communicating faces, expected %zu", (size_t) p, (size_t) l_comm.nSeRe( p ), (size_t) l_tot );
    for( t_idx c = 0; c < s[0]; c++ ) {
      Key k( s[1+c*4], s[2+c*4], s[3+c*4] );
      auto it = l_ref[p].find( k );
      VH_REQUIRE( it != l_ref[p].end(), "channel", "partition %zu: channel (%zu,%zu,%zu) does not exist", (size_t) p, (size_t) s[1+c*4], (size_t) s[2+c*4], (size_t) s[3+c*4] );
      VH_REQUIRE( !l_sends[p].count( k ), "channel", "partition %zu: channel %zu is duplicated", (size_t) p, (size_t) c );
      VH_REQUIRE( s[4+c*4] == it->second.size(), "size", "partition %zu: channel %zu has %zu faces, expected %zu", (size_t) p, (size_t) c, (size_t) s[4+c*4], it->second.size() );
      for( t_idx i = 0; i < s[4+c*4]; i++, o++ ) {
        ElFa se( l_comm.getSendEl( p )[o] + l_first[p], l_comm.getSendFa( p )[o] ), re( l_comm.getRecvEl( p )[o] + l_first[p], l_comm.getRecvFa( p )[o] );
        for( ElFa x : { se, re } ) VH_REQUIRE( it->second.count( x ), "elfa", "partition %zu: face %d of element %zu does not belong to channel %zu", (size_t) p, x.second, (size_t) x.first, (size_t) c );
        l_sends[p][k].push_back( se ); l_recvs[p][k].push_back( re );
      }
      VH_REQUIRE( std::set< ElFa >( l_sends[p][k].begin(), l_sends[p][k].end() ) == it->second, "send-complete", "partition %zu: sends of channel %zu are incomplete", (size_t) p, (size_t) c );
      VH_REQUIRE( std::set< ElFa >( l_recvs[p][k].begin(), l_recvs[p][k].end() ) == it->second, "recv-complete", "partition %zu: receives of channel %zu are incomplete", (size_t) p, (size_t) c );
      vh::obs( s[1+c*4] ); vh::obs( s[2+c*4] ); vh::obs( s[3+c*4] );
    }
  }
  // i-th receive of a channel is the face which is sent at the i-th position on the other side
  for( t_idx p = 0; p < nPas; p++ ) for( auto & r : l_recvs[p] ) {
    t_idx q = std::get<1>( r.first );
    auto & s = l_sends[q][ Key( std::get<2>( r.first ), p, std::get<0>( r.first ) ) ];
    VH_REQUIRE( s.size() == r.second.size(), "match", "sizes of the channels between partitions %zu and %zu do not match", (size_t) p, (size_t) q );
    for( size_t i = 0; i < s.size(); i++ )
      VH_REQUIRE( l_adj[ r.second[i].first*nf + r.second[i].second ] == s[i].first && l_adj[ s[i].first*nf + s[i].second ] == r.second[i].first, "order",
                  "partition %zu receives position %zu of the message of partition %zu for face %d of element %zu, but face %d of element %zu was sent", (size_t) p, i, (size_t) q,
                  r.second[i].second, (size_t) r.second[i].first, s[i].second, (size_t) s[i].first );
  }
  for( auto a : l_adj ) vh::obs( a );
  for( auto t : l_tg ) vh::obs( t );
  for( auto t : l_nPaEls ) vh::obs( t );
  vh::obs( nf );
  size_t l_nch = 0; for( auto & r : l_ref ) l_nch += r.size();
  if( l_nch > 2 ) vh::nontrivial();
}
int main( int c, char ** v ) { return vh::run( c, v, "comm", body ); }
