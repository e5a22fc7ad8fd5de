// All partitionings (through a stand-in for METIS) and time groupings of small meshes: dual graph, priorities, reordering through gmsh.
#include "meshfix.hpp"
#include "mesh/Partition.h"
#include "mesh/Communication.h"
#include "vh.hpp"
#include <metis.h>
using namespace meshfix;

static io::Gmsh * g_gmsh = nullptr;
static mesh::Mesh * g_mesh = nullptr;
static std::vector< unsigned short > * g_tg = nullptr;
static std::vector< t_idx > g_pa;
static int g_nParts = 0, g_calls = 0;

// stand-in for METIS: checks the graph and returns a freely chosen partitioning
extern "C" int METIS_SetDefaultOptions( idx_t * o ) { for( int i = 0; i < METIS_NOPTIONS; i++ ) o[i] = -1; return METIS_OK; }
extern "C" int METIS_PartGraphKway( idx_t * nvtxs, idx_t * ncon, idx_t * xadj, idx_t * adjncy, idx_t * vwgt, idx_t * vsize, idx_t * adjwgt, idx_t * nparts,
                                    real_t * tpwgts, real_t * ubvec, idx_t * options, idx_t * edgecut, idx_t * part ) {
  g_calls++;
  size_t n = g_mesh->nEls(), nf = CE_N_FAS( g_mesh->getTypeEl() );
  VH_REQUIRE( *nvtxs == (idx_t) n && *ncon == 1 && *nparts == g_nParts, "metis-args", "METIS is called for %d vertices, %d constraints, %d parts", (int) *nvtxs, (int) *ncon, (int) *nparts );
  unsigned short l_max = 0; for( auto t : *g_tg ) l_max = std::max( l_max, t );
  VH_REQUIRE( xadj[0] == 0, "graph", "graph does not start at zero" );
  for( size_t e = 0; e < n; e++ ) {
    std::map< idx_t, idx_t > l_ref, l_got; // neighbor, weight
    for( size_t f = 0; f < nf; f++ ) { t_idx a = g_mesh->getElFaEl()[e*nf+f]; if( a != NONE ) l_ref[a] = idx_t(1) << ( l_max - std::min( (*g_tg)[e], (*g_tg)[a] ) ); }
    VH_REQUIRE( xadj[e+1]-xadj[e] == (idx_t) l_ref.size(), "graph", "element %zu has %d neighbors in the graph, expected %zu", e, (int) ( xadj[e+1]-xadj[e] ), l_ref.size() );
    for( idx_t i = xadj[e]; i < xadj[e+1]; i++ ) l_got[ adjncy[i] ] = adjwgt == nullptr ? 1 : adjwgt[i];
    for( auto & r : l_ref ) {
      VH_REQUIRE( l_got.count( r.first ), "graph", "neighbor %d of element %zu is missing in the graph", (int) r.first, e );
      VH_REQUIRE( l_got[r.first] == r.second, "edge-weight", "edge %zu-%d has weight %d, expected %d", e, (int) r.first, (int) l_got[r.first], (int) r.second );
    }
    VH_REQUIRE( vwgt != nullptr && vwgt[e] == idx_t(1) << ( l_max - (*g_tg)[e] ), "vertex-weight", "weight of element %zu (group %d) is wrong", e, (*g_tg)[e] );
    part[e] = g_pa[e];
  }
  *edgecut = 0;
  return METIS_OK;
}

static void body() {
  bool T = vh::thorough();
  int l_which = vh::choose( 6 );
  Spec s = l_which == 0 ? grid( TRIA3, 2, 1, 1, { 1, 1, 1 } ) : l_which == 1 ? grid( QUAD4R, 2, 2, 1, { 1, 1, 1 } ) : l_which == 2 ? grid( QUAD4R, 3, 1, 1, { 1, 1, 1 } ) :
           l_which == 3 ? grid( HEX8R, 2, 2, 1, { 1, 1, 1 } ) : l_which == 4 ? grid( TET4, 1, 1, 1, { 1, 1, 1 } ) : grid( TRIA3, 3, 1, 1, { 1, 1, 1 } );
  if( l_which == 4 ) s.els.resize( T ? 5 : 4 );
  if( l_which == 5 && !T ) s.els.resize( 5 );
  if( l_which == 5 || l_which == 4 ) { // drop unused vertices
    std::map< int, int > l_m; std::vector< Vec > l_c; for( auto & e : s.els ) for( int & v : e ) { if( !l_m.count( v ) ) { l_m[v] = l_c.size(); l_c.push_back( s.crds[v] ); } v = l_m[v]; } s.crds = l_c;
  }
  size_t n = s.els.size(), nf = CE_N_FAS( s.ty );
  Numbering nu;
  auto l_vp = perms( s.crds.size(), 0 ); nu.ve = l_vp[ vh::choose( 2 ) ? l_vp.size()/2+1 : 0 ];
  auto l_ep = perms( n, 0 ); nu.el = l_ep[ vh::choose( 2 ) ? l_ep.size()/2+1 : 0 ];
  nu.lo.assign( n, 0 );
  int l_nTgs = 1 + vh::choose( n > 4 ? 2 : 3 );
  std::vector< unsigned short > l_tg( n ); unsigned short l_max = 0;
  for( auto & t : l_tg ) { t = vh::choose( l_nTgs ); l_max = std::max( l_max, t ); }
  if( l_max+1 != l_nTgs ) vh::skip();
  g_nParts = 1 + vh::choose( n > 4 ? 2 : 3 );
  g_pa.assign( n, 0 );
  std::vector< bool > l_used( g_nParts, false );
  for( auto & p : g_pa ) { p = g_nParts == 1 ? 0 : vh::choose( g_nParts ); l_used[p] = true; }
  for( bool b : l_used ) if( !b ) vh::skip(); // no empty partitions
  g_tg = &l_tg;
  vh::note( "mesh %d, elements [", l_which ); for( int e : nu.el ) vh::note( "%d ", e );
  vh::note( "] groups [" ); for( auto t : l_tg ) vh::note( "%d ", t );
  vh::note( "] partitions [" ); for( auto p : g_pa ) vh::note( "%zu ", (size_t) p );
  vh::note( "]" );

  load( s, nu ); g_gmsh->readMesh();
  mesh::Mesh m( *g_gmsh ); g_mesh = &m; g_calls = 0;
  mesh::Partition l_part( m, l_tg.data() );
  if( g_nParts > 1 ) { l_part.kWay( g_nParts ); VH_REQUIRE( g_calls > 0, "metis", "METIS was not called" ); }
  VH_REQUIRE( l_part.nPas() == (t_idx) g_nParts, "nPas", "%zu partitions, expected %d", (size_t) l_part.nPas(), g_nParts );
  std::vector< t_idx > l_cnt( g_nParts, 0 ); std::vector< bool > l_se( n, false );
  for( size_t e = 0; e < n; e++ ) {
    VH_REQUIRE( l_part.getElPa()[e] == g_pa[e], "elpa", "element %zu is assigned to %zu", e, (size_t) l_part.getElPa()[e] );
    l_cnt[ g_pa[e] ]++;
    for( size_t f = 0; f < nf; f++ ) { t_idx a = m.getElFaEl()[e*nf+f]; if( a != NONE && g_pa[a] != g_pa[e] ) l_se[e] = true; }
  }
  for( int p = 0; p < g_nParts; p++ ) VH_REQUIRE( l_part.nPaEls()[p] == l_cnt[p], "counts", "partition %d has %zu elements, expected %zu", p, (size_t) l_part.nPaEls()[p], (size_t) l_cnt[p] );
  // priorities induce the order by partition, region and time group
  typedef std::array< t_idx, 3 > Key;
  auto l_key = [&]( size_t e ) { return Key{ g_pa[e], l_se[e], l_tg[e] }; };
  for( size_t a = 0; a < n; a++ ) for( size_t b = 0; b < n; b++ )
    VH_REQUIRE( ( l_part.getElPr()[a] < l_part.getElPr()[b] ) == ( l_key( a ) < l_key( b ) ), "priority", "elements %zu and %zu have priorities %zu and %zu", a, b, (size_t) l_part.getElPr()[a], (size_t) l_part.getElPr()[b] );
  // reordering
  std::map< std::set< t_idx >, size_t > l_old; size_t nev = CE_N_VES( s.ty );
  for( size_t e = 0; e < n; e++ ) l_old[ std::set< t_idx >( m.getElVe()+e*nev, m.getElVe()+(e+1)*nev ) ] = e;
  g_gmsh->reorder( l_part.getElPr() );
  g_gmsh->readMesh();
  mesh::Mesh r( *g_gmsh );
  VH_REQUIRE( r.nEls() == n && r.nVes() == m.nVes() && r.nFas() == m.nFas(), "reorder", "sizes changed" );
  std::set< size_t > l_seen; std::vector< unsigned short > l_tgRe( n ); Key l_last = { 0, 0, 0 };
  for( size_t v = 0; v < r.nVes(); v++ ) for( int d = 0; d < 3; d++ ) VH_REQUIRE( r.getVeCrds()[v][d] == m.getVeCrds()[v][d], "reorder", "vertices changed" );
  for( size_t e = 0; e < n; e++ ) {
    std::set< t_idx > k( r.getElVe()+e*nev, r.getElVe()+(e+1)*nev );
    VH_REQUIRE( l_old.count( k ) && l_seen.insert( l_old[k] ).second, "reorder", "element %zu does not exist or is duplicated", e );
    Key q = l_key( l_old[k] );
    VH_REQUIRE( !( q < l_last ), "reorder", "element %zu (partition %zu, send %zu, group %zu) is out of order", e, (size_t) q[0], (size_t) q[1], (size_t) q[2] );
    l_last = q; l_tgRe[e] = q[2];
    vh::obs( l_old[k] );
  }
  // the result is what the communication structure requires
  mesh::Communication l_comm( l_nTgs, s.ty, n, r.getElFaEl(), g_nParts, l_part.nPaEls(), l_tgRe.data() );
  for( int p = 0; p < g_nParts; p++ ) for( int t = 0; t < l_nTgs; t++ ) {
    t_idx c[2] = { 0, 0 }; for( size_t e = 0; e < n; e++ ) if( l_key( e )[0] == (t_idx) p && l_tg[e] == t ) c[ l_se[e] ]++;
    VH_REQUIRE( l_comm.nGroupElsIn( p )[t] == c[0] && l_comm.nGroupElsSe( p )[t] == c[1], "regions", "partition %d, group %d: %zu inner and %zu send elements, expected %zu, %zu", p, t,
                (size_t) l_comm.nGroupElsIn( p )[t], (size_t) l_comm.nGroupElsSe( p )[t], (size_t) c[0], (size_t) c[1] );
  }
  for( auto t : l_tg ) vh::obs( t );
  for( auto p : g_pa ) vh::obs( p );
  vh::obs( l_which );
  if( g_nParts > 1 && l_nTgs > 1 ) vh::nontrivial();
}
int main( int c, char ** v ) { io::Gmsh l_gmsh; g_gmsh = &l_gmsh; return vh::run( c, v, "part", body ); }
