// Partition-local meshes and annotations as written by EDGE-V, loaded through the solver's mesh interface.
#include "meshfix.hpp"
#include "mesh/Communication.h"
#include "io/Hdf5.h"
#include "vh.hpp"
#include <unistd.h>
#include <string>
#include "load.h"
using namespace meshfix;
extern "C" int H5close();
static io::Gmsh * g_gmsh = nullptr; static std::string g_dir;

static void body() {
  bool T = vh::thorough();
  int l_which = vh::choose( 5 );
  Spec s = l_which == 0 ? grid( TRIA3, 2, 1, 1, { 1, 2, 1 } ) : l_which == 1 ? grid( QUAD4R, 2, 2, 1, { 1, 1, 1 } ) : l_which == 2 ? grid( HEX8R, 3, 1, 1, { 1, 1, 2 } ) :
           l_which == 3 ? grid( TET4, 1, 1, 1, { 1, 1, 1 } ) : grid( QUAD4R, 3, 1, 1, { 1, 1, 1 } );
  if( l_which == 3 ) s.els.resize( 4 );
  { std::map< int, int > l_m; std::vector< Vec > l_c; for( auto & e : s.els ) for( int & v : e ) { if( !l_m.count( v ) ) { l_m[v] = l_c.size(); l_c.push_back( s.crds[v] ); } v = l_m[v]; } s.crds = l_c; }
  auto l_bnd = bndFaces( s ); std::vector< std::vector< int > > l_g[2]; for( size_t f = 0; f < l_bnd.size(); f++ ) l_g[f%3 == 1].push_back( l_bnd[f] );
  s.groups = { { 101, l_g[0] }, { 105, l_g[1] } };
  size_t n = s.els.size(), nf = CE_N_FAS( s.ty ), nev = CE_N_VES( s.ty ), nfv = CE_N_VES( CE_T_FA( s.ty ) );
  Numbering nu; auto l_vp = perms( s.crds.size(), 0 ); nu.ve = l_vp[ vh::choose( 2 ) ? l_vp.size()/2+1 : 0 ];
  nu.lo.assign( n, 0 ); bool l_gap = nu.gaps = vh::thorough() ? vh::choose( 2 ) : nu.ve[0] != 0;
  int l_nTgs = 1 + vh::choose( 3 ), l_nPas = 1 + vh::choose( n > 3 && !T ? 2 : 3 );
  std::vector< int > l_tg( n ), l_pa( n ); int l_max = 0, l_min = 9; std::vector< bool > l_used( l_nPas, false );
  for( auto & t : l_tg ) { t = vh::choose( l_nTgs ); l_max = std::max( l_max, t ); l_min = std::min( l_min, t ); }
  for( auto & p : l_pa ) { p = l_nPas == 1 ? 0 : vh::choose( l_nPas ); l_used[p] = true; }
  if( l_max+1 != l_nTgs || l_min != 0 ) vh::skip();
  for( bool b : l_used ) if( !b ) vh::skip();
  // neighbors
  std::map< std::vector< int >, std::vector< int > > l_faEl;
  for( size_t e = 0; e < n; e++ ) for( auto & f : facesOf( s.ty ) ) { std::vector< int > k; for( int v : f ) k.push_back( s.els[e][v] ); std::sort( k.begin(), k.end() ); l_faEl[k].push_back( e ); }
  std::vector< bool > l_se( n, false ); std::vector< bool > l_com( l_nPas, l_nPas == 1 );
  for( auto & f : l_faEl ) if( f.second.size() == 2 ) {
    int a = f.second[0], b = f.second[1];
    if( std::abs( l_tg[a]-l_tg[b] ) > 1 ) vh::skip();
    if( l_pa[a] != l_pa[b] ) { l_se[a] = l_se[b] = true; l_com[l_pa[a]] = l_com[l_pa[b]] = true; }
  }
  for( bool b : l_com ) if( !b ) vh::skip();
  // order by partition, region and time group
  std::vector< int > l_or( n ); for( size_t e = 0; e < n; e++ ) l_or[e] = e;
  std::stable_sort( l_or.begin(), l_or.end(), [&]( int a, int b ) { return std::make_tuple( l_pa[a], (int) l_se[a], l_tg[a] ) < std::make_tuple( l_pa[b], (int) l_se[b], l_tg[b] ); } );
  nu.el.resize( n ); for( size_t i = 0; i < n; i++ ) nu.el[ l_or[i] ] = i;
  vh::note( "mesh %d, gaps %d, groups [", l_which, l_gap ); for( int t : l_tg ) vh::note( "%d ", t ); vh::note( "] partitions [" ); for( int p : l_pa ) vh::note( "%d ", p ); vh::note( "]" );
  load( s, nu ); g_gmsh->readMesh(); mesh::Mesh m( *g_gmsh );
  std::vector< t_idx > l_nPaEls( l_nPas, 0 ); std::vector< unsigned short > l_tgRe;
  for( int e : l_or ) { l_nPaEls[ l_pa[e] ]++; l_tgRe.push_back( l_tg[e] ); }
  mesh::Communication l_comm( l_nTgs, s.ty, n, m.getElFaEl(), l_nPas, l_nPaEls.data(), l_tgRe.data() );
  std::vector< double > l_rel; for( int t = 0; t < l_nTgs; t++ ) l_rel.push_back( 1 << t ); l_rel.push_back( std::numeric_limits< double >::max() );
  std::vector< float > l_vp2( n ); for( size_t e = 0; e < n; e++ ) l_vp2[e] = 0.3f + e;

  t_idx l_first = 0;
  for( int p = 0; p < l_nPas; p++ ) {
    // annotations, see EDGE-V's main
    std::string l_h5 = g_dir + "/m_" + std::to_string( p+1 ) + ".h5", l_msh = g_dir + "/m_" + std::to_string( p+1 ) + ".msh";
    {
      io::Hdf5 h( l_h5, false ); h.createGroup( "/edge_v" );
      h.set( "/edge_v/vp", l_nPaEls[p], l_vp2.data()+l_first );
      h.set( "/edge_v/relative_time_steps", l_nTgs+1, l_rel.data() );
      h.set( "/edge_v/n_time_group_elements_inner", l_nTgs, l_comm.nGroupElsIn( p ) );
      h.set( "/edge_v/n_time_group_elements_send", l_nTgs, l_comm.nGroupElsSe( p ) );
      if( l_nPas > 1 ) {
        h.set( "/edge_v/communication_structure", l_comm.getStruct( p )[0]*4+1, l_comm.getStruct( p ) );
        h.set( "/edge_v/send_el", l_comm.nSeRe( p ), l_comm.getSendEl( p ) ); h.set( "/edge_v/send_fa", l_comm.nSeRe( p ), l_comm.getSendFa( p ) );
        h.set( "/edge_v/recv_el", l_comm.nSeRe( p ), l_comm.getRecvEl( p ) ); h.set( "/edge_v/recv_fa", l_comm.nSeRe( p ), l_comm.getRecvFa( p ) );
        std::vector< unsigned short > l_ids( l_comm.nSeRe( p ) );
        m.getFaIdsAd( l_comm.nSeRe( p ), l_first, l_comm.getSendEl( p ), l_comm.getSendFa( p ), l_ids.data() ); h.set( "/edge_v/send_face_ids", l_comm.nSeRe( p ), l_ids.data() );
        m.getVeIdsAd( l_comm.nSeRe( p ), l_first, l_comm.getSendEl( p ), l_comm.getSendFa( p ), l_ids.data() ); h.set( "/edge_v/send_vertex_ids", l_comm.nSeRe( p ), l_ids.data() );
      }
    }
    H5close();
    // partition-local mesh
    Spec q; q.ty = s.ty; std::vector< int > l_ves;
    std::map< int, int > l_loc;
    for( t_idx i = 0; i < l_nPaEls[p]; i++ ) { q.els.push_back( s.els[ l_or[l_first+i] ] ); for( int v : q.els.back() ) l_ves.push_back( v ); }
    std::sort( l_ves.begin(), l_ves.end() ); l_ves.erase( std::unique( l_ves.begin(), l_ves.end() ), l_ves.end() );
    Numbering nq; nq.gaps = l_gap;
    for( int v : l_ves ) { l_loc[v] = q.crds.size(); q.crds.push_back( s.crds[v] ); nq.ve.push_back( nu.ve[v] ); }
    for( auto & e : q.els ) { nq.el.push_back( nq.el.size() ); for( int & v : e ) v = l_loc[v]; }
    nq.lo.assign( q.els.size(), 0 );
    for( auto & g : s.groups ) { std::vector< std::vector< int > > l_fs; for( auto f : g.second ) {
      std::vector< int > k = f; std::sort( k.begin(), k.end() ); if( l_pa[ l_faEl[k][0] ] != p ) continue;
      for( int & v : f ) v = l_loc[v]; l_fs.push_back( f ); } if( !l_fs.empty() ) q.groups.push_back( { g.first, l_fs } ); }
    load( q, nq ); g_gmsh->write( l_msh ); gmsh::clear();

    Loaded r; loadEdge( l_msh, l_h5, p, l_nPas, nf, r );
    if( !gmsh::isInitialized() ) { gmsh::initialize(); gmsh::option::setNumber( "General.Verbosity", 0 ); }
    size_t l_nE = l_nPaEls[p];
    VH_REQUIRE( r.nEls == l_nE && r.nVes == q.crds.size(), "size", "partition %d has %zu elements, %zu vertices", p, r.nEls, r.nVes );
    VH_REQUIRE( r.nTgs == l_nTgs, "nTgs", "%d time groups", r.nTgs );
    // layout
    size_t l_off = 0, l_nIn = 0, l_nSe = 0;
    for( int k = 0; k < 2; k++ ) for( int t = 0; t < l_nTgs; t++ ) {
      size_t l_ref = 0; for( size_t e = 0; e < n; e++ ) if( l_pa[e] == p && l_se[e] == (bool) k && l_tg[e] == t ) l_ref++;
      VH_REQUIRE( r.lay[k][t][1] == l_ref && r.cnt[k][t] == l_ref, "layout", "partition %d: region %d, group %d has size %zu, expected %zu", p, k, t, r.lay[k][t][1], l_ref );
      VH_REQUIRE( r.lay[k][t][0] == l_off, "layout", "partition %d: region %d, group %d starts at %zu, expected %zu", p, k, t, r.lay[k][t][0], l_off );
      l_off += l_ref; ( k ? l_nSe : l_nIn ) += l_ref;
    }
    for( int t = 0; t < l_nTgs; t++ ) VH_REQUIRE( r.own[t] == r.cnt[0][t]+r.cnt[1][t], "layout", "partition %d: group %d owns %zu elements", p, t, r.own[t] );
    VH_REQUIRE( r.nEnts == l_nE && r.nIn == l_nIn && r.nSe == l_nSe, "layout", "partition %d: %zu elements, %zu inner, %zu send", p, r.nEnts, r.nIn, r.nSe );
    for( int t = 0; t < l_nTgs; t++ ) VH_REQUIRE( r.relDt[t] == l_rel[t], "relDt", "relative time step %d is %f", t, r.relDt[t] );
    VH_REQUIRE( r.nVp == l_nE && r.nNone == NONE, "data", "wrong number of values" );
    for( size_t e = 0; e < l_nE; e++ ) VH_REQUIRE( r.vp[e] == l_vp2[l_first+e], "data", "wrong velocity of element %zu", e );
    // communication
    if( l_nPas > 1 ) {
      VH_REQUIRE( r.nCo == l_comm.nSeRe( p ), "comm", "%zu communicating faces", r.nCo );
      for( t_idx i = 0; i < l_comm.getStruct( p )[0]*4+1; i++ ) VH_REQUIRE( r.cs[i] == l_comm.getStruct( p )[i], "comm", "structure differs at %zu", (size_t) i );
      for( size_t i = 0; i < r.nCo; i++ ) VH_REQUIRE( r.co[0][i] == l_comm.getSendEl( p )[i] && r.co[1][i] == l_comm.getSendFa( p )[i] && r.co[2][i] == l_comm.getRecvEl( p )[i] && r.co[3][i] == l_comm.getRecvFa( p )[i],
        "comm", "communicating face %zu differs", i );
    } else VH_REQUIRE( r.nCo == 0, "comm", "communication without remote partitions" );
    // connectivity, ids and types in terms of the global mesh
    for( size_t e = 0; e < l_nE; e++ ) {
      size_t g = l_first+e; int l_o = l_or[g];
      for( size_t v = 0; v < nev; v++ ) for( int d = 0; d < 3; d++ ) VH_REQUIRE( r.crds[ r.elVe[e*nev+v] ][d] == m.getVeCrds()[ m.getElVe()[g*nev+v] ][d], "elve", "vertex %zu of element %zu (partition %d) differs from the global mesh", v, e, p );
      bool l_rel3[3] = { false, false, false };
      for( size_t f = 0; f < nf; f++ ) {
        t_idx ad = m.getElFaEl()[g*nf+f]; int l_c = 0;
        std::set< std::array< double, 3 > > l_f[2]; std::vector< int > l_key;
        for( size_t v = 0; v < nfv; v++ ) {
          double const * a = r.crds[ r.faVe[ r.elFa[e*nf+f]*nfv+v ] ].data(), * b = m.getVeCrds()[ m.getFaVe()[ m.getElFa()[g*nf+f]*nfv+v ] ];
          l_f[0].insert( { a[0], a[1], a[2] } ); l_f[1].insert( { b[0], b[1], b[2] } );
        }
        VH_REQUIRE( l_f[0] == l_f[1], "elfa", "face %zu of element %zu (partition %d) differs from the global mesh", f, e, p );
        unsigned short l_id[2] = { 65535, 65535 }; unsigned short l_fa = f; t_idx l_ge = g;
        if( ad == NONE ) l_c = 0;
        else {
          int x = l_tg[ l_or[ad] ]; l_c = x == l_tg[l_o] ? 0 : l_tg[l_o] < x ? 1 : 2;
          m.getVeIdsAd( 1, 0, &l_ge, &l_fa, l_id ); m.getFaIdsAd( 1, 0, &l_ge, &l_fa, l_id+1 );
        }
        l_rel3[l_c] = true;
        size_t l_ad = ad == NONE || l_pa[ l_or[ad] ] != p ? NONE : ad-l_first;
        VH_REQUIRE( r.elFaEl[e*nf+f] == l_ad, "elfael", "neighbor of element %zu at face %zu is %zu, expected %zu", e, f, r.elFaEl[e*nf+f], l_ad );
        VH_REQUIRE( r.ve[e*nf+f] == l_id[0] && r.fa[e*nf+f] == l_id[1], "ids", "partition %d: element %zu, face %zu: ids of the neighbor are %d, %d, expected %d, %d", p, e, f, r.ve[e*nf+f], r.fa[e*nf+f], l_id[0], l_id[1] );
        for( int c = 0; c < 3; c++ ) VH_REQUIRE( r.ad[e*nf+f][c] == ( c == l_c ), "lts-face", "partition %d: element %zu, face %zu: relation %d is %d", p, e, f, c, (int) r.ad[e*nf+f][c] );
        VH_REQUIRE( r.faSp[ r.elFa[e*nf+f] ] == (long long) ( m.getSpTypeFa()[ m.getElFa()[g*nf+f] ] | 64 ), "sptype", "type of face %zu of element %zu is %lld", f, e, r.faSp[ r.elFa[e*nf+f] ] );
      }
      for( int c = 0; c < 3; c++ ) VH_REQUIRE( r.el[e][c] == l_rel3[c], "lts-el", "partition %d: element %zu: relation %d is %d", p, e, c, (int) r.el[e][c] );
      VH_REQUIRE( r.other[e] == 64, "lts-el", "partition %d: element %zu: other bits of the type changed: %lld", p, e, r.other[e] );
    }
    l_first += l_nE;
    remove( l_msh.c_str() ); remove( l_h5.c_str() );
  }
  H5close();
  vh::obs( l_which ); for( int t : l_tg ) vh::obs( t ); for( int p : l_pa ) vh::obs( p );
  if( l_nPas > 1 && l_nTgs > 1 ) vh::nontrivial();
}
int main( int c, char ** v ) {
  std::string l_b = std::string( getenv( "VH_TMP" ) ? getenv( "VH_TMP" ) : "/tmp" ) + "/vedgevXXXXXX"; std::vector< char > l_t( l_b.begin(), l_b.end() ); l_t.push_back( 0 ); if( !mkdtemp( l_t.data() ) ) return 2; g_dir = l_t.data();
  io::Gmsh l_gmsh; g_gmsh = &l_gmsh; int r = vh::run( c, v, "load", body );
  remove( ( g_dir + "/m_1.msh" ).c_str() ); rmdir( l_t.data() ); return r; }
