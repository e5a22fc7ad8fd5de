// Exhaustive enumeration of small meshes in all numberings, passed through gmsh into EDGE-V's mesh interface.
#include "meshfix.hpp"
#include "vh.hpp"
using namespace meshfix;

static io::Gmsh * g_gmsh = nullptr;

// reference faces of the solver's reference elements
static std::vector< std::vector< int > > refFaces( t_entityType t ) {
  if( t == TRIA3 ) return { {0,1}, {1,2}, {2,0} };
  if( t == QUAD4R ) return { {0,1}, {1,2}, {2,3}, {3,0} };
  if( t == TET4 ) return { {0,2,1}, {0,1,3}, {0,3,2}, {1,2,3} };
  return { {0,3,2,1}, {0,1,5,4}, {1,2,6,5}, {3,7,6,2}, {0,4,7,3}, {4,5,6,7} };
}
static bool cl( double a, double b ) { return std::abs( a-b ) < 1E-9 * ( 1 + std::abs( a ) + std::abs( b ) ); }

static void check( Spec const & s, Numbering const & nu, int i_periodic ) {
  vh::note( "%s, %zu elements, vertex numbering [", s.ty == TRIA3 ? "tria3" : s.ty == QUAD4R ? "quad4r" : s.ty == TET4 ? "tet4" : "hex8r", s.els.size() );
  for( int v : nu.ve ) vh::note( "%d ", v );
  vh::note( "] elements [" ); for( int v : nu.el ) vh::note( "%d ", v );
  vh::note( "] local orders [" ); for( int v : nu.lo ) vh::note( "%d ", v );
  vh::note( "] gaps=%d groups=%zu periodic=%d", nu.gaps, s.groups.size(), i_periodic );
  load( s, nu );
  g_gmsh->readMesh();
  VH_REQUIRE( g_gmsh->getElType() == s.ty, "type", "element type %d", (int) g_gmsh->getElType() );
  mesh::Mesh m( *g_gmsh, i_periodic == 0 ? std::numeric_limits< int >::max() : i_periodic );

  size_t nv = s.crds.size(), ne = s.els.size(), nev = CE_N_VES( s.ty ), nef = CE_N_FAS( s.ty ), nfv = CE_N_VES( CE_T_FA( s.ty ) ), nd = CE_N_DIS( s.ty );
  VH_REQUIRE( m.nVes() == nv && m.nEls() == ne && m.getTypeEl() == s.ty, "sizes", "%zu vertices, %zu elements, expected %zu and %zu", (size_t) m.nVes(), (size_t) m.nEls(), nv, ne );
  // vertices are numbered by ascending tags, elements keep their order
  std::vector< int > l_geo( nv ); for( size_t v = 0; v < nv; v++ ) l_geo[ nu.ve[v] ] = v;
  std::vector< int > l_spe( ne ); for( size_t e = 0; e < ne; e++ ) l_spe[ nu.el[e] ] = e;
  std::vector< Vec > x( nv );
  for( size_t v = 0; v < nv; v++ ) { x[v] = s.crds[ l_geo[v] ]; for( int d = 0; d < 3; d++ ) VH_REQUIRE( m.getVeCrds()[v][d] == x[v][d], "crds", "vertex %zu has the wrong coordinates", v ); }

  // expected faces
  std::map< std::set< t_idx >, std::vector< t_idx > > l_faEl;
  std::vector< std::set< t_idx > > l_elSet( ne );
  auto l_f = facesOf( s.ty );
  for( size_t e = 0; e < ne; e++ ) {
    for( int v : s.els[ l_spe[e] ] ) l_elSet[e].insert( nu.ve[v] );
    for( auto & f : l_f ) { std::set< t_idx > k; for( int v : f ) k.insert( nu.ve[ s.els[ l_spe[e] ][v] ] ); l_faEl[k].push_back( e ); }
  }
  VH_REQUIRE( m.nFas() == l_faEl.size(), "nFas", "%zu faces, expected %zu", (size_t) m.nFas(), l_faEl.size() );
  // periodic partners: translated faces at the opposite side
  std::map< std::set< t_idx >, std::pair< std::set< t_idx >, std::map< t_idx, t_idx > > > l_pe;
  std::map< std::set< t_idx >, int > l_spTy;
  for( auto & g : s.groups ) for( auto & f : g.second ) { std::set< t_idx > k; for( int v : f ) k.insert( nu.ve[v] ); l_spTy[k] |= g.first; }
  if( i_periodic != 0 ) {
    Vec lo = x[0], hi = x[0];
    for( auto & c : x ) for( int d = 0; d < 3; d++ ) { lo[d] = std::min( lo[d], c[d] ); hi[d] = std::max( hi[d], c[d] ); }
    for( auto & f : l_faEl ) if( f.second.size() == 1 && l_spTy[f.first] == i_periodic ) for( size_t d = 0; d < nd; d++ ) {
      bool l_at[2] = { true, true };
      for( t_idx v : f.first ) { if( x[v][d] != lo[d] ) l_at[0] = false; if( x[v][d] != hi[d] ) l_at[1] = false; }
      if( !l_at[0] && !l_at[1] ) continue;
      std::set< t_idx > k; std::map< t_idx, t_idx > l_map;
      for( t_idx v : f.first ) for( size_t w = 0; w < nv; w++ ) {
        bool l_eq = x[w][d] == ( l_at[0] ? hi[d] : lo[d] );
        for( int o = 0; o < 3; o++ ) if( o != (int) d && x[w][o] != x[v][o] ) l_eq = false;
        if( l_eq ) { k.insert( w ); l_map[v] = w; }
      }
      if( l_faEl.count( k ) ) l_pe[f.first] = { k, l_map };
    }
  }
  // faces
  std::map< std::set< t_idx >, t_idx > l_id;
  for( size_t f = 0; f < m.nFas(); f++ ) {
    t_idx const * fv = m.getFaVe() + f*nfv;
    for( size_t v = 1; v < nfv; v++ ) VH_REQUIRE( fv[v-1] < fv[v], "face-order", "vertices of face %zu are not ascending", f );
    std::set< t_idx > k( fv, fv+nfv );
    VH_REQUIRE( l_faEl.count( k ) && !l_id.count( k ), "faces", "face %zu does not exist or is duplicated", f );
    l_id[k] = f;
    auto & l_els = l_faEl[k];
    t_idx e0 = m.getFaEl()[f*2], e1 = m.getFaEl()[f*2+1];
    if( l_pe.count( k ) ) VH_REQUIRE( e0 == l_els[0] && e1 == l_faEl[ l_pe[k].first ][0], "face-els", "periodic face %zu is adjacent to elements %zd, %zd", f, (ssize_t) e0, (ssize_t) e1 );
    else if( l_els.size() == 2 ) VH_REQUIRE( e0 == std::min( l_els[0], l_els[1] ) && e1 == std::max( l_els[0], l_els[1] ), "face-els", "face %zu is adjacent to elements %zd, %zd", f, (ssize_t) e0, (ssize_t) e1 );
    else VH_REQUIRE( e0 == l_els[0] && e1 == NONE, "face-els", "boundary face %zu is adjacent to elements %zd, %zd", f, (ssize_t) e0, (ssize_t) e1 );
    VH_REQUIRE( m.getSpTypeFa()[f] == ( l_spTy.count( k ) ? l_spTy[k] : 0 ), "sptype", "face %zu has sparse type %d", f, m.getSpTypeFa()[f] );
    vh::obs( e0 ); vh::obs( e1 );
  }
  // elements
  auto l_rf = refFaces( s.ty );
  std::vector< t_idx > l_qEl; std::vector< unsigned short > l_qFa, l_exFa, l_exVe;
  for( size_t e = 0; e < ne; e++ ) {
    t_idx const * ev = m.getElVe() + e*nev;
    VH_REQUIRE( std::set< t_idx >( ev, ev+nev ) == l_elSet[e], "elve", "element %zu has the wrong vertices", e );
    Vec d1 = sub( x[ev[1]], x[ev[0]] ), d2 = sub( x[ev[ s.ty == QUAD4R || s.ty == HEX8R ? 3 : 2 ]], x[ev[0]] );
    Vec d3 = nd == 3 ? sub( x[ev[ s.ty == HEX8R ? 4 : 3 ]], x[ev[0]] ) : Vec{ 0, 0, 1 };
    VH_REQUIRE( dot( cross( d1, d2 ), d3 ) > 0, "orientation", "vertices of element %zu are not counter-clockwise", e );
    if( s.ty == QUAD4R || s.ty == HEX8R ) {
      static const int c[8][3] = { {0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1} };
      for( size_t v = 0; v < nev; v++ ) for( size_t d = 0; d < nd; d++ ) {
        double l_lo = 1E99, l_hi = -1E99; for( size_t w = 0; w < nev; w++ ) { l_lo = std::min( l_lo, x[ev[w]][d] ); l_hi = std::max( l_hi, x[ev[w]][d] ); }
        VH_REQUIRE( x[ev[v]][d] == ( c[v][d] ? l_hi : l_lo ), "corner", "vertex %zu of element %zu is not at its reference position", v, e );
      }
    }
    for( size_t f = 0; f < nef; f++ ) {
      std::set< t_idx > k; for( int v : l_rf[f] ) k.insert( ev[v] );
      VH_REQUIRE( l_id.count( k ) && m.getElFa()[e*nef+f] == l_id[k], "elfa", "face %zu of element %zu is not the reference element's", f, e );
      auto & l_els = l_faEl[k];
      t_idx ex = l_pe.count( k ) ? l_faEl[ l_pe[k].first ][0] : l_els.size() == 2 ? ( l_els[0] == e ? l_els[1] : l_els[0] ) : NONE;
      VH_REQUIRE( m.getElFaEl()[e*nef+f] == ex, "elfael", "element %zu has neighbor %zd at face %zu, expected %zd", e, (ssize_t) m.getElFaEl()[e*nef+f], f, (ssize_t) ex );
      if( ex != NONE ) {
        // the adjacent element's face, and the position of our first face vertex therein
        t_idx const * av = m.getElVe() + ex*nev;
        auto l_map = [&]( t_idx v ) { return l_pe.count( k ) ? l_pe[k].second[v] : v; };
        std::set< t_idx > k2; for( t_idx v : k ) k2.insert( l_map( v ) );
        int l_fa = -1, l_ve = 0;
        for( size_t g = 0; g < nef; g++ ) { std::set< t_idx > q; for( int v : l_rf[g] ) q.insert( av[v] ); if( q == k2 ) l_fa = g; }
        if( l_fa < 0 ) vh::fail( "harness", "adjacent face not found" );
        if( s.ty == TET4 ) for( int v = 0; v < 3; v++ ) if( av[ l_rf[l_fa][v] ] == l_map( ev[ l_rf[f][0] ] ) ) l_ve = v;
        l_qEl.push_back( e ); l_qFa.push_back( f ); l_exFa.push_back( l_fa ); l_exVe.push_back( l_ve );
      }
    }
  }
  // adjacent ids, with all offsets
  for( t_idx l_off : { (t_idx) 0, (t_idx) 1 } ) {
    std::vector< t_idx > q; std::vector< unsigned short > qf, a, b; std::vector< size_t > p;
    for( size_t i = 0; i < l_qEl.size(); i++ ) if( l_qEl[i] >= l_off ) { q.push_back( l_qEl[i]-l_off ); qf.push_back( l_qFa[i] ); p.push_back( i ); }
    a.assign( q.size()+1, 77 ); b.assign( q.size()+1, 77 );
    m.getFaIdsAd( q.size(), l_off, q.data(), qf.data(), a.data() ); m.getVeIdsAd( q.size(), l_off, q.data(), qf.data(), b.data() );
    VH_REQUIRE( a.back() == 77 && b.back() == 77, "ids-bounds", "out-of-bounds write of adjacent ids" );
    for( size_t i = 0; i < q.size(); i++ ) {
      VH_REQUIRE( a[i] == l_exFa[p[i]], "faidsad", "element %zu, face %d: adjacent face is %d, expected %d", (size_t) l_qEl[p[i]], qf[i], a[i], l_exFa[p[i]] );
      VH_REQUIRE( b[i] == l_exVe[p[i]], "veidsad", "element %zu, face %d: adjacent vertex is %d, expected %d", (size_t) l_qEl[p[i]], qf[i], b[i], l_exVe[p[i]] );
      vh::obs( a[i] ); vh::obs( b[i] );
    }
  }
  // geometry
  double const * l_vol = m.getVolumesEl(), * l_dia = m.getInDiasEl(), * l_area = m.getAreasFa();
  double const (* l_cen)[3] = m.getCentroidsEl(); double const (* l_n)[3] = m.getNormalsFa(); double const (* l_t)[2][3] = m.getTangentsFa();
  std::vector< double > l_areas( m.nFas() );
  for( size_t f = 0; f < m.nFas(); f++ ) {
    t_idx const * fv = m.getFaVe() + f*nfv;
    Vec a = sub( x[fv[1]], x[fv[0]] ), b = nd == 3 ? sub( x[fv[2]], x[fv[0]] ) : Vec{ 0, 0, 1 };
    Vec l_no = cross( a, b ); double l_len = norm( l_no );
    double l_ar = nd == 2 ? norm( a ) : nfv == 3 ? l_len/2 : l_len;
    l_areas[f] = l_ar;
    VH_REQUIRE( cl( l_area[f], l_ar ), "area", "face %zu: area %g, expected %g", f, l_area[f], l_ar );
    for( auto & c : l_no ) c /= l_len;
    // away from the first element
    t_idx e = m.getFaEl()[f*2]; Vec c = { 0, 0, 0 }, fc = { 0, 0, 0 };
    for( size_t v = 0; v < nev; v++ ) for( int d = 0; d < 3; d++ ) c[d] += x[ m.getElVe()[e*nev+v] ][d] / nev;
    for( size_t v = 0; v < nfv; v++ ) for( int d = 0; d < 3; d++ ) fc[d] += x[fv[v]][d] / nfv;
    if( dot( l_no, sub( fc, c ) ) < 0 ) for( auto & y : l_no ) y = -y;
    for( int d = 0; d < 3; d++ ) VH_REQUIRE( cl( l_n[f][d], l_no[d] ), "normal", "face %zu: normal (%g,%g,%g), expected (%g,%g,%g)", f, l_n[f][0], l_n[f][1], l_n[f][2], l_no[0], l_no[1], l_no[2] );
    Vec n = l_no, t0 = { l_t[f][0][0], l_t[f][0][1], l_t[f][0][2] }, t1 = { l_t[f][1][0], l_t[f][1][1], l_t[f][1][2] };
    VH_REQUIRE( cl( norm( t0 ), 1 ) && cl( dot( t0, n ), 0 ), "tangent", "face %zu: first tangent is not a unit vector in the face", f );
    if( nd == 2 ) VH_REQUIRE( cl( cross( n, t0 )[2], 1 ) && norm( t1 ) == 0, "tangent", "face %zu: normal and tangent are not right-handed", f );
    else { Vec w = cross( t0, t1 ); VH_REQUIRE( cl( norm( t1 ), 1 ) && cl( dot( w, n ), 1 ), "tangent", "face %zu: normal and tangents are not orthonormal and right-handed", f ); }
  }
  for( size_t e = 0; e < ne; e++ ) {
    t_idx const * ev = m.getElVe() + e*nev; bool q = s.ty == QUAD4R || s.ty == HEX8R;
    Vec d1 = sub( x[ev[1]], x[ev[0]] ), d2 = sub( x[ev[ q ? 3 : 2 ]], x[ev[0]] ), d3 = nd == 3 ? sub( x[ev[ q ? 4 : 3 ]], x[ev[0]] ) : Vec{ 0, 0, 1 };
    double l_v = std::abs( dot( cross( d1, d2 ), d3 ) ) * ( q ? 1.0 : nd == 2 ? 0.5 : 1.0/6 );
    VH_REQUIRE( cl( l_vol[e], l_v ), "volume", "element %zu: volume %g, expected %g", e, l_vol[e], l_v );
    double l_sum = 0; for( size_t f = 0; f < nef; f++ ) l_sum += l_areas[ m.getElFa()[e*nef+f] ];
    double l_d = q ? std::min( norm( d1 ), norm( d2 ) ) : 2*nd*l_v / l_sum;
    if( s.ty == HEX8R ) l_d = std::min( l_d, norm( d3 ) );
    VH_REQUIRE( cl( l_dia[e], l_d ), "diameter", "element %zu: in-diameter %g, expected %g", e, l_dia[e], l_d );
    for( int d = 0; d < 3; d++ ) {
      double c = 0; for( size_t v = 0; v < nev; v++ ) c += x[ev[v]][d] / nev;
      VH_REQUIRE( cl( l_cen[e][d], c ), "centroid", "element %zu: centroid[%d]=%g, expected %g", e, d, l_cen[e][d], c );
    }
  }
  for( int v : nu.ve ) vh::obs( v );
  for( int v : nu.el ) vh::obs( v );
  for( int v : nu.lo ) vh::obs( v );
  vh::obs( s.groups.size() );
  if( ne > 1 ) vh::nontrivial();
}

static Spec irregular( t_entityType t, int k ) {
  Spec s; s.ty = t;
  if( t == TRIA3 ) { s.crds = { {0,0,0}, {2,0.25,0}, {0.5,1.5,0}, {2.5,2,0}, {-1,1.25,0} }; s.els = { {0,1,2}, {1,3,2}, {2,4,0} }; }
  else { s.crds = { {0,0,0}, {2,0.25,0.125}, {0.5,1.5,0}, {0.5,0.5,1.25}, {2,1.5,1.75}, {-1,0.5,1} }; s.els = { {0,1,2,3}, {1,2,3,4}, {0,2,3,5} }; }
  s.els.resize( k );
  size_t n = 0; for( auto & e : s.els ) for( int v : e ) n = std::max( n, (size_t) v+1 );
  s.crds.resize( n );
  return s;
}

static void body() {
  bool T = vh::thorough();
  static const t_entityType l_tys[] = { TRIA3, QUAD4R, TET4, HEX8R };
  t_entityType t = vh::pick( l_tys );
  int l_mode = vh::choose( 4 );
  Spec s; Numbering nu; int l_per = 0;
  bool l_sim = t == TRIA3 || t == TET4;
  int l_allV = 0, l_allE = 3; bool l_allLo = false;
  if( l_mode == 0 ) { // single element
    s = l_sim ? irregular( t, 1 ) : grid( t, 1, 1, 1, { 1.5, 0.75, 2 } );
    l_allV = t == HEX8R ? ( T ? 8 : 0 ) : 4; l_allLo = true;
    if( t == HEX8R && T ) l_allLo = false;
  }
  else if( l_mode == 1 ) { // two elements
    s = l_sim ? irregular( t, 2 ) : vh::choose( 2 ) ? grid( t, 2, 1, 1, { 1.5, 0.75, 2 } ) : grid( t, 1, 2, 1, { 1.5, 1.75, 2 } );
    l_allV = t == TET4 ? 5 : 6; l_allLo = l_sim;
    if( t == QUAD4R && ( T || vh::choose( 2 ) ) ) { l_allLo = true; if( !T ) l_allV = 0; }
  }
  else if( l_mode == 2 ) { // more elements
    if( vh::choose( 2 ) ) { s = l_sim ? irregular( t, 3 ) : grid( t, 2, 2, 1, { 1.5, 0.75, 2 } ); l_allV = T ? 6 : 5; l_allE = T ? 4 : 3; }
    else { s = t == TRIA3 ? grid( t, 2, 1, 1, { 1.5, 0.75, 2 }, 0.25 ) : t == TET4 ? grid( t, 1, 1, 1, { 1.5, 0.75, 2 }, 0.25 ) : grid( t, 3, 1, 1, { 1.5, 0.75, 2 } ); l_allV = T && t == TET4 ? 8 : 0; l_allE = 0; }
  }
  else { // periodic
    s = grid( t, 3, 3, 3, { 1.5, 0.75, 2 } );
    l_allE = 0;
    int l_dirs = 1 + vh::choose( (1 << CE_N_DIS( t )) - 1 ); // periodic directions
    std::vector< std::vector< int > > l_p, l_o;
    for( auto & f : bndFaces( s ) ) {
      bool l_is = false;
      for( unsigned short d = 0; d < CE_N_DIS( t ); d++ ) { bool l_c = true; for( int v : f ) if( s.crds[v][d] != s.crds[f[0]][d] ) l_c = false; if( l_c && ( l_dirs >> d & 1 ) ) l_is = true; }
      ( l_is ? l_p : l_o ).push_back( f );
    }
    if( vh::choose( 2 ) ) { std::reverse( l_p.begin(), l_p.end() ); }
    s.groups.push_back( { 106, l_p } );
    if( !l_o.empty() ) s.groups.push_back( { 105, l_o } );
    l_per = 106;
  }
  if( l_mode < 3 ) {
    int g = l_mode == 1 && l_sim ? 2 : vh::choose( 4 ); // physical groups: none, boundary, all and a subset twice, every second
    auto b = bndFaces( s ), a = allFaces( s );
    if( g == 1 ) s.groups.push_back( { 101, b } );
    else if( g == 2 ) { std::reverse( a.begin(), a.end() ); s.groups.push_back( { 102, a } ); s.groups.push_back( { 105, { b[0] } } ); }
    else if( g == 3 ) { std::vector< std::vector< int > > h; for( size_t i = 0; i < a.size(); i += 2 ) h.push_back( a[i] ); s.groups.push_back( { 201, h } ); }
  }
  int n = s.crds.size(), ne = s.els.size();
  auto l_vp = perms( n, l_allV );
  if( l_mode == 3 && !T ) l_vp.resize( std::min( l_vp.size(), (size_t) ( ne > 30 ? 6 : t == HEX8R ? 12 : 1000 ) ) );
  nu.ve = vh::pick( l_vp );
  auto l_ep = perms( ne, l_allE );
  if( l_mode == 3 && !T ) l_ep.resize( std::min( l_ep.size(), (size_t) ( ne > 30 ? 3 : 8 ) ) );
  nu.el = vh::pick( l_ep );
  int l_nLo = localOrders( t ).size();
  nu.lo.resize( ne );
  if( l_allLo && l_mode == 1 && t == TET4 && !T ) { // all orders of one of the elements
    int w = vh::choose( 2 ); nu.lo[1-w] = 5; nu.lo[w] = vh::choose( l_nLo );
  }
  else if( l_allLo ) for( auto & l : nu.lo ) l = vh::choose( l_nLo );
  else { int l_a = vh::choose( 3 ); for( int e = 0; e < ne; e++ ) nu.lo[e] = l_a == 0 ? 0 : ( l_a*7 + e*5*l_a ) % l_nLo; }
  vh::count( ( std::string( "m" ) + std::to_string( l_mode ) + "t" + std::to_string( (int) t ) ).c_str() );
  nu.gaps = ( nu.ve[0] % 2 ) == 1;
  check( s, nu, l_per );
}
int main( int c, char ** v ) { io::Gmsh l_gmsh; g_gmsh = &l_gmsh; return vh::run( c, v, "mesh", body ); }
