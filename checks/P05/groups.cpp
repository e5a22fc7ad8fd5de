// Exhaustive enumeration of small meshes (adjacency graphs) x CFL time steps x rates for the time grouping of EDGE-V.
#include <limits>
#include <vector>
#include <cstring>
#include "time/Groups.h"
#include "vh.hpp"
using namespace edge_v;

static const t_idx NONE = std::numeric_limits< t_idx >::max();

// checks one grouping
static void check( t_entityType i_ty, t_idx n, std::vector< t_idx > const & i_elFaEl, std::vector< double > const & i_rates, double i_funDt, std::vector< double > const & i_ts ) {
  unsigned short nf = CE_N_FAS( i_ty );
  vh::note( "nEls=%zu faces=%d rates=[", (size_t) n, nf );
  for( double r : i_rates ) vh::note( "%g ", r );
  vh::note( "] funDt=%g ts=[", i_funDt );
  for( double t : i_ts ) vh::note( "%g ", t );
  vh::note( "] adj=[" );
  for( t_idx a : i_elFaEl ) { if( a == NONE ) vh::note( "- " ); else vh::note( "%zu ", (size_t) a ); }
  vh::note( "]" );

  time::Groups l_g( i_ty, n, i_elFaEl.data(), i_rates.size(), i_rates.data(), i_funDt, i_ts.data() );
  size_t ng = i_rates.size()+1;
  VH_REQUIRE( l_g.nGroups() == ng, "nGroups", "number of groups %d", l_g.nGroups() );
  double const * l_iv = l_g.getTsIntervals();
  std::vector< double > iv( ng+1 );
  iv[0] = i_funDt;
  for( size_t r = 0; r < i_rates.size(); r++ ) iv[r+1] = iv[r]*i_rates[r];
  iv[ng] = std::numeric_limits< double >::max();
  for( size_t g = 0; g <= ng; g++ )
    VH_REQUIRE( vh::close( l_iv[g], iv[g], 1E-12 ), "intervals", "interval bound %zu is %g, expected %g", g, l_iv[g], iv[g] );

  // reference: largest assignment below the CFL-group with jumps of at most one
  std::vector< int > l_ref( n );
  for( t_idx e = 0; e < n; e++ ) {
    l_ref[e] = -1;
    for( size_t g = 0; g < ng; g++ ) if( i_ts[e] >= l_iv[g] && i_ts[e] < l_iv[g+1] ) l_ref[e] = g;
    if( l_ref[e] < 0 ) vh::skip();
  }
  std::vector< int > l_init = l_ref;
  for( t_idx it = 0; it <= n; it++ )
    for( t_idx e = 0; e < n; e++ )
      for( unsigned short f = 0; f < nf; f++ ) {
        t_idx a = i_elFaEl[e*nf+f];
        if( a != NONE && l_ref[e] > l_ref[a]+1 ) l_ref[e] = l_ref[a]+1;
      }
  unsigned short const * l_tg = l_g.getElTg();
  double l_load = 0;
  std::vector< t_idx > l_cnt( ng, 0 );
  bool l_norm = false;
  for( t_idx e = 0; e < n; e++ ) {
    // stability: the group's time step does not exceed the element's admissible one
    VH_REQUIRE( l_tg[e] < ng, "range", "element %zu has group %d", (size_t) e, l_tg[e] );
    VH_REQUIRE( l_iv[l_tg[e]] <= i_ts[e], "stability", "element %zu (ts %g) advances with %g", (size_t) e, i_ts[e], l_iv[l_tg[e]] );
    for( unsigned short f = 0; f < nf; f++ ) {
      t_idx a = i_elFaEl[e*nf+f];
      if( a != NONE ) VH_REQUIRE( l_tg[e] <= l_tg[a]+1, "jump", "elements %zu (group %d) and %zu (group %d) are face-adjacent", (size_t) e, l_tg[e], (size_t) a, l_tg[a] );
    }
    VH_REQUIRE( l_tg[e] == l_ref[e], "group", "element %zu has group %d, expected %d", (size_t) e, l_tg[e], l_ref[e] );
    l_cnt[ l_tg[e] ]++;
    l_load += 1.0 / iv[ l_tg[e] ];
    if( l_ref[e] != l_init[e] ) l_norm = true;
    vh::obs( l_tg[e] );
  }
  for( size_t g = 0; g < ng; g++ ) VH_REQUIRE( l_g.nGroupEls()[g] == l_cnt[g], "counts", "group %zu has %zu elements reported, %zu assigned", g, (size_t) l_g.nGroupEls()[g], (size_t) l_cnt[g] );
  // counts of all contiguous regions
  std::vector< t_idx > l_reg( ng+1, 77 );
  for( t_idx f = 0; f <= n; f++ ) for( t_idx s = 0; f+s <= n; s++ ) {
    l_g.nGroupEls( f, s, l_reg.data() );
    VH_REQUIRE( l_reg[ng] == 77, "counts", "region count wrote out of bounds" );
    for( size_t g = 0; g < ng; g++ ) {
      t_idx c = 0;
      for( t_idx e = f; e < f+s; e++ ) c += ( l_tg[e] == g );
      VH_REQUIRE( c == l_reg[g], "counts", "region [%zu,%zu[ group %zu: %zu reported, %zu assigned", (size_t) f, (size_t) (f+s), g, (size_t) l_reg[g], (size_t) c );
    }
  }
  VH_REQUIRE( vh::close( l_g.getSpeedUp(), n / l_load, 1E-10 ), "speedup", "speedup %g, expected %g", l_g.getSpeedUp(), n / l_load );
  for( t_idx a : i_elFaEl ) vh::obs( a );
  for( double t : i_ts ) vh::obs( t );
  vh::obs( i_funDt ); vh::obs( i_rates.size() );
  if( l_norm ) vh::nontrivial();
}

static void body() {
  static const std::vector< std::vector< double > > l_rates = { {}, {2}, {2,2}, {1.5,2,2}, {2,2,2,2}, {1.1,1.2} };
  static const double l_fun[] = { 1.0, 0.75, 0.51 };
  int l_mode = vh::choose( 3 );
  if( l_mode == 0 ) {
    // all graphs with up to 4 elements and at most three faces, time steps at and around the interval bounds
    std::vector< double > const & r = vh::pick( l_rates );
    double f = vh::pick( l_fun );
    t_idx n = 1 + vh::choose( vh::thorough() ? 4 : 4 );
    std::vector< t_idx > l_adj( n*3, NONE );
    std::vector< int > l_deg( n, 0 );
    bool l_rev = vh::choose( 2 );   // order, in which the face slots are filled
    for( t_idx a = 0; a < n; a++ ) for( t_idx b = a+1; b < n; b++ ) {
      if( l_deg[a] >= 3 || l_deg[b] >= 3 ) continue;
      if( vh::choose( 2 ) ) {
        l_adj[ a*3 + ( l_rev ? 2-l_deg[a] : l_deg[a] ) ] = b; l_deg[a]++;
        l_adj[ b*3 + ( l_rev ? 2-l_deg[b] : l_deg[b] ) ] = a; l_deg[b]++;
      }
    }
    // alphabet: 1, each bound, slightly below each bound, far above
    std::vector< double > l_al = { 1.0 };
    double iv = f;
    for( double x : r ) { iv *= x; if( iv >= 1 ) l_al.push_back( iv ); if( iv*0.999 >= 1 ) l_al.push_back( iv*0.999 ); }
    l_al.push_back( iv*50 );
    if( n == 4 && !vh::thorough() && l_al.size() > 6 ) { // thin out deterministically: keep bounds and the outermost values
      std::vector< double > l_s; for( size_t i = 0; i < l_al.size(); i += ( l_al.size()+4 )/5 ) l_s.push_back( l_al[i] );
      l_s.push_back( l_al.back() ); l_al = l_s;
    }
    std::vector< double > l_ts( n );
    bool l_one = false;
    for( t_idx e = 0; e < n; e++ ) { l_ts[e] = vh::pick( l_al ); l_one |= l_ts[e] == 1.0; }
    if( !l_one ) vh::skip(); // time steps are normalized
    check( TRIA3, n, l_adj, r, f, l_ts );
  }
  else if( l_mode == 1 ) {
    // chains in all numberings: multi-hop normalization, independent of the element order
    t_idx n = vh::thorough() ? 7 : 6;
    bool l_cyc = vh::choose( 2 );
    std::vector< t_idx > l_perm, l_left;
    for( t_idx e = 0; e < n; e++ ) l_left.push_back( e );
    while( !l_left.empty() ) { int c = vh::choose( l_left.size() ); l_perm.push_back( l_left[c] ); l_left.erase( l_left.begin()+c ); }
    std::vector< t_idx > l_adj( n*2, NONE );
    for( t_idx p = 0; p < n; p++ ) {
      if( p > 0 || l_cyc ) l_adj[ l_perm[p]*2+0 ] = l_perm[ (p+n-1) % n ];
      if( p+1 < n || l_cyc ) l_adj[ l_perm[p]*2+1 ] = l_perm[ (p+1) % n ];
    }
    std::vector< double > l_ts( n, 1000.0 );
    l_ts[ l_perm[0] ] = 1.0;
    // second perturbation
    l_ts[ l_perm[ 1+vh::choose( n-1 ) ] ] = vh::choose( 2 ) ? 5.0 : 2.5;
    check( LINE, n, l_adj, std::vector< double >{ 2, 2, 2, 2, 2 }, 1.0, l_ts );
  }
  else {
    // star-shaped neighborhoods for all element types: center with high time step, neighbors with all combinations of groups
    static const t_entityType l_tys[] = { LINE, TRIA3, QUAD4R, TET4, HEX8R };
    t_entityType l_ty = vh::pick( l_tys );
    unsigned short nf = CE_N_FAS( l_ty );
    t_idx n = nf+1;
    t_idx l_center = vh::choose( 2 ) ? nf : 0;
    std::vector< t_idx > l_adj( n*nf, NONE );
    std::vector< double > l_ts( n, 100.0 );
    static const double l_v[] = { 1.0, 2.0, 4.5, 9.0 };
    for( unsigned short f = 0; f < nf; f++ ) {
      t_idx o = l_center == 0 ? f+1 : f;
      l_adj[ l_center*nf+f ] = o;
      l_adj[ o*nf + (f % nf) ] = l_center;
      l_ts[o] = vh::pick( l_v );
    }
    l_ts[ l_center == 0 ? 1 : 0 ] = 1.0;
    check( l_ty, n, l_adj, std::vector< double >{ 2, 2, 2 }, 1.0, l_ts );
  }
}
int main( int c, char ** v ) { return vh::run( c, v, "groups", body ); }
