// Round trip of annotations through HDF5: all types x sizes x values at the boundaries of the types.
#include "io/Hdf5.h"
#include "vh.hpp"
#include <cstring>
#include <limits>
#include <string>
#include <unistd.h>
using namespace edge_v;
extern "C" int H5close();
static std::string g_path;
template< typename T > static void trip( std::vector< T > const & i_vals ) {
  // all sequences of the values up to a length, in up to three data sets, which are written and read in any order
  int l_nSets = 1 + vh::choose( 3 );
  std::vector< std::vector< T > > l_data( l_nSets );
  for( auto & d : l_data ) {
    int n = vh::choose( l_nSets == 1 ? 4 : 3 ); int m = l_nSets == 1 ? ( n == 3 && !vh::thorough() ? 4 : (int) i_vals.size() ) : l_nSets == 2 ? 3 : 2;
    for( int i = 0; i < n; i++ ) d.push_back( i_vals[ l_nSets == 1 ? vh::choose( m ) : ( i_vals.size()-1 + vh::choose( m ) ) % i_vals.size() ] );
  }
  bool l_grp = vh::choose( 2 ), l_fst = vh::choose( 2 ), l_same = vh::choose( 2 );
  auto l_name = [&]( int s ) { return std::string( l_grp ? "/edge_v/" : "/" ) + ( s == 0 ? "send_el" : s == 1 ? "send_e" : "send_el2" ); };
  vh::note( "%d data sets, group %d, reversed %d, same handle %d", l_nSets, l_grp, l_fst, l_same );
  for( auto & d : l_data ) { vh::note( " [" ); for( auto v : d ) vh::note( " %s", std::to_string( v ).c_str() ); vh::note( "]" ); }
  if( vh::choose( 2 ) ) { FILE * f = fopen( g_path.c_str(), "w" ); fputs( "old content, not in HDF5 format", f ); fclose( f ); }
  {
    io::Hdf5 * l_h = new io::Hdf5( g_path, false );
    if( l_grp ) { VH_REQUIRE( !l_h->exists( "/edge_v" ), "exists", "group exists in a fresh file" ); l_h->createGroup( "/edge_v" ); VH_REQUIRE( l_h->exists( "/edge_v" ), "exists", "group does not exist" ); }
    for( int s = 0; s < l_nSets; s++ ) {
      VH_REQUIRE( !l_h->exists( l_name( s ) ), "exists", "data set %d exists before writing", s );
      l_h->set( l_name( s ), l_data[s].size(), l_data[s].data() );
      VH_REQUIRE( l_h->exists( l_name( s ) ), "exists", "data set %d does not exist", s );
    }
    if( !l_same ) { delete l_h; H5close(); l_h = new io::Hdf5( g_path ); }
    for( int t = 0; t < l_nSets; t++ ) {
      int s = l_fst ? l_nSets-1-t : t;
      VH_REQUIRE( l_h->exists( l_name( s ) ), "exists", "data set %d does not exist after writing the file", s );
      VH_REQUIRE( l_h->nVas( l_name( s ) ) == l_data[s].size(), "size", "data set %d has %zu values", s, (size_t) l_h->nVas( l_name( s ) ) );
      std::vector< T > l_got( l_data[s].size()+2 ); memset( (void*) l_got.data(), 0x5a, sizeof( T ) * l_got.size() ); T l_guard = l_got.back();
      l_h->get( l_name( s ), l_got.data() );
      for( size_t i = 0; i < l_data[s].size(); i++ ) VH_REQUIRE( memcmp( &l_got[i], &l_data[s][i], sizeof( T ) ) == 0, "value", "value %zu of set %d is %s, wrote %s", i, s, std::to_string( l_got[i] ).c_str(), std::to_string( l_data[s][i] ).c_str() );
      for( size_t i = l_data[s].size(); i < l_got.size(); i++ ) VH_REQUIRE( memcmp( &l_got[i], &l_guard, sizeof( T ) ) == 0, "overrun", "more values than stored have been written" );
      vh::obs( l_data[s].size() ); for( auto v : l_data[s] ) vh::obs( (long long) v );
    }
    VH_REQUIRE( !l_h->exists( l_grp ? "/edge_v/send" : "/send" ), "exists", "non-existing data set exists" );
    delete l_h;
  }
  H5close();
  if( l_nSets > 1 ) vh::nontrivial();
}
static void body() {
  int l_ty = vh::choose( 4 ); vh::obs( l_ty );
  if( l_ty == 0 ) trip< unsigned short >( { 0, 1, 5, 255, 256, 32767, 32768, 65534, 65535 } );
  else if( l_ty == 1 ) trip< t_idx >( { 0, 1, 255, 65536, (t_idx) 1 << 31, ( (t_idx) 1 << 32 ) + 7, ( (t_idx) 1 << 53 ) + 1, std::numeric_limits< t_idx >::max() / 2 } );
  else if( l_ty == 2 ) trip< float >( { 0, -0.0f, 1, -3.5f, 0.1f, 1E-38f, std::numeric_limits< float >::max(), std::numeric_limits< float >::lowest(), 16777217.0f } );
  else trip< double >( { 0, -0.0, 1, -3.5, 0.1, 1E-300, std::numeric_limits< double >::max(), std::numeric_limits< double >::lowest(), 1.0/3 } );
}
int main( int c, char ** v ) {
  std::string l_t = std::string( getenv( "VH_TMP" ) ? getenv( "VH_TMP" ) : "/tmp" ) + "/vh5XXXXXX"; if( !mkdtemp( &l_t[0] ) ) return 2; g_path = l_t + "/a.h5";
  int r = vh::run( c, v, "h5", body ); remove( g_path.c_str() ); rmdir( l_t.c_str() ); return r;
}
