// Exhaustive enumeration of sparse types, adjacencies and regions against the definition of the sparse layouts.
#include <vector>
#include <limits>
#include <cstdint>
#include <cstring>
#include "data/SparseEntities.hpp"
#include "vh.hpp"
typedef edge::data::SparseEntities SE;
struct Ch { long long spType; };
static bool is( Ch const & c, long long m ) { return ( c.spType & m ) == m; }
// output buffer with exact size, poisoned, surrounded by guards
template< typename T > struct Buf {
  std::vector< T > d; size_t n; T p;
  Buf( size_t i_n ): d( i_n+4 ), n( i_n ) { memset( &p, 0x5a, sizeof(T) ); for( T & x : d ) x = p; }
  T * get() { return d.data()+2; }
  void eq( char const * i_key, std::vector< T > const & i_ref ) {
    VH_REQUIRE( i_ref.size() == n, "harness", "size" );
    for( size_t i = 0; i < n; i++ ) { VH_REQUIRE( d[i+2] == i_ref[i], i_key, "%s: entry %zu is %lld instead of %lld", i_key, i, (long long) d[i+2], (long long) i_ref[i] ); vh::obs( d[i+2] ); }
    VH_REQUIRE( d[0] == p && d[1] == p && d[n+2] == p && d[n+3] == p, i_key, "%s: writes outside of the output", i_key );
  }
};
static void types( std::vector< Ch > & o, int n, std::vector< int > const & vals ) { o.resize( n ); for( int i = 0; i < n; i++ ) { o[i].spType = vh::pick( vals ); vh::note( "%lld ", o[i].spType ); } vh::note( "| " ); }
static void same( char const * k, std::vector< Ch > const & a, std::vector< Ch > const & b ) { for( size_t i = 0; i < a.size(); i++ ) VH_REQUIRE( a[i].spType == b[i].spType, k, "%s: entity %zu has sparse type %lld instead of %lld", k, i, a[i].spType, b[i].spType ); }

template< typename L > static void basic() {
  L const MX = std::numeric_limits< L >::max();
  int n = vh::choose( vh::thorough() ? 7 : 6 );
  static const long long M[] = { 1, 2, 3, 1ll<<40 };
  long long m0 = vh::pick( M ), m1 = vh::pick( M );
  std::vector< Ch > c; 
  c.resize( n ); static const long long V[] = { 0, 1, 2, 3, (1ll<<40)|4 };
  for( int i = 0; i < n; i++ ) c[i].spType = V[ vh::choose( i < 4 ? 5 : 4 ) ];
  for( auto & x : c ) vh::note( "%llx ", x.spType ); vh::note( "masks %llx %llx ", m0, m1 );
  std::vector< L > l_ids, l_sp0Sp1; L k1 = 0;
  for( int e = 0; e < n; e++ ) { if( is( c[e], m0 ) ) { l_ids.push_back( e ); l_sp0Sp1.push_back( is( c[e], m1 ) ? k1 : MX ); } if( is( c[e], m1 ) ) k1++; }
  VH_REQUIRE( SE::nSp( (L) n, m0, c.data() ) == (L) l_ids.size(), "nSp", "number of sparse entities" );
  { Buf< L > b( l_ids.size() ); SE::linkSpDe( (L) n, m0, c.data(), b.get() ); b.eq( "linkSpDe", l_ids ); }
  { Buf< L > b( l_ids.size() ); SE::linkSpSp( (L) n, m0, m1, c.data(), b.get() ); b.eq( "linkSpSp", l_sp0Sp1 ); }
  { std::vector< Ch > r( c ), x( c ); for( auto & y : r ) if( is( y, m0 ) ) y.spType |= m1; SE::inherit( (L) n, m0, m1, x.data() ); same( "inherit", x, r ); }
  vh::obs( m0 ); vh::obs( m1 ); if( l_ids.size() > 1 && l_ids.size() < (size_t) n ) vh::nontrivial();
}
// regions: groups (inner, send) and sub-regions
template< typename L > static void regions() {
  int l_kind = vh::choose( 2 );
  long long m = vh::choose( 2 ) ? 3 : 1;
  std::vector< size_t > z; int n = 0, f = 0;
  int nZ = l_kind == 0 ? 2*( 1+vh::choose( 2 ) ) : vh::choose( 4 );
  if( l_kind == 1 ) n = f = vh::choose( 3 );
  for( int i = 0; i < nZ; i++ ) { z.push_back( vh::choose( 3 ) ); n += z.back(); }
  if( n > 7 ) vh::skip();
  vh::note( "kind=%d first=%d sizes=", l_kind, f ); for( size_t x : z ) vh::note( "%zu ", x );
  std::vector< Ch > c; types( c, n, m == 3 ? std::vector< int >{ 1, 3, 7 } : std::vector< int >{ 0, 5 } );
  std::vector< size_t > fi, si; size_t l_sp = 0; int e = 0;
  for( ; e < f; e++ ) l_sp += is( c[e], m );
  for( size_t x : z ) { fi.push_back( l_sp ); si.push_back( 0 ); for( int y = e+x; e < y; e++ ) if( is( c[e], m ) ) { l_sp++; si.back()++; } }
  if( l_kind == 0 ) {
    int t = nZ/2; Buf< size_t > a( t ), b( t );
    SE::denseToSparse( t, m, c.data(), z.data(), z.data()+t, a.get(), b.get() );
    a.eq( "denseToSparse inner", std::vector< size_t >( si.begin(), si.begin()+t ) ); b.eq( "denseToSparse send", std::vector< size_t >( si.begin()+t, si.end() ) );
  } else {
    std::vector< L > zz( z.begin(), z.end() ); Buf< L > a( nZ ), b( nZ );
    SE::subRgnsSpId( (L) f, nZ, zz.data(), m, c.data(), a.get(), b.get() );
    a.eq( "subRgnsSpId first", std::vector< L >( fi.begin(), fi.end() ) ); b.eq( "subRgnsSpId size", std::vector< L >( si.begin(), si.end() ) );
  }
  vh::obs( n ); vh::obs( f ); if( l_sp > 1 ) vh::nontrivial();
}
// adjacency with a fixed number of adjacent entities, undefined ones included
template< typename L > static void flat() {
  L const MX = std::numeric_limits< L >::max();
  int n = vh::choose( 4 ), a = 1 + vh::choose( n <= 2 ? 3 : 2 ), t = 1 + vh::choose( 3 );
  long long mF = vh::choose( 2 ) ? 3 : 1, mT = vh::choose( 2 ) ? 6 : 2;
  vh::note( "n=%d adj=%d to=%d masks %lld %lld ", n, a, t, mF, mT );
  std::vector< L > ad( n*a ); bool l_un = false;
  // no entity is adjacent to another one twice
  for( int e = 0; e < n; e++ ) for( int x = 0; x < a; x++ ) { int c = vh::choose( t+1 ); if( c < t ) for( int y = 0; y < x; y++ ) if( ad[e*a+y] == (L) c ) vh::skip(); ad[e*a+x] = c == t ? MX : (L) c; l_un |= c == t; vh::note( "%d ", c ); }
  std::vector< Ch > cF, cT; types( cF, n, mF == 3 ? std::vector< int >{ 1, 3 } : std::vector< int >{ 0, 1 } ); types( cT, t, mT == 6 ? std::vector< int >{ 4, 6 } : std::vector< int >{ 0, 2 } );
  // entities not referenced by the adjacency may not exist
  std::vector< L > id( t, MX ); { L k = 0; for( int e = 0; e < t; e++ ) if( is( cT[e], mT ) ) id[e] = k++; }
  { std::vector< Ch > r( cT ), x( cT ); for( int e = 0; e < n; e++ ) if( is( cF[e], mF ) ) for( int y = 0; y < a; y++ ) if( ad[e*a+y] != MX ) r[ ad[e*a+y] ].spType |= 9;
    SE::propAdj( (L) n, a, ad.data(), mF, 9ll, cF.data(), x.data() ); same( "propAdj", x, r ); }
  { std::vector< L > r; for( int e = 0; e < n; e++ ) { bool l_in = false; for( int y = 0; y < a; y++ ) l_in |= ad[e*a+y] != MX && id[ ad[e*a+y] ] != MX;
      if( l_in ) for( int y = 0; y < a; y++ ) r.push_back( ad[e*a+y] == MX ? MX : id[ ad[e*a+y] ] ); }
    Buf< L > b( r.size() ); SE::linkSpAdjSst( (L) n, a, ad.data(), mT, cT.data(), b.get() ); b.eq( "linkSpAdjSst", r ); if( r.size() > 1 ) vh::nontrivial(); }
  { std::vector< L > r; for( int e = 0; e < n; e++ ) if( is( cF[e], mF ) ) for( int y = 0; y < a; y++ ) r.push_back( ad[e*a+y] == MX ? MX : id[ ad[e*a+y] ] );
    Buf< L > b( r.size() ); SE::linkSpAdjDst( (L) n, a, ad.data(), mF, mT, cF.data(), cT.data(), b.get() ); b.eq( "linkSpAdjDst", r ); }
  for( L x : ad ) vh::obs( x ); for( Ch x : cF ) vh::obs( x ); for( Ch x : cT ) vh::obs( x );
}
// adjacency with a varying number of adjacent entities
template< typename L > static void dyn() {
  int n = vh::choose( 4 ), t = 1 + vh::choose( 3 );
  long long mF = vh::choose( 2 ) ? 3 : 1, mT = vh::choose( 2 ) ? 6 : 2;
  vh::note( "n=%d to=%d masks %lld %lld ", n, t, mF, mT );
  std::vector< L > raw; std::vector< size_t > off( 1, 0 );
  for( int e = 0; e < n; e++ ) { int k = vh::choose( n == 3 ? 3 : 4 ); if( k > t ) vh::skip(); for( int i = 0; i < k; i++ ) { L x = vh::choose( t ); for( size_t y = off.back(); y < raw.size(); y++ ) if( raw[y] == x ) vh::skip(); raw.push_back( x ); vh::note( "%d ", (int) x ); } off.push_back( raw.size() ); vh::note( "; " ); }
  std::vector< L const * > ptr; for( size_t o : off ) ptr.push_back( raw.data()+o );
  std::vector< Ch > cF, cT; types( cF, n, mF == 3 ? std::vector< int >{ 2, 3 } : std::vector< int >{ 0, 1 } ); types( cT, t, mT == 6 ? std::vector< int >{ 2, 6 } : std::vector< int >{ 0, 2 } );
  std::vector< L > id( t, 99 ); { L k = 0; for( int e = 0; e < t; e++ ) if( is( cT[e], mT ) ) id[e] = k++; }
  { std::vector< Ch > r( cT ), x( cT ); for( int e = 0; e < n; e++ ) if( is( cF[e], mF ) ) for( size_t y = off[e]; y < off[e+1]; y++ ) r[ raw[y] ].spType |= 9;
    SE::propAdj( (L) n, ptr.data(), mF, 9ll, cF.data(), x.data() ); same( "propAdj (varying)", x, r ); }
  std::vector< L > r; std::vector< size_t > o( 1, 0 );
  for( int e = 0; e < n; e++ ) if( is( cF[e], mF ) ) { for( size_t y = off[e]; y < off[e+1]; y++ ) if( is( cT[ raw[y] ], mT ) ) r.push_back( id[ raw[y] ] ); o.push_back( r.size() ); }
  L l_nR = 77, l_nP = 77; SE::nLinkSpAdjDst( (L) n, ptr.data(), mF, mT, cF.data(), cT.data(), l_nR, l_nP );
  VH_REQUIRE( l_nR == (L) r.size() && l_nP+1 == (L) o.size(), "nLinkSpAdjDst", "sizes %d %d instead of %zu %zu", (int) l_nR, (int) l_nP, r.size(), o.size()-1 );
  Buf< L > b( r.size() ); Buf< L * > p( o.size() );
  SE::linkSpAdjDst( (L) n, ptr.data(), mF, mT, cF.data(), cT.data(), b.get(), p.get() );
  b.eq( "linkSpAdjDst (varying)", r );
  for( size_t i = 0; i < o.size(); i++ ) VH_REQUIRE( p.get()[i] == b.get()+o[i], "linkSpAdjDst pointers", "pointer of sparse entity %zu", i );
  VH_REQUIRE( p.d[0] == p.p && p.d[1] == p.p && p.d[o.size()+2] == p.p, "linkSpAdjDst pointers", "writes outside" );
  for( L x : raw ) vh::obs( x ); for( Ch x : cF ) vh::obs( x ); for( Ch x : cT ) vh::obs( x ); if( r.size() > 1 ) vh::nontrivial();
}
template< typename L > static void all() { switch( vh::choose( 4 ) ) { case 0: basic< L >(); break; case 1: regions< L >(); break; case 2: flat< L >(); break; default: dyn< L >(); } }
static void body() { if( vh::choose( 2 ) ) all< std::size_t >(); else all< unsigned int >(); }
int main( int c, char ** v ) { return vh::run( c, v, "sparse", body ); }
