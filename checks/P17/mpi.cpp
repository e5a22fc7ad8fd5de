// All ranks' communication objects in one process on top of a message-matching stand-in for MPI.
#include <limits>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include <cstring>
#include <string>
#include "mpi.h"
#include "parallel/global.h"
#include "parallel/MpiRemix.h"
#include "vh.hpp"
#include "comm.h"
static const size_t NONE = std::numeric_limits< size_t >::max();
// --- MPI ---
struct Req { bool send; int src, dst, tag; unsigned char * buf; size_t size; bool matched, done; int tests; };
static std::vector< Req > g_reqs; static int g_cur = 0, g_n = 1, g_slow = 0;
struct NeedOthers {};
static std::map< std::pair< int, int >, std::vector< unsigned char > > g_coll; static int g_call = 0; // (call, rank)
static void match() {
  for( auto & s : g_reqs ) if( s.send && !s.matched ) for( auto & r : g_reqs ) if( !r.send && !r.matched && r.src == s.src && r.dst == s.dst && r.tag == s.tag ) {
    VH_REQUIRE( s.size <= r.size, "truncate", "message of %zu bytes for a receive of %zu bytes (rank %d to %d, tag %d)", s.size, r.size, s.src, s.dst, s.tag );
    VH_REQUIRE( s.size == r.size, "size", "message of %zu bytes, but %zu bytes are expected (rank %d to %d, tag %d)", s.size, r.size, s.src, s.dst, s.tag );
    memcpy( r.buf, s.buf, s.size ); s.matched = r.matched = true; break;
  }
}
extern "C" {
int MPI_Initialized( int * o ) { *o = 1; return 0; } int MPI_Init( int *, char *** ) { return 0; } int MPI_Init_thread( int *, char ***, int r, int * o ) { *o = r; return 0; } int MPI_Finalize() { return 0; }
int MPI_Comm_size( MPI_Comm, int * o ) { *o = g_n; return 0; } int MPI_Comm_rank( MPI_Comm, int * o ) { *o = g_cur; return 0; } int MPI_Get_version( int * a, int * b ) { *a = 3; *b = 1; return 0; } int MPI_Barrier( MPI_Comm ) { return 0; }
int MPI_Isend( const void * p, int n, MPI_Datatype, int r, int t, MPI_Comm, MPI_Request * o ) { VH_REQUIRE( r >= 0 && r < g_n && r != g_cur && n >= 0 && t >= 0, "args", "send to rank %d, tag %d", r, t ); *o = g_reqs.size(); g_reqs.push_back( { true, g_cur, r, t, (unsigned char *) p, (size_t) n, false, false, 0 } ); match(); return 0; }
int MPI_Irecv( void * p, int n, MPI_Datatype, int r, int t, MPI_Comm, MPI_Request * o ) { VH_REQUIRE( r >= 0 && r < g_n && r != g_cur && n >= 0 && t >= 0, "args", "receive from rank %d, tag %d", r, t ); *o = g_reqs.size(); g_reqs.push_back( { false, r, g_cur, t, (unsigned char *) p, (size_t) n, false, false, 0 } ); match(); return 0; }
int MPI_Test( MPI_Request * q, int * f, MPI_Status * ) {
  if( *q == MPI_REQUEST_NULL ) { *f = 1; return 0; }
  Req & r = g_reqs[*q]; VH_REQUIRE( ( r.send ? r.src : r.dst ) == g_cur && !r.done, "request", "request of another rank or completed request is tested" );
  *f = r.matched && r.tests++ >= ( r.send ? g_slow & 1 : g_slow >> 1 ); if( *f ) { r.done = true; *q = MPI_REQUEST_NULL; } return 0; }
int MPI_Testall( int n, MPI_Request * q, int * f, MPI_Status * ) { *f = 1; for( int i = 0; i < n; i++ ) { int k; MPI_Test( q+i, &k, 0 ); if( !k ) *f = 0; } return 0; }
int MPI_Wait( MPI_Request * q, MPI_Status * ) { if( *q >= 0 ) g_reqs[*q].done = true; *q = MPI_REQUEST_NULL; return 0; } // delivered when the partner posts
int MPI_Waitall( int n, MPI_Request * q, MPI_Status * ) { for( int i = 0; i < n; i++ ) MPI_Wait( q+i, 0 ); return 0; }
int MPI_Allreduce( const void * a, void * b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ) {
  int c = g_call++; size_t z = t == MPI_DOUBLE ? sizeof( double ) : t == MPI_INT ? sizeof( int ) : 0; if( !z || op != MPI_MIN ) { fprintf( stderr, "unsupported reduction\n" ); exit( 2 ); }
  g_coll[{ c, g_cur }] = std::vector< unsigned char >( (unsigned char*) a, (unsigned char*) a + n*z );
  for( int r = 0; r < g_n; r++ ) if( !g_coll.count( { c, r } ) ) throw NeedOthers();
  for( int i = 0; i < n; i++ ) {
    if( t == MPI_DOUBLE ) { double m = std::numeric_limits< double >::max(); for( int r = 0; r < g_n; r++ ) { double x; memcpy( &x, g_coll[{ c, r }].data()+i*z, z ); m = std::min( m, x ); } memcpy( (char*) b + i*z, &m, z ); }
    else { int m = std::numeric_limits< int >::max(); for( int r = 0; r < g_n; r++ ) { int x; memcpy( &x, g_coll[{ c, r }].data()+i*z, z ); m = std::min( m, x ); } memcpy( (char*) b + i*z, &m, z ); }
  }
  return 0; }
}
namespace edge { namespace parallel { int g_thread = 0; char g_threadStr[10] = "0"; int g_nThreads = 1, g_rank = 0, g_nRanks = 1; std::string g_rankStr = "0"; } }
using namespace edge;
static void on( int r ) { g_cur = r; parallel::g_rank = r; parallel::g_nRanks = g_n; }

static void exchange() {
  bool T = vh::thorough();
  size_t n = 2 + vh::choose( T ? 4 : 3 ); int nf = vh::choose( 2 ) ? 3 : 2; size_t l_nBy = vh::choose( 2 ) ? 3 : 1;
  unsigned short nTgs = 1 + vh::choose( n > 3 ? 2 : 3 );
  std::vector< size_t > l_nPa( 1, 1 ), l_pa( 1, 0 );
  for( size_t e = 1; e < n; e++ ) { if( vh::choose( 2 ) ) l_nPa.push_back( 1 ); else l_nPa.back()++; l_pa.push_back( l_nPa.size()-1 ); }
  g_n = l_nPa.size();
  std::vector< unsigned short > l_tg( n ); std::vector< bool > l_send( n ), l_isSe( n, false );
  for( size_t e = 0; e < n; e++ ) {
    bool l_first = e == 0 || l_pa[e] != l_pa[e-1]; int l_min = l_first ? 0 : l_send[e-1]*nTgs + l_tg[e-1], l_max = g_n == 1 ? nTgs : 2*nTgs;
    int v = l_min + vh::choose( l_max-l_min ); l_send[e] = v / nTgs; l_tg[e] = v % nTgs;
  }
  std::vector< int > l_deg( n, 0 ); std::vector< size_t > l_ad( n*nf, NONE ); std::vector< int > l_adFa( n*nf, -1 ); bool l_rev = vh::choose( 2 );
  for( size_t a = 0; a < n; a++ ) for( size_t b = a+1; b < n; b++ ) {
    if( l_deg[a] >= nf || l_deg[b] >= nf || std::abs( l_tg[a]-l_tg[b] ) > 1 || ( l_pa[a] != l_pa[b] && !( l_send[a] && l_send[b] ) ) ) continue;
    if( !vh::choose( 2 ) ) continue;
    int fa = l_rev ? nf-1-l_deg[a]++ : l_deg[a]++, fb = l_rev ? l_deg[b]++ : nf-1-l_deg[b]++;
    if( l_ad[a*nf+fa] != NONE || l_ad[b*nf+fb] != NONE ) vh::skip();
    l_ad[a*nf+fa] = b; l_ad[b*nf+fb] = a; l_adFa[a*nf+fa] = fb; l_adFa[b*nf+fb] = fa;
    if( l_pa[a] != l_pa[b] ) l_isSe[a] = l_isSe[b] = true;
  }
  for( size_t e = 0; e < n; e++ ) if( l_isSe[e] != l_send[e] ) vh::skip();
  g_slow = g_n > 1 ? vh::choose( 4 ) : 0; int l_iter = vh::choose( 2 ) ? 3 : 1;
  vh::note( "faces=%d bytes=%zu nTgs=%d slow=%d partitions=[", nf, l_nBy, nTgs, g_slow ); for( auto p : l_nPa ) vh::note( "%zu ", p ); vh::note( "] tgs=[" ); for( auto t : l_tg ) vh::note( "%d ", t );
  vh::note( "] adj=[" ); for( auto a : l_ad ) { if( a == NONE ) vh::note( "- " ); else vh::note( "%zu ", a ); } vh::note( "]" );
  std::vector< Part > l_cs = commStruct( nf, nTgs, l_ad, l_nPa, l_tg );
  g_reqs.clear(); std::vector< std::unique_ptr< data::Dynamic > > l_dyn; std::vector< std::unique_ptr< parallel::MpiRemix > > l_re;
  for( int r = 0; r < g_n; r++ ) {
    on( r ); l_dyn.emplace_back( new data::Dynamic ); l_re.emplace_back( new parallel::MpiRemix( 0, nullptr ) ); Part & c = l_cs[r]; on( r );
    bool l_has = g_n > 1;
    l_re[r]->init( nTgs, nf, l_nPa[r], l_nBy, l_has ? c.st.data() : nullptr, c.sf.data(), c.se.data(), c.rf.data(), c.re.data(), *l_dyn[r], l_iter );
    VH_REQUIRE( l_re[r]->nCommBuffers() == 1, "buffers", "unexpected number of buffers" );
  }
  std::vector< size_t > l_first( g_n, 0 ); for( int r = 1; r < g_n; r++ ) l_first[r] = l_first[r-1]+l_nPa[r-1];
  auto ptr = [&]( bool s, size_t e, int f ) { int r = l_pa[e]; return ( s ? l_re[r]->getSendPtrs() : l_re[r]->getRecvPtrs() )[0][ ( e-l_first[r] )*nf+f ]; };
  auto size = [&]( bool s, size_t e, int f ) { unsigned short a = l_tg[e], b = l_tg[ l_ad[e*nf+f] ]; return l_nBy * ( ( s ? a > b : a < b ) ? 2 : 1 ); };
  auto code = []( size_t e, int f, int i, size_t b ) { return (unsigned char) ( 1 + ( e*61 + f*17 + i*7 + b*3 ) % 251 ); };
  auto remote = [&]( size_t e, int f ) { size_t a = l_ad[e*nf+f]; return a != NONE && l_pa[a] != l_pa[e]; };
  for( size_t e = 0; e < n; e++ ) for( int f = 0; f < nf; f++ ) VH_REQUIRE( ( ptr( true, e, f ) != nullptr ) == remote( e, f ) && ( ptr( false, e, f ) != nullptr ) == remote( e, f ), "null", "pointers of element %zu, face %d (remote: %d) are wrong", e, f, (int) remote( e, f ) );
  // two cycles of rate-2 local time stepping
  std::vector< int > l_sent( n*nf, -1 ); int l_end = 2 << ( nTgs-1 );
  if( g_n > 1 ) l_end *= 2;
  auto progress = [&]() { for( int k = 0; k < 4; k++ ) for( int r = 0; r < g_n; r++ ) { on( r ); l_re[r]->comm(); } };
  for( int t = 0; t < l_end; t++ ) {
    for( int g = 0; g < nTgs; g++ ) if( t % ( 1 << g ) == 0 ) for( int r = 0; r < g_n; r++ ) { on( r ); bool lt = ( t >> g ) % 2 == 0, l_any = false;
      for( size_t e = 0; e < n; e++ ) if( l_pa[e] == (size_t) r && l_tg[e] == g ) for( int f = 0; f < nf; f++ ) if( remote( e, f ) && ( lt || l_tg[ l_ad[e*nf+f] ] <= g ) ) l_any = true;
      l_re[r]->beginRecvs( lt, g ); VH_REQUIRE( l_re[r]->finRecvs( lt, g ) == !l_any, "fin", "rank %d, group %d: receives finished right after their begin", r, g ); }
    // kernels of all groups which end write their buffers
    for( size_t e = 0; e < n; e++ ) { int g = l_tg[e], i = t >> g; if( ( t+1 ) % ( 1 << g ) ) continue;
      for( int f = 0; f < nf; f++ ) if( remote( e, f ) && ( g >= l_tg[ l_ad[e*nf+f] ] || i%2 == 1 ) ) { for( size_t b = 0; b < size( true, e, f ); b++ ) ptr( true, e, f )[b] = code( e, f, i, b ); l_sent[e*nf+f] = i; } }
    for( size_t e = 0; e < n; e++ ) for( int f = 0; f < nf; f++ ) if( l_sent[e*nf+f] >= 0 ) for( size_t b = 0; b < size( true, e, f ); b++ )
      VH_REQUIRE( ptr( true, e, f )[b] == code( e, f, l_sent[e*nf+f], b ), "overlap", "send data of element %zu, face %d is overwritten by another face", e, f );
    for( int g = nTgs-1; g >= 0; g-- ) if( ( t+1 ) % ( 1 << g ) == 0 ) for( int r = 0; r < g_n; r++ ) {
      bool lt = ( t >> g ) % 2, l_any = false; on( r );
      for( size_t e = 0; e < n; e++ ) if( l_pa[e] == (size_t) r && l_tg[e] == g ) for( int f = 0; f < nf; f++ ) if( remote( e, f ) && ( lt || l_tg[ l_ad[e*nf+f] ] <= g ) ) l_any = true;
      size_t l_o = g_reqs.size(); l_re[r]->beginSends( lt, g );
      VH_REQUIRE( ( g_reqs.size() > l_o ) == l_any, "sends", "rank %d, group %d, lt=%d: %zu messages, expected any: %d", r, g, lt, g_reqs.size()-l_o, (int) l_any );
      VH_REQUIRE( l_re[r]->finSends( lt, g ) == !l_any, "fin", "rank %d, group %d: sends finished right after their begin", r, g );
    }
    progress();
    for( int g = 0; g < nTgs; g++ ) if( ( t+1 ) % ( 1 << g ) == 0 ) for( int r = 0; r < g_n; r++ ) {
      on( r ); bool lt = ( t >> g ) % 2;
      VH_REQUIRE( l_re[r]->finSends( lt, g ), "fin", "rank %d, group %d: sends are not finished", r, g );
      if( lt ) VH_REQUIRE( l_re[r]->finRecvs( true, g ), "fin", "rank %d, group %d: receives are not finished", r, g );
      VH_REQUIRE( l_re[r]->finRecvs( false, g ), "fin", "rank %d, group %d: receives are not finished", r, g );
    }
    for( size_t e = 0; e < n; e++ ) { int g = l_tg[e], i = t >> g; if( ( t+1 ) % ( 1 << g ) ) continue;
      for( int f = 0; f < nf; f++ ) if( remote( e, f ) ) {
        size_t a = l_ad[e*nf+f]; int h = l_tg[a], fb = l_adFa[e*nf+f];
        if( h > g && i%2 == 0 ) continue; // not yet sent
        for( size_t b = 0; b < size( false, e, f ); b++ ) VH_REQUIRE( ptr( false, e, f )[b] == code( a, fb, t >> h, b ), "data", "step %d: element %zu, face %d does not have the data of element %zu, face %d (byte %zu)", t, e, f, a, fb, b );
        VH_REQUIRE( size( false, e, f ) == size( true, a, fb ), "size", "sizes differ" );
      } }
  }
  for( auto & q : g_reqs ) VH_REQUIRE( q.matched && q.done, "leak", "%s of rank %d is never completed", q.send ? "send" : "receive", q.send ? q.src : q.dst );
  // synchronization of raw per-face data
  if( g_n > 1 ) {
    std::vector< std::vector< unsigned char > > l_s( g_n ), l_r( g_n ); g_reqs.clear();
    for( int r = 0; r < g_n; r++ ) {
      Part & c = l_cs[r]; size_t k = 0;
      for( size_t ch = 0; ch < c.st[0]; ch++ ) { for( size_t i = 0; i < c.st[1+ch*4+3]; i++, k++ ) for( size_t b = 0; b < l_nBy; b++ ) l_s[r].push_back( code( l_first[r]+c.se[k], c.sf[k], 0, b ) ); l_s[r].push_back( 200+ch ); }
      l_r[r].assign( l_s[r].size(), 0 );
    }
    for( int r = g_n-1; r >= 0; r-- ) { on( r ); l_re[r]->syncData( 1, l_nBy, l_s[r].data(), l_r[r].data() ); }
    for( int r = 0; r < g_n; r++ ) { Part & c = l_cs[r]; size_t k = 0, o = 0;
      for( size_t ch = 0; ch < c.st[0]; ch++ ) { for( size_t i = 0; i < c.st[1+ch*4+3]; i++, k++ ) for( size_t b = 0; b < l_nBy; b++, o++ ) {
          size_t e = l_first[r]+c.re[k]; int f = c.rf[k]; VH_REQUIRE( l_r[r][o] == code( l_ad[e*nf+f], l_adFa[e*nf+f], 0, b ), "sync", "rank %d: synchronized data of face %zu is wrong", r, k ); }
        int ra = c.st[1+ch*4+1]; size_t l_ch = 0; for( size_t x = 0; x < l_cs[ra].st[0]; x++ ) { size_t * q = &l_cs[ra].st[1+x*4]; if( q[0] == c.st[1+ch*4+2] && q[1] == (size_t) r && q[2] == c.st[1+ch*4] ) l_ch = x; }
        VH_REQUIRE( l_r[r][o++] == 200+l_ch, "sync", "rank %d: synchronized data of channel %zu is wrong", r, ch ); } }
  }
  for( auto p : l_pa ) vh::obs( p ); for( auto t : l_tg ) vh::obs( t ); for( auto a : l_ad ) vh::obs( a ); vh::obs( l_nBy*4+g_slow );
  if( g_reqs.size() > 8 ) vh::nontrivial();
}
// every value is claimed by exactly one rank, which has the minimum
static void minimum() {
  g_n = 1 + vh::choose( vh::thorough() ? 4 : 3 ); size_t l_nV = 1 + vh::choose( 3 ); if( g_n == 4 && l_nV == 3 ) vh::skip();
  static const double V[] = { 0, 1, -1, 1E300 };
  std::vector< std::vector< double > > l_v( g_n, std::vector< double >( l_nV ) ); std::vector< std::vector< unsigned short > > l_m( g_n, std::vector< unsigned short >( l_nV, 7 ) );
  vh::note( "ranks=%d values=", g_n ); for( auto & v : l_v ) { for( auto & x : v ) { x = V[ vh::choose( l_nV == 3 && g_n == 3 && !vh::thorough() ? 3 : 4 ) ]; vh::note( "%g ", x ); } vh::note( "; " ); }
  g_coll.clear(); std::vector< bool > l_done( g_n, false );
  for( int k = 0; k < 8; k++ ) for( int r = 0; r < g_n; r++ ) if( !l_done[r] ) { on( r ); g_call = 0; std::vector< double > l_in = l_v[r]; try { parallel::Distributed::min( l_nV, l_in.data(), l_m[r].data() ); l_done[r] = true; } catch( NeedOthers & ) {} }
  for( int r = 0; r < g_n; r++ ) VH_REQUIRE( l_done[r], "hang", "rank %d does not finish", r );
  for( size_t i = 0; i < l_nV; i++ ) {
    int w = -1, c = 0; double l_min = 1E301; for( int r = 0; r < g_n; r++ ) { l_min = std::min( l_min, l_v[r][i] ); VH_REQUIRE( l_m[r][i] <= 1, "flag", "flag is %d", l_m[r][i] ); if( l_m[r][i] ) { w = r; c++; } }
    VH_REQUIRE( c == 1, "unique", "value %zu is claimed by %d ranks", i, c ); VH_REQUIRE( l_v[w][i] == l_min, "min", "value %zu is claimed by rank %d, which doesn't have the minimum", i, w );
    vh::obs( w ); }
  for( auto & v : l_v ) for( auto x : v ) vh::obs( (long long) ( x > 2 ? 9 : x ) );
  if( g_n > 1 ) vh::nontrivial();
}
int main( int c, char ** v ) { bool m = std::string( v[0] ).find( "minimum" ) != std::string::npos; return vh::run( c, v, m ? "minimum" : "exchange", m ? minimum : exchange ); }
