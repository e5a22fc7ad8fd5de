// Exhaustive enumeration of work regions, sparse entities, priorities, measured times and scheduling histories on the real work distribution.
#include <vector>
#include <cmath>
#include <limits>
#include <algorithm>
#include <sys/time.h>
#include <omp.h>
#include "parallel/Shared.h"
#include "parallel/global.h"
#include "vh.hpp"

static double g_clock = 0;
extern "C" int gettimeofday( struct timeval * o_t, void * ) { double s = std::floor( g_clock ); o_t->tv_sec = (time_t) s; o_t->tv_usec = (long) std::floor( ( g_clock-s )*1E6+0.5 ); return 0; }

typedef edge::parallel::Shared Sh;
struct Ent { long long spType; };
struct Rgn { unsigned tg, step, id; size_t first, size; int prio; std::vector< int_spType > ty; std::vector< size_t > sz, fi; std::vector< double > ela; std::vector< int > st; };
static int W, OFF;
static std::vector< Ent > g_en;
static void asWorker( int w ) { edge::parallel::g_thread = w+OFF; }
static size_t nSp( size_t i_b, size_t i_e, int_spType t ) { size_t n = 0; for( size_t e = i_b; e < i_e; e++ ) n += ( g_en[e].spType & t ) == t; return n; }

static Sh * init( int i_w, bool i_sep ) {
  W = i_w; OFF = i_sep ? 1 : 0; g_clock = 1000;
  omp_set_dynamic( 0 ); omp_set_num_threads( W+OFF );
  Sh * s = new Sh;
  s->init( i_sep );
  VH_REQUIRE( edge::parallel::g_nThreads == W+OFF, "threads", "%d threads", edge::parallel::g_nThreads );
  for( int t = 0; t < W+OFF; t++ ) {
    edge::parallel::g_thread = t;
    VH_REQUIRE( s->isWrk() == ( t >= OFF ), "roles", "thread %d of %d (separate: %d) worker: %d", t, W+OFF, i_sep, s->isWrk() );
    VH_REQUIRE( s->isSched() == ( t == 0 ) && s->isComm() == ( t == 0 ), "roles", "scheduling/communicating thread %d", t );
  }
  edge::parallel::g_thread = 0;
  return s;
}
static void reg( Sh & s, Rgn & r ) {
  edge::parallel::g_thread = 0;
  s.regWrkRgn( r.tg, r.step, r.id, r.first, r.size, r.prio, r.ty.size(), r.ty.data(), g_en.data() );
  r.ela.assign( W, 0 ); r.st.assign( W, Sh::WAI ); r.sz.clear(); r.fi.clear();
}
// lets worker w do the ready package, which has to belong to r; returns the work
static void work( Sh & s, Rgn & r, int w, size_t & o_first, size_t & o_size, double i_sec, bool i_fin=true ) {
  asWorker( w );
  unsigned short l_tg, l_st; unsigned l_id; int_el l_f, l_s, l_sp[128];
  for( int i = 0; i < 128; i++ ) l_sp[i] = 7777;
  VH_REQUIRE( s.getWrkTd( l_tg, l_st, l_id, l_f, l_s, l_sp ), "no work", "worker %d gets no work although region %u is ready", w, r.id );
  VH_REQUIRE( l_id == r.id && l_tg == r.tg && l_st == r.step, "wrong region", "worker %d gets region %u (tg %d, step %d) instead of region %u (tg %u, step %u)", w, l_id, l_tg, l_st, r.id, r.tg, r.step );
  for( size_t t = 0; t < r.ty.size(); t++ ) {
    // the package's first sparse entity, if it has any
    if( nSp( l_f, l_f+l_s, r.ty[t] ) > 0 )
      VH_REQUIRE( (size_t) l_sp[t] == nSp( 0, l_f, r.ty[t] ), "sparse offset", "region %u worker %d [%u,%u): sparse entities of type %d start at %u instead of %u", r.id, w, (unsigned) l_f, (unsigned) (l_f+l_s), (int) t, (unsigned) l_sp[t], (unsigned) nSp( 0, l_f, r.ty[t] ) );
  }
  VH_REQUIRE( l_sp[r.ty.size()] == 7777, "sparse offset", "more sparse offsets than types are written" );
  o_first = l_f; o_size = l_s;
  s.setStatusTd( Sh::IPR, r.id ); r.st[w] = Sh::IPR;
  g_clock += i_sec;
  if( i_fin ) { s.setStatusTd( Sh::FIN, r.id ); r.st[w] = Sh::FIN; r.ela[w] += i_sec; }
}
// one scheduled execution of the region by all workers: checks the partition
static void execute( Sh & s, Rgn & r, std::vector< double > const & i_sec ) {
  s.setStatusAll( Sh::RDY, r.id );
  std::vector< size_t > f( W ), z( W );
  for( int w = 0; w < W; w++ ) {
    VH_REQUIRE( !s.getStatusAll( Sh::FIN, r.id ), "status", "region %u is finished although worker %d did not do its part", r.id, w );
    work( s, r, w, f[w], z[w], i_sec[w] );
  }
  VH_REQUIRE( s.getStatusAll( Sh::FIN, r.id ), "status", "region %u is not finished", r.id );
  std::vector< int > l_own( r.size, 0 );
  for( int w = 0; w < W; w++ ) for( size_t e = f[w]; e < f[w]+z[w]; e++ ) {
    VH_REQUIRE( e >= r.first && e < r.first+r.size, "outside", "worker %d computes entity %zu outside of the region [%zu,%zu)", w, e, r.first, r.first+r.size );
    l_own[e-r.first]++;
  }
  for( size_t e = 0; e < r.size; e++ ) VH_REQUIRE( l_own[e] == 1, "partition", "entity %zu of region [%zu,%zu) is computed %d times", e+r.first, r.first, r.first+r.size, l_own[e] );
  if( !r.sz.empty() ) VH_REQUIRE( r.sz == z && r.fi == f, "changed", "the work packages of region %u changed without balancing", r.id );
  r.sz = z; r.fi = f;
}
static const double ZERO = 1E-3, IMB = 2.5E-2;
// checks the result of a balancing step; old: sizes before; ela: measured times
static void balanced( Rgn & r, std::vector< size_t > const & i_old, std::vector< double > const & i_ela ) {
  double mi = 1E30, ma = -1, su = 0; for( double e : i_ela ) { mi = std::min( mi, e ); ma = std::max( ma, e ); su += e; }
  auto even = [&]() { for( int w = 0; w < W; w++ ) VH_REQUIRE( r.sz[w] == r.size/W || r.sz[w] == r.size/W+( r.size%W != 0 ), "uneven", "region of %zu entities: worker %d gets %zu although no times are available", r.size, w, r.sz[w] ); };
  if( i_old.empty() || mi < ZERO ) { even(); return; }
  if( ( ma-mi )/( su/W ) < IMB ) { VH_REQUIRE( r.sz == i_old, "needless", "work was redistributed below the imbalance threshold" ); return; }
  double t = 0; for( int w = 0; w < W; w++ ) t += i_old[w]/i_ela[w];
  vh::nontrivial();
  if( t == 0 ) return;   // nothing to distribute
  for( int w = 0; w < W; w++ ) {
    double l_sh = i_old[w]/i_ela[w]/t*r.size;
    VH_REQUIRE( std::fabs( r.sz[w]-l_sh ) < 1+1E-6, "throughput", "worker %d gets %zu of %zu entities, its share by throughput is %g", w, r.sz[w], r.size, l_sh );
  }
}
static void balance( Sh & s, std::vector< Rgn > & r ) {
  edge::parallel::g_thread = 0; s.balance();
}

// single region: sparse patterns x sizes x workers x times
static void patterns() {
  int w = 1 + vh::choose( 4 ); bool sep = vh::choose( 2 );
  Rgn r; r.tg = 3; r.step = 2; r.id = 11; r.prio = 5; r.first = vh::choose( 2 )*2; r.size = vh::choose( vh::thorough() ? 9 : 7 );
  int p = vh::choose( 1 << r.size );
  vh::note( "workers=%d sep=%d region=[%zu,%zu) sparse=%x ", w, sep, r.first, r.first+r.size, p );
  g_en.assign( r.first+r.size+3, Ent{ 0 } );
  for( size_t e = 0; e < g_en.size(); e++ ) { bool in = e >= r.first && e < r.first+r.size, sp = in ? p >> ( e-r.first ) & 1 : ( e&1 ) == 0;
    g_en[e].spType = ( sp ? 101 : 0 ) | ( sp == ( e%3 == 0 ) ? 202 : 0 ); }
  if( vh::choose( 2 ) ) r.ty = { 202, 101, 303 }; else r.ty = { 101 };
  int pat = vh::choose( 4 );
  static const double ti[4][4] = { { 1, 2, 1, 4 }, { 4, 1, 0.5, 1 }, { 1, 1, 1000, 1 }, { 1, 1, 1, 1 } };
  Sh * s = init( w, sep );
  reg( *s, r );
  std::vector< double > l_s( ti[pat], ti[pat]+W );
  std::vector< Rgn > rs( 1, r );
  std::vector< size_t > l_old;
  for( int round = 0; round < 3; round++ ) {
    execute( *s, rs[0], l_s );
    balanced( rs[0], l_old, round ? l_s : std::vector< double >( W, 0 ) );
    l_old = rs[0].sz; rs[0].sz.clear(); for( size_t z : l_old ) vh::obs( z );
    balance( *s, rs );
  }
  vh::obs( p ); vh::obs( r.size ); vh::obs( pat );
  delete s;
}
// single region: measured times x balancing histories
static void times() {
  int w = 1 + vh::choose( vh::thorough() ? 5 : 4 );
  Rgn r; r.tg = 0; r.step = 0; r.id = 0; r.prio = 0; r.first = 3;
  static const size_t l_sz[] = { 0, 1, 2, 3, 5, 8, 13, 100, 1001 };
  r.size = vh::pick( l_sz );
  g_en.assign( r.first+r.size+1, Ent{ 0 } );
  for( size_t e = 0; e < g_en.size(); e++ ) g_en[e].spType = e%3 != 1 ? 101 : 0;
  r.ty = { 101 };
  Sh * s = init( w, w%2 == 0 );
  std::vector< Rgn > rs( 1, r ); reg( *s, rs[0] );
  vh::note( "workers=%d size=%zu times=", w, r.size );
  std::vector< size_t > l_old; std::vector< double > l_ela( W, 0 );
  static const double ti[] = { 1, 0.0002, 2, 1.01, 400 };
  int nR = w <= 2 ? 3 : w == 3 ? 2 : 2, nT = w >= 5 ? 3 : w == 4 && !vh::thorough() ? 3 : 5;
  for( int round = 0; round <= nR; round++ ) {
    // distribution in effect
    int l_nEx = round == 0 ? 1 : 2;
    std::vector< double > l_a( W ), l_now( W, 0 );
    for( int x = 0; x < W; x++ ) { l_a[x] = round < nR ? ti[ vh::choose( nT ) ] : 1; vh::note( "%g ", l_a[x] ); }
    for( int x = 0; x < l_nEx; x++ ) { std::vector< double > h( l_a ); for( double & y : h ) y /= l_nEx; execute( *s, rs[0], h ); }
    balanced( rs[0], l_old, l_ela );
    l_ela = l_a; l_old = rs[0].sz; rs[0].sz.clear(); for( size_t z : l_old ) vh::obs( z );
    vh::note( "| " );
    balance( *s, rs );
  }
  delete s;
}
// several regions: registration order, priorities and interleaved scheduling/balancing
static void regions() {
  int w = 1 + vh::choose( 2 );
  int n = 2 + vh::choose( 2 );
  g_en.assign( 40, Ent{ 0 } );
  for( size_t e = 0; e < g_en.size(); e++ ) g_en[e].spType = ( e*7 )%3 == 0 ? 101 : 0;
  Sh * s = init( w, w%2 == 0 );
  std::vector< Rgn > rs( n );
  vh::note( "workers=%d prios=", w );
  static const unsigned l_ids[] = { 17, 2, 40 }; static const size_t l_fi[] = { 9, 0, 20 }, l_si[] = { 7, 5, 3 };
  for( int i = 0; i < n; i++ ) {
    Rgn & r = rs[i]; r.id = l_ids[i]; r.tg = i+1; r.step = 2*i; r.first = l_fi[i]; r.size = l_si[i]; r.prio = vh::choose( 3 )-1;
    if( i != 1 ) r.ty = { 101 };
    vh::note( "%d ", r.prio ); reg( *s, r );
  }
  int nOps = ( n == 2 ? 5 : 4 ) + ( vh::thorough() ? 2 : 0 );
  for( int o = 0; o < nOps; o++ ) {
    // 0: done, i+1: schedule region i, n+1+w: worker w works, n+1+W: balance, then: reset
    int c = vh::choose( n+1+W+2 );
    vh::note( "%d ", c );
    if( c == 0 ) break;
    if( c <= n ) {
      Rgn & r = rs[c-1]; bool l_ok = true; for( int x : r.st ) l_ok &= x == Sh::FIN || x == Sh::WAI;
      if( !l_ok ) vh::skip();
      s->setStatusAll( Sh::RDY, r.id ); r.st.assign( W, Sh::RDY );
    }
    else if( c <= n+W ) {
      int l_w = c-n-1;
      // highest priority ready region, first registered wins ties
      int b = -1; for( int i = 0; i < n; i++ ) if( rs[i].st[l_w] == Sh::RDY && ( b < 0 || rs[i].prio > rs[b].prio ) ) b = i;
      if( b < 0 ) { asWorker( l_w ); unsigned short a1, a2; unsigned a3; int_el a4, a5, a6[128]; VH_REQUIRE( !s->getWrkTd( a1, a2, a3, a4, a5, a6 ), "work", "worker %d gets work although nothing is ready", l_w ); continue; }
      // ties: any of them
      { asWorker( l_w ); unsigned short a1, a2; unsigned a3 = 0; int_el a4, a5, a6[128]; VH_REQUIRE( s->getWrkTd( a1, a2, a3, a4, a5, a6 ), "no work", "worker %d gets no work", l_w );
        for( int i = 0; i < n; i++ ) if( rs[i].id == a3 && rs[i].prio == rs[b].prio && rs[i].st[l_w] == Sh::RDY ) b = i; }
      size_t f, z; work( *s, rs[b], l_w, f, z, 1+l_w+b );
      vh::obs( f ); vh::obs( z );
      VH_REQUIRE( f >= rs[b].first && f+z <= rs[b].first+rs[b].size, "outside", "region %d: [%zu,%zu)", b, f, f+z );
      if( rs[b].sz.size() == 0 ) { rs[b].sz.assign( W, 99999 ); rs[b].fi.assign( W, 0 ); }
      if( rs[b].sz[l_w] == 99999 ) { rs[b].sz[l_w] = z; rs[b].fi[l_w] = f; }
      VH_REQUIRE( rs[b].sz[l_w] == z && rs[b].fi[l_w] == f, "changed", "package of worker %d in region %d changed without balancing", l_w, b );
    }
    else if( c == n+W+1 ) { for( Rgn & r : rs ) { r.sz.clear(); r.fi.clear(); } balance( *s, rs ); }
    else { s->resetStatus( Sh::WAI ); for( Rgn & r : rs ) r.st.assign( W, Sh::WAI ); }
    for( Rgn & r : rs ) { bool a[4]; for( int q = 0; q < 4; q++ ) { a[q] = true; for( int x : r.st ) a[q] &= x == q; Sh::t_status st = (Sh::t_status) q;
      VH_REQUIRE( s->getStatusAll( st, r.id ) == a[q], "status", "region %u: all in status %d: %d", r.id, q, !a[q] ); } }
    if( c > n && o > 1 ) vh::nontrivial();
  }
  // every region is partitioned at the end
  s->resetStatus( Sh::WAI );
  for( Rgn & r : rs ) { r.sz.clear(); execute( *s, r, std::vector< double >( W, 1 ) ); for( size_t z : r.sz ) vh::obs( z ); }
  for( Rgn & r : rs ) for( int x : r.st ) vh::obs( x );
  for( Rgn & r : rs ) vh::obs( r.prio );
  delete s;
}
// first touch initialization
static void numa() {
  int w = 1 + vh::choose( 5 ); bool sep = vh::choose( 2 );
  Sh * s = init( w, sep );
  int l_kind = vh::choose( 2 );
  std::vector< int > l_in, l_se; size_t l_vas = 1, n = 0;
  if( l_kind == 0 ) n = vh::choose( 14 );
  else {
    int nTgs = 1 + vh::choose( 2 ); l_vas = 1 + vh::choose( 3 );
    for( int i = 0; i < nTgs; i++ ) { l_in.push_back( vh::choose( 4 ) ); l_se.push_back( vh::choose( 4 ) ); n += ( l_in[i]+l_se[i] )*l_vas; }
  }
  vh::note( "workers=%d sep=%d n=%zu kind=%d", w, sep, n, l_kind );
  std::vector< int > l_cnt( n, 0 ); size_t l_mi = 99999, l_ma = 0;
  for( int t = 0; t < W+OFF; t++ ) {
    edge::parallel::g_thread = t;
    std::vector< double > l_a( n+2, 5 );
    if( l_kind == 0 ) s->numaInit( n, l_a.data()+1 );
    else s->numaInit( (unsigned short) l_in.size(), l_in.data(), l_se.data(), l_vas, l_a.data()+1 );
    VH_REQUIRE( l_a[0] == 5 && l_a[n+1] == 5, "outside", "thread %d writes outside of the array", t );
    size_t c = 0;
    for( size_t i = 0; i < n; i++ ) { VH_REQUIRE( l_a[i+1] == 5 || l_a[i+1] == 0, "value", "value %g", l_a[i+1] ); if( l_a[i+1] == 0 ) { l_cnt[i]++; c++; } }
    if( t < OFF ) VH_REQUIRE( c == 0, "not a worker", "the scheduling thread initializes data" );
    else { l_mi = std::min( l_mi, c ); l_ma = std::max( l_ma, c ); vh::obs( c ); }
  }
  for( size_t i = 0; i < n; i++ ) VH_REQUIRE( l_cnt[i] == 1, "first touch", "value %zu of %zu is initialized by %d workers", i, n, l_cnt[i] );
  if( l_kind == 0 ) VH_REQUIRE( l_ma-l_mi <= 1, "uneven", "first touch: between %zu and %zu values per worker", l_mi, l_ma );
  vh::obs( n ); vh::obs( w ); vh::obs( sep ); if( n > 1 && w > 1 ) vh::nontrivial();
  delete s;
}
int main( int c, char ** v ) {
  std::string m = v[c-1];
  return vh::run( c-1, v, m.c_str(), m == "patterns" ? patterns : m == "times" ? times : m == "regions" ? regions : numa );
}
