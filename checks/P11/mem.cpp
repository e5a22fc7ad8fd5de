// Exhaustive enumeration of allocation histories and flexible layouts on the real memory manager with model allocators.
#include <vector>
#include <cstring>
#include <csetjmp>
#include <cstdint>
#include <cstdlib>
#include <cerrno>
#include "data/Dynamic.h"
#include "vh.hpp"

// model allocators: 0 standard, 1 high bandwidth, 2 huge pages
struct Blk { unsigned char * p; size_t size, align; int fam; bool live; };
static std::vector< Blk > g_blk;
static std::vector< unsigned char > g_arena( 1<<19 );
static size_t g_top;
static bool g_expectFatal; static jmp_buf g_jmp; static int g_fail; static bool g_on;
namespace vhlog { void onFatal( char const * i_m ) { if( g_expectFatal ) longjmp( g_jmp, 1 ); fprintf( stderr, "VHLOG %s\n", i_m ); abort(); } }
static void * get( size_t i_s, size_t i_al, int i_fam ) {
  if( g_fail-- == 0 ) return nullptr;
  uintptr_t b = (uintptr_t) g_arena.data(); size_t o = ( ( b+g_top+64+i_al-1 )/i_al*i_al )-b;
  // not better aligned than requested
  if( ( b+o )%( 2*i_al ) == 0 ) o += i_al;
  VH_REQUIRE( o+i_s+64 < g_arena.size(), "harness", "arena" );
  memset( g_arena.data()+g_top, 0xee, o+i_s+64-g_top ); g_top = o+i_s;
  g_blk.push_back( Blk{ g_arena.data()+o, i_s, i_al, i_fam, true } );
  return g_blk.back().p;
}
static void put( void * i_p, int i_fam ) {
  for( Blk & b : g_blk ) if( b.p == i_p ) {
    VH_REQUIRE( b.live, "double free", "memory is released twice" );
    VH_REQUIRE( b.fam == i_fam, "allocator", "memory of allocator %d is released by allocator %d", b.fam, i_fam );
    b.live = false; return;
  }
  vh::fail( "free", "unknown memory is released" );
}
extern "C" {
int __real_posix_memalign( void ** o_p, size_t i_al, size_t i_s ); void __real_free( void * i_p );
int __wrap_posix_memalign( void ** o_p, size_t i_al, size_t i_s ) { if( !g_on ) return __real_posix_memalign( o_p, i_al, i_s ); VH_REQUIRE( i_al%sizeof(void*) == 0 && ( i_al & ( i_al-1 ) ) == 0, "alignment", "alignment %zu", i_al ); void * p = get( i_s, i_al, 0 ); if( !p ) return ENOMEM; *o_p = p; return 0; }
void __wrap_free( void * i_p ) { uintptr_t p = (uintptr_t) i_p, b = (uintptr_t) g_arena.data(); if( g_on && i_p && p >= b && p < b+g_arena.size() ) put( i_p, 0 ); else __real_free( i_p ); }
int hbw_posix_memalign( void ** o_p, size_t i_al, size_t i_s ) { void * p = get( i_s, i_al, 1 ); if( !p ) return ENOMEM; *o_p = p; return 0; }
void hbw_free( void * i_p ) { put( i_p, 1 ); }
}
void * get_hugepage_region( size_t i_len, ghr_t ) { return get( i_len, 4096, 2 ); }
void free_hugepage_region( void * i_p ) { put( i_p, 2 ); }
int gethugepagesizes( long *, int ) { return 0; }
long gethugepagesize() { return 4096; }

static int family( bool i_hbw, bool i_huge ) {
#ifdef VARIANT
  return i_hbw ? 1 : i_huge ? 2 : 0;
#else
  return 0;
#endif
}
struct Ch { int spType; };
static void body() {
  g_blk.clear(); g_top = 0; g_on = true; g_fail = -1; g_expectFatal = false;
  struct Off { ~Off() { g_on = false; } } off;
  auto * d = new edge::data::Dynamic;
  struct A { unsigned char * p; size_t size; int fam; }; std::vector< A > as;
  int n = 1 + vh::choose( vh::thorough() ? 4 : 3 );
  for( int o = 0; o < n; o++ ) {
    bool l_one = n == 1;
    static const size_t S[] = { 0, 1, 64, 1000 }, L[] = { 64, 8, 4096 };
    int l_kind = vh::choose( 2 );
    bool l_hbw = vh::choose( 2 ), l_huge = vh::choose( 2 ); size_t l_al = L[ vh::choose( l_one ? 3 : 2 ) ];
    if( l_kind == 0 ) {
      size_t s = l_one || o == 0 ? vh::pick( S ) : S[ 1+vh::choose( 2 ) ];
      vh::note( "allocate(%zu,%zu,%d,%d) ", s, l_al, l_hbw, l_huge );
      bool l_fl = s > 0 && o == n-1 && vh::choose( 2 );
      if( l_fl ) {
        // the last allocation fails
        vh::note( "fails " );
        g_fail = 0; g_expectFatal = true;
        if( setjmp( g_jmp ) == 0 ) { d->allocate( s, l_al, l_hbw, l_huge ); g_expectFatal = false; vh::fail( "failure", "a failing allocation of %zu bytes is not reported", s ); }
        g_expectFatal = false; g_fail = -1;
        vh::nontrivial(); continue;
      }
      unsigned char * p = (unsigned char *) d->allocate( s, l_al, l_hbw, l_huge );
      if( s == 0 ) { VH_REQUIRE( p == nullptr, "empty", "memory for an empty allocation" ); continue; }
      VH_REQUIRE( p != nullptr && (uintptr_t) p % l_al == 0, "alignment", "%zu bytes, alignment %zu", s, l_al );
      as.push_back( A{ p, s, family( l_hbw, l_huge ) } );
    }
    else {
      // flexible layout
      int nEn = l_one ? vh::choose( 4 ) : 2, nSp = l_one ? vh::choose( 3 ) : 1; size_t l_bs = l_one ? vh::choose( 3 ) : vh::choose( 2 ); if( l_bs == 2 ) l_bs = 5;
      static const int T[] = { 1, 3, 4 }; std::vector< int > ty( nSp+1 ); std::vector< size_t > sz( nSp+1 );
      for( int t = 0; t < nSp; t++ ) { ty[t] = !l_one ? T[t] : vh::pick( T ); sz[t] = !l_one ? 2+t : ( vh::choose( 2 ) ? 3 : t ); }
      std::vector< Ch > ch( nEn+1 ); for( int e = 0; e < nEn; e++ ) ch[e].spType = nSp == 0 ? 1 : ( int[] ){ 0, 1, 3, 7 }[ l_one ? vh::choose( 4 ) : e ];
      vh::note( "flex(%d,%d,%zu", nEn, nSp, l_bs ); for( int t = 0; t < nSp; t++ ) vh::note( " %d:%zu", ty[t], sz[t] ); for( int e = 0; e < nEn; e++ ) vh::note( " %d", ch[e].spType ); vh::note( ") " );
      double ** p = d->flex< double >( nEn, nSp, l_bs, ty.data(), sz.data(), ch.data(), l_al, l_hbw, l_huge );
      size_t tot = 0; for( int e = 0; e < nEn; e++ ) { tot += l_bs; for( int t = 0; t < nSp; t++ ) if( ( ch[e].spType & ty[t] ) == ty[t] ) tot += sz[t]; }
      size_t nP = ( nSp+1 )*nEn + 1;
      VH_REQUIRE( p != nullptr, "flex", "no pointers" );
      as.push_back( A{ (unsigned char *) p, nP*sizeof( double* ), 0 } );
      // base data, followed by the data of every sparse type, in the order of the entities
      double * l_ex = nullptr; if( tot ) { for( Blk & b : g_blk ) if( b.live && b.size == tot*sizeof(double) && (unsigned char *) p != b.p && b.p+b.size == (unsigned char *) p[nP-1] ) l_ex = (double *) b.p; VH_REQUIRE( l_ex != nullptr, "flex", "the ghost pointer does not mark the end of a raw region of %zu values", tot );
        VH_REQUIRE( (uintptr_t) l_ex % l_al == 0, "alignment", "raw data of the flexible layout" ); as.push_back( A{ (unsigned char *) l_ex, tot*sizeof(double), family( l_hbw, l_huge ) } ); vh::nontrivial(); }
      for( int e = 0; e < nEn; e++ ) { VH_REQUIRE( p[e] == l_ex, "flex base", "entity %d", e ); if( l_ex ) l_ex += l_bs; }
      for( int t = 0; t < nSp; t++ ) for( int e = 0; e < nEn; e++ ) {
        double * x = p[ nEn*( t+1 )+e ];
        if( ( ch[e].spType & ty[t] ) == ty[t] ) { VH_REQUIRE( x == l_ex, "flex sparse", "sparse type %d, entity %d", t, e ); if( l_ex ) l_ex += sz[t]; }
        else VH_REQUIRE( x == nullptr, "flex sparse", "entity %d does not have sparse type %d, but data", e, t );
      }
      VH_REQUIRE( p[nP-1] == l_ex, "flex ghost", "ghost pointer" );
    }
  }
  // allocations belong to the user completely, are disjoint and from the requested allocator
  for( A & a : as ) {
    Blk * b = nullptr; for( Blk & x : g_blk ) if( x.live && x.p <= a.p && a.p+a.size <= x.p+x.size ) b = &x;
    VH_REQUIRE( b != nullptr, "size", "an allocation of %zu bytes is not available", a.size );
    VH_REQUIRE( b->fam == a.fam, "allocator", "memory is from allocator %d instead of %d", b->fam, a.fam );
    for( A & c : as ) VH_REQUIRE( &a == &c || a.p+a.size <= c.p || c.p+c.size <= a.p, "overlap", "two allocations overlap" );
    vh::obs( a.size ); vh::obs( a.fam );
  }
  for( Blk & b : g_blk ) VH_REQUIRE( b.live, "released", "memory is released early" );
  delete d;
  for( Blk & b : g_blk ) VH_REQUIRE( !b.live, "leak", "memory of %zu bytes (allocator %d) is not released", b.size, b.fam );
  vh::observe( vh::caseText().data(), vh::caseText().size() );
  if( n > 1 ) vh::nontrivial();
}
int main( int c, char ** v ) { return vh::run( c, v, "memory", body ); }
