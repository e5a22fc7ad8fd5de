// Wave field output: all selections of elements, types and histories of writes on the real writer with real files.
#include <cstring>
#include <string>
#include <vector>
#include <limits>
#include "constants.hpp"
#include "data/common.hpp"
#include "io/WaveField.h"
#include "parallel/global.h"
#include "vh.hpp"
#include "submodules/visit_writer/visit_writer.h"
#include <ftw.h>
#include <unistd.h>
#include <sys/stat.h>
static t_entityType const EL = T_SDISC.ELEMENT;
enum { NV = C_ENT[EL].N_VERTICES, NE = 4, NP = NE*2 + NV };
struct Call { std::string file; int bin; std::vector< float > pts; std::vector< std::vector< float > > vars; std::vector< std::string > names; std::vector< int > conn; int type; std::size_t n; };
static std::vector< Call > g_calls;
// reads a legacy VTK file with an unstructured grid, the format of which is documented independently of EDGE
struct Rd { std::string s; std::size_t p = 0; bool bin = false;
  std::string tok() { while( p < s.size() && isspace( (unsigned char) s[p] ) ) p++; std::size_t b = p; while( p < s.size() && !isspace( (unsigned char) s[p] ) ) p++; return s.substr( b, p-b ); }
  std::string line() { std::size_t b = p; while( p < s.size() && s[p] != '\n' ) p++; std::string r = s.substr( b, p-b ); if( p < s.size() ) p++; return r; }
  void eol() { if( bin ) { while( p < s.size() && s[p] != '\n' ) p++; p++; } }
  unsigned w() { VH_REQUIRE( p+4 <= s.size(), "truncated", "binary data ends early" ); unsigned r = 0; for( int i = 0; i < 4; i++ ) r = r << 8 | (unsigned char) s[p++]; return r; }
  float f() { if( bin ) { unsigned u = w(); float x; memcpy( &x, &u, 4 ); return x; } std::string t = tok(); char * e; float x = strtof( t.c_str(), &e ); VH_REQUIRE( t.size() && !*e, "number", "'%s' isn't a number", t.c_str() ); return x; }
  int i() { if( bin ) return int( w() ); std::string t = tok(); char * e; long x = strtol( t.c_str(), &e, 10 ); VH_REQUIRE( t.size() && !*e, "number", "'%s' isn't an integer", t.c_str() ); return x; }
  long n() { std::string t = tok(); char * e; long x = strtol( t.c_str(), &e, 10 ); VH_REQUIRE( t.size() && !*e && x >= 0 && x < 100000, "count", "'%s' isn't a count", t.c_str() ); return x; }
};
static void parse( std::string const & path ) {
  Rd r; { FILE * f = fopen( path.c_str(), "rb" ); VH_REQUIRE( f, "missing", "%s can't be read", path.c_str() ); char b[4096]; std::size_t k; while( ( k = fread( b, 1, sizeof b, f ) ) > 0 ) r.s.append( b, k ); fclose( f ); }
  Call c; c.file = path; c.type = -1; c.n = 0;
  VH_REQUIRE( r.line().rfind( "# vtk DataFile Version", 0 ) == 0, "header", "%s has no VTK header", path.c_str() ); r.line();
  std::string m = r.tok(); VH_REQUIRE( m == "ASCII" || m == "BINARY", "header", "format '%s'", m.c_str() ); c.bin = m == "BINARY";
  bool data = false;
  for( ;; ) {
    r.bin = c.bin; std::string t = r.tok(); if( t.empty() ) break;
    if( t == "DATASET" ) { t = r.tok(); VH_REQUIRE( t == "UNSTRUCTURED_GRID", "dataset", "dataset '%s'", t.c_str() ); }
    else if( t == "POINTS" ) { long n = r.n(); r.tok(); r.eol(); for( long i = 0; i < 3*n; i++ ) c.pts.push_back( r.f() ); }
    else if( t == "CELLS" ) { c.n = r.n(); long z = r.n(); VH_REQUIRE( z == long( c.n )*( NV+1 ), "cells", "size %ld of %ld cells", z, long( c.n ) ); r.eol(); for( std::size_t i = 0; i < c.n; i++ ) { int k = r.i(); VH_REQUIRE( k == NV, "cells", "cell %d has %d vertices", int( i ), k ); for( int v = 0; v < NV; v++ ) c.conn.push_back( r.i() ); } }
    else if( t == "CELL_TYPES" ) { long n = r.n(); VH_REQUIRE( n == long( c.n ), "cells", "%ld types", n ); r.eol(); for( long i = 0; i < n; i++ ) { int y = r.i(); VH_REQUIRE( i == 0 || y == c.type, "cell type", "mixed types" ); c.type = y; } }
    else if( t == "CELL_DATA" ) { VH_REQUIRE( r.n() == long( c.n ), "cells", "cell data of another number of cells" ); data = true; }
    else if( t == "POINT_DATA" ) { VH_REQUIRE( r.n() == long( c.pts.size()/3 ), "points", "point data of another number of points" ); data = false; }
    else if( t == "SCALARS" ) { std::string na = r.tok(); r.tok(); t = r.tok(); if( t != "LOOKUP_TABLE" ) t = r.tok(); r.tok(); r.eol(); std::vector< float > v; for( std::size_t i = 0; i < ( data ? c.n : c.pts.size()/3 ); i++ ) v.push_back( r.f() ); if( data ) { c.names.push_back( na ); c.vars.push_back( v ); } }
    else if( t == "FIELD" ) { r.tok(); long k = r.n(); for( long j = 0; j < k; j++ ) { std::string na = r.tok(); long a = r.n(), b = r.n(); r.tok(); r.eol(); VH_REQUIRE( a*b == long( data ? c.n : c.pts.size()/3 ), "field", "%s: %ldx%ld values", na.c_str(), a, b ); std::vector< float > v; for( long i = 0; i < a*b; i++ ) v.push_back( r.f() ); if( data ) { c.names.push_back( na ); c.vars.push_back( v ); } } }
    else VH_REQUIRE( false, "keyword", "'%.40s' in %s", t.c_str(), path.c_str() );
  }
  g_calls.push_back( c );
}
static std::vector< std::string > g_files;
static int lsf( char const * p, struct stat const * s, int, struct FTW * ) { if( S_ISREG( s->st_mode ) ) g_files.push_back( p ); return 0; }
static void body() {
  static std::string const tmp = [] { char const * b = getenv( "VH_TMP" ); char c[4096]; std::string t = std::string( b && access( b, W_OK ) == 0 ? b : getcwd( c, sizeof c ) ) + "/wf_XXXXXX"; VH_REQUIRE( mkdtemp( &t[0] ) && chdir( t.c_str() ) == 0, "chdir", "no scratch directory" ); return t; }();
  int n = 1 + vh::choose( vh::thorough() ? 4 : 3 ), kind = vh::choose( 4 ), hist = vh::choose( 4 ), path = vh::choose( 3 ), rank = vh::choose( 2 )*3, two = vh::choose( 2 );
  static int_spType const SEL[5] = { std::numeric_limits< int_spType >::max(), 0, 1, 3, (int_spType(1) << 40) | 2 }; int_spType sel = SEL[ vh::choose( 5 ) ];
  static int_spType const SP[5] = { 0, 1, 3, (int_spType(1) << 40) | 2, 7 };
  static t_elementChars el[NE]; static t_vertexChars ve[NP]; static std::size_t elVe[NE][NV]; static real_base dofs[NE][N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS];
  std::vector< int > exp; 
  for( int e = 0; e < n; e++ ) { el[e].spType = SP[ vh::choose( sel == SEL[0] ? 2 : 5 ) ]; if( sel == SEL[0] || ( el[e].spType & sel ) == sel ) exp.push_back( e ); for( int v = 0; v < NV; v++ ) elVe[e][v] = ( ( e*2 + v )*5 + e ) % NP; }
  for( int v = 0; v < NP; v++ ) for( int d = 0; d < 3; d++ ) ve[v].coords[d] = v + 0.25*d - 3;
  static char const * T[4] = { "vtk_ascii", "vtk_binary", "", "hdf5" };
  std::string dir = path == 0 ? tmp : path == 1 ? tmp + "/a/b" : "out", file = path == 1 ? "w.f" : "wf";
  vh::note( "%d elements, type '%s', selection %llx, %d writes%s, rank %d, path %d, printed %d", n, T[kind], (long long) sel, hist, two ? ", two writers" : "", rank, path, int( exp.size() ) );
  if( exp.size() && int( exp.size() ) < n && kind < 2 && hist ) vh::nontrivial();
  edge::parallel::g_rank = rank; edge::parallel::g_rankStr = std::to_string( rank );
  nftw( tmp.c_str(), []( char const * p, struct stat const *, int, struct FTW * f ) { return f->level ? remove( p ) : 0; }, 8, FTW_DEPTH|FTW_PHYS );
  std::vector< std::string > known;
  {
    edge::io::WaveField w( T[kind], dir + "/" + file, NP, n, ve, el, elVe, dofs, sel );
    edge::io::WaveField w2( T[kind], dir + "/second", NP, n, ve, el, elVe, dofs );
    for( int s = 0; s < hist; s++ ) {
      for( int e = 0; e < n; e++ ) for( int q = 0; q < N_QUANTITIES; q++ ) for( int m = 0; m < N_ELEMENT_MODES; m++ ) for( int c = 0; c < N_CRUNS; c++ ) dofs[e][q][m][c] = m == 0 ? 1000*s + 100*e + 10*q + c + 0.5 : -1e6;
      if( two ) w2.write( s*0.5 );
      w.write( s*0.5 );
      if( kind >= 2 ) continue;
      for( int i = 0; i < 1+two; i++ ) if( i == 1 || exp.size() ) known.push_back( std::to_string( i ) + std::to_string( s ) );
    }
  }
  // only now: all files are complete and none of them was touched by later steps
  g_files.clear(); nftw( tmp.c_str(), lsf, 8, FTW_PHYS );
  VH_REQUIRE( g_files.size() == known.size(), "files", "%d files instead of %d: %s", int( g_files.size() ), int( known.size() ), g_files.size() ? g_files[0].c_str() : "" );
  for( auto const & kn : known ) {
        int i = kn[0]-'0', s = kn[1]-'0';
        std::vector< int > all; if( i == 1 ) for( int e = 0; e < n; e++ ) all.push_back( e ); else all = exp;
        std::string p = dir + "/" + std::to_string( rank ) + "/" + ( i ? "second" : file ) + "_" + std::to_string( rank ) + "_" + std::to_string( s ) + ".vtk";
        g_calls.clear(); parse( p ); Call const & c = g_calls[0];
        VH_REQUIRE( !!c.bin == ( kind == 1 ), "format", "written in binary: %d", c.bin );
        int ty = EL == LINE ? VISIT_LINE : EL == TRIA3 ? VISIT_TRIANGLE : EL == QUAD4R ? VISIT_QUAD : EL == TET4 ? VISIT_TETRA : VISIT_HEXAHEDRON;
        VH_REQUIRE( c.type == ty, "cell type", "cell type %d instead of %d", c.type, ty );
        VH_REQUIRE( c.n == all.size(), "cells", "%d cells instead of %d", int( c.n ), int( all.size() ) );
        VH_REQUIRE( c.vars.size() == N_QUANTITIES*N_CRUNS, "variables", "%d variables", int( c.vars.size() ) );
        for( std::size_t x = 0; x < all.size(); x++ ) {
          int e = all[x];
          for( int v = 0; v < NV; v++ ) { int id = c.conn[x*NV+v]; VH_REQUIRE( id >= 0 && id < int( c.pts.size()/3 ), "vertex", "cell %d has the vertex %d", int( x ), id );
            for( int d = 0; d < 3; d++ ) VH_REQUIRE( c.pts[3*id+d] == float( ve[ elVe[e][v] ].coords[d] ), "vertex", "cell %d (element %d), vertex %d: coordinate %d is %g", int( x ), e, v, d, c.pts[3*id+d] ); }
          for( int r = 0; r < N_CRUNS; r++ ) for( int q = 0; q < N_QUANTITIES; q++ ) {
            std::string na = "crun_" + std::to_string( r ) + "_var_" + std::to_string( q ); int i = -1; for( std::size_t y = 0; y < c.names.size(); y++ ) if( c.names[y] == na ) { VH_REQUIRE( i < 0, "variables", "%s exists twice", na.c_str() ); i = y; }
            VH_REQUIRE( i >= 0, "variables", "%s missing", na.c_str() );
            VH_REQUIRE( c.vars[i][x] == float( 1000*s + 100*e + 10*q + r + 0.5 ), "value", "step %d, element %d, %s: %g", s, e, na.c_str(), c.vars[i][x] ); }
          vh::observe( &c.conn[x*NV], sizeof( int )*NV );
        }
  }
}
int main( int argc, char ** argv ) { return vh::run( argc, argv, "wf", body ); }
