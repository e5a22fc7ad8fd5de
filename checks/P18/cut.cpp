// Exhaustive enumeration of surface grids for EDGEcut: the six written surfaces are read back and have to form a closed, outward oriented boundary.
#include <vector>
#include <map>
#include <set>
#include <array>
#include <string>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <unistd.h>
#include "mesh/Extrude.h"
#include "vh.hpp"
int edge_cut_main( int, char ** );
static bool g_expect; struct Rejected {}; static bool g_fatal;
namespace vhlog { void onFatal( char const * i_m ) { if( g_expect ) throw Rejected(); fprintf( stderr, "VHLOG %s\n", i_m ); abort(); } }
typedef std::array< double, 3 > P3;
struct Off { std::vector< P3 > pts; std::vector< std::array< long, 3 > > tri; };
static char const * NAMES[6] = { "left", "right", "front", "back", "bottom", "top" };

static Off parse( std::string const & i_s, char const * i_n ) {
  std::vector< std::string > ls; std::string l; std::istringstream is( i_s );
  while( std::getline( is, l ) ) if( !l.empty() && l[0] != '#' ) ls.push_back( l );
  VH_REQUIRE( ls.size() >= 2 && ls[0] == "OFF", "header", "%s: no OFF header", i_n );
  size_t nv, nf, ne; std::istringstream h( ls[1] ); h >> nv >> nf >> ne;
  VH_REQUIRE( !h.fail(), "header", "%s: counts", i_n );
  VH_REQUIRE( ls.size() == 2+nv+nf, "counts", "%s: the header announces %zu vertices and %zu faces, but there are %zu lines", i_n, nv, nf, ls.size()-2 );
  Off o;
  for( size_t v = 0; v < nv; v++ ) { P3 p; std::istringstream s( ls[2+v] ); s >> p[0] >> p[1] >> p[2]; VH_REQUIRE( !s.fail(), "syntax", "%s: vertex line '%s'", i_n, ls[2+v].c_str() ); for( double & d : p ) if( d == 0 ) d = 0; o.pts.push_back( p ); }
  for( size_t f = 0; f < nf; f++ ) {
    long n; std::array< long, 3 > t; std::istringstream s( ls[2+nv+f] ); s >> n >> t[0] >> t[1] >> t[2];
    VH_REQUIRE( !s.fail() && n == 3, "syntax", "%s: face line '%s'", i_n, ls[2+nv+f].c_str() );
    for( long v : t ) VH_REQUIRE( v >= 0 && v < (long) nv, "syntax", "%s: face with vertex %ld of %zu", i_n, v, nv );
    o.tri.push_back( t );
  }
  return o;
}
// coordinates of the grid lines: equidistant, varying, far off the origin with a fine spacing
static double line( int i_pat, int i_i, int i_dim ) {
  static double const var[5] = { 1, 2.5, 0.75, 1.5, 2 };
  double x = 0;
  if( i_pat == 0 ) return i_i*( i_dim ? 1.0 : 2.0 )-3;
  if( i_pat == 1 ) { for( int k = 0; k < i_i; k++ ) x += ( i_dim ? 1 : 1.5 )*var[( k*( i_dim ? 3 : 2 )+i_dim )%5]; return x-4; }
  return ( i_dim ? 3812340.25 : -1364500.5 )+i_i*0.5;
}
static void body() {
  int levels = vh::choose( vh::thorough() ? 4 : 3 );
  static std::vector< std::vector< int > > const SIZES = { { 1, 2, 3, 4 }, { 2, 3, 4, 6, 8, 10 }, { 4, 8, 10, 12, 16, 20 }, { 12, 24, 28, 36 } };
  int nc[2]; for( int d = 0; d < 2; d++ ) nc[d] = vh::pick( SIZES[levels] );
  int pat = vh::choose( 3 );
  int noise = pat == 2 ? 0 : vh::choose( 2 );
  int order = pat == 2 ? 3*vh::choose( 2 ) : vh::choose( 4 );
  bool tiny = nc[0]*nc[1] <= ( vh::thorough() ? 2 : 1 );
  int surf = tiny ? 0 : vh::choose( 4 );
  static double const ZT[] = { -7.3, 0, -31.125 };
  int zti = pat == 2 ? vh::choose( 2 ) : vh::choose( 3 ); double zT = ZT[zti];
  bool viaMain = order == 0 || ( order == 3 && zti == 0 );
  int nx = nc[0]+1, ny = nc[1]+1;
  std::vector< P3 > pts;
  for( int i = 0; i < nx; i++ ) for( int j = 0; j < ny; j++ ) {
    P3 p; p[0] = line( pat, i, 0 ); p[1] = line( pat, j, 1 );
    // noise below the tolerance
    if( noise ) p[0] += ( ( i*7+j*5 )%3-1 )*0.0001;
    if( tiny ) p[2] = ( (double[]) { 0.1, 2.3, 5 } )[vh::choose( 3 )];
    else if( surf == 0 ) p[2] = 2.3;
    else if( surf == 1 ) p[2] = 0.5+0.25*i+0.125*j;
    else if( surf == 2 ) p[2] = ( i == 0 || j == ny-1 ) ? 3.7 : 0.3;
    else p[2] = 0.1+( ( i*11+j*17 )%7 )*1.3;
    pts.push_back( p );
  }
  int ratio = 1 << levels, buf = 2*ratio-2;
  bool ok = nc[0]%ratio == 0 && nc[1]%ratio == 0 && nc[0] >= 2*buf && nc[1] >= 2*buf;
  vh::note( "grid of %d x %d cells, %d levels, grid lines %d, noise %d, order of the points %d, surface %d, target %g%s", nc[0], nc[1], levels, pat, noise, order, surf, zT, viaMain ? ", program" : "" );
  std::vector< P3 > in = pts;
  if( order == 1 ) { in.clear(); for( int j = 0; j < ny; j++ ) for( int i = 0; i < nx; i++ ) in.push_back( pts[i*ny+j] ); }
  else if( order == 2 ) std::reverse( in.begin(), in.end() );
  else if( order == 3 ) { uint32_t s = 12345; for( size_t k = in.size(); k > 1; k-- ) { s = s*1664525u+1013904223u; std::swap( in[k-1], in[( s>>8 )%k] ); } }

  std::string out[6]; g_fatal = false;
  static std::string dir;
  if( dir.empty() ) { std::string t = std::string( getenv( "VH_TMP" ) )+"/cutXXXXXX"; if( !mkdtemp( &t[0] ) ) abort(); dir = t; }
  if( viaMain ) {
    { std::ofstream g( dir+"/grid" ); g.precision( 17 ); for( P3 & p : in ) g << p[0] << " " << p[1] << " " << p[2] << "\n"; }
    { std::ofstream x( dir+"/c.xml" ); x.precision( 17 ); x << "<edge_cut><extrude><in>" << dir << "/grid</in><target_z>" << zT << "</target_z><n_levels>" << levels << "</n_levels></extrude><mesh><files><out>";
      for( char const * n : NAMES ) x << "<" << n << ">" << dir << "/" << n << ".off</" << n << ">"; x << "</out></files></mesh></edge_cut>"; }
    for( char const * n : NAMES ) unlink( ( dir+"/"+n+".off" ).c_str() );
    static std::string xml; xml = dir+"/c.xml"; static char a0[] = "edge_cut", a1[] = "-x"; static char * av[4]; av[0] = a0; av[1] = a1; av[2] = &xml[0]; av[3] = nullptr;
    g_expect = !ok;
    try { int rc = edge_cut_main( 3, av ); VH_REQUIRE( rc == 0, "exit", "exit code %d", rc ); }
    catch( Rejected & ) { g_fatal = true; }
    g_expect = false;
    if( !g_fatal ) for( int s = 0; s < 6; s++ ) { std::ifstream f( dir+"/"+NAMES[s]+".off" ); std::stringstream b; b << f.rdbuf(); out[s] = b.str(); }
    for( char const * n : NAMES ) unlink( ( dir+"/"+n+".off" ).c_str() );
    unlink( ( dir+"/grid" ).c_str() ); unlink( xml.c_str() ); rmdir( dir.c_str() ); dir.clear();
  }
  else {
    rmdir( dir.c_str() ); dir.clear();
    std::ostringstream s[6]; for( auto & o : s ) o.precision( 15 );
    g_expect = !ok;
    try { edge_cut::mesh::Extrude e( in.size(), (double const (*)[3]) in.data(), zT, levels ); e.writeOff( s[0], s[1], s[2], s[3], s[4], s[5] ); }
    catch( Rejected & ) { g_fatal = true; }
    g_expect = false;
    for( int k = 0; k < 6; k++ ) out[k] = s[k].str();
  }
  if( !ok ) { VH_REQUIRE( g_fatal, "accepted", "a grid which can't be coarsened is accepted" ); vh::obs( 0 ); return; }
  if( levels || surf ) vh::nontrivial();

  Off off[6]; for( int s = 0; s < 6; s++ ) { off[s] = parse( out[s], NAMES[s] ); vh::observe( out[s].data(), out[s].size() ); }
  std::map< std::pair< P3, P3 >, int > edges;
  static int const DIR[6] = { 0, 0, 1, 1, 2, 2 }; static int const SGN[6] = { -1, 1, -1, 1, -1, 1 };
  double area[6] = { 0 };
  for( int s = 0; s < 6; s++ ) for( auto & t : off[s].tri ) {
    P3 a = off[s].pts[t[0]], b = off[s].pts[t[1]], c = off[s].pts[t[2]];
    int d = DIR[s], e = ( d+1 )%3, f = ( d+2 )%3;
    double n = ( b[e]-a[e] )*( c[f]-a[f] )-( b[f]-a[f] )*( c[e]-a[e] );
    VH_REQUIRE( n*SGN[s] > 1E-6, "orientation", "%s: triangle (%.9g %.9g %.9g) (%.9g %.9g %.9g) (%.9g %.9g %.9g) is degenerate or does not point outward", NAMES[s], a[0], a[1], a[2], b[0], b[1], b[2], c[0], c[1], c[2] );
    area[s] += 0.5*std::abs( n );
    P3 v[3] = { a, b, c };
    for( int k = 0; k < 3; k++ ) {
      int & cnt = edges[{ v[k], v[( k+1 )%3] }];
      VH_REQUIRE( cnt == 0, "overlap", "%s: directed edge (%.9g %.9g %.9g) (%.9g %.9g %.9g) is used twice", NAMES[s], v[k][0], v[k][1], v[k][2], v[( k+1 )%3][0], v[( k+1 )%3][1], v[( k+1 )%3][2] );
      cnt++;
    }
  }
  for( auto & e : edges )
    VH_REQUIRE( edges.count( { e.first.second, e.first.first } ), "closed", "edge (%.17g %.17g %.17g) (%.17g %.17g %.17g) belongs to a single triangle", e.first.first[0], e.first.first[1], e.first.first[2], e.first.second[0], e.first.second[1], e.first.second[2] );
  // areas of top and bottom
  double rect = ( line( pat, nc[0], 0 )-line( pat, 0, 0 ) )*( line( pat, nc[1], 1 )-line( pat, 0, 1 ) );
  for( int s : { 4, 5 } ) VH_REQUIRE( std::abs( area[s]-rect ) < ( noise ? 1E-2 : 1E-5 )*rect, "area", "%s: area %.9g instead of %.9g", NAMES[s], area[s], rect );
  // top: all points, used as requested by the coarsening
  std::set< P3 > tp( off[5].pts.begin(), off[5].pts.end() ), used;
  for( auto & t : off[5].tri ) for( long v : t ) used.insert( off[5].pts[v] );
  VH_REQUIRE( tp.size() == pts.size() && off[5].pts.size() == pts.size(), "points", "top: %zu points (%zu different) of %zu", off[5].pts.size(), tp.size(), pts.size() );
  for( int i = 0; i < nx; i++ ) for( int j = 0; j < ny; j++ ) {
    P3 p = pts[i*ny+j]; bool found = false; P3 q{};
    for( auto & o : { p } ) { auto it = tp.find( o ); if( it != tp.end() ) { found = true; q = *it; } }
    if( !found ) for( auto & o : tp ) if( std::abs( o[0]-p[0] ) < 1E-9*( 1+std::abs( p[0] ) ) && std::abs( o[1]-p[1] ) < 1E-9*( 1+std::abs( p[1] ) ) && std::abs( o[2]-p[2] ) < 1E-9 ) { found = true; q = o; }
    VH_REQUIRE( found, "points", "top: the surface point (%.12g %.12g %.12g) is missing", p[0], p[1], p[2] );
    int d = std::min( std::min( i, nc[0]-i ), std::min( j, nc[1]-j ) );
    bool u = d >= buf; int b = 0;
    for( int s = ratio; s > 1; s /= 2 ) { if( d == b ) u = i%s == 0 && j%s == 0; b += s; }
    VH_REQUIRE( used.count( q ) == (size_t) u, "resolution", "top: point %d %d is %sused", i, j, u ? "not " : "" );
  }
  // sides: equidistant columns below the coarse points of the boundary
  double dMin = 1E99, zMax = -1E99; size_t nSt = 0;
  for( int d = 0; d < 2; d++ ) for( int i = 0; i+ratio <= nc[d]; i += ratio ) dMin = std::min( dMin, line( pat, i+ratio, d )-line( pat, i, d ) );
  for( auto & p : pts ) zMax = std::max( zMax, p[2] );
  for( int s = 0; s < 4; s++ ) {
    std::map< std::pair< double, double >, std::vector< double > > cols;
    for( auto & p : off[s].pts ) cols[{ p[0], p[1] }].push_back( p[2] );
    int n = s < 2 ? nc[1] : nc[0];
    VH_REQUIRE( cols.size() == (size_t) n/ratio+1, "columns", "%s: %zu columns instead of %d", NAMES[s], cols.size(), n/ratio+1 );
    for( int k = 0; k <= n; k += ratio ) {
      int i = s == 0 ? 0 : s == 1 ? nc[0] : k, j = s == 2 ? 0 : s == 3 ? nc[1] : k; P3 p = pts[i*ny+j];
      std::vector< double > * c = nullptr;
      for( auto & e : cols ) if( std::abs( e.first.first-p[0] ) < 1E-9*( 1+std::abs( p[0] ) ) && std::abs( e.first.second-p[1] ) < 1E-9*( 1+std::abs( p[1] ) ) ) c = &e.second;
      VH_REQUIRE( c, "columns", "%s: no column below (%g %g)", NAMES[s], p[0], p[1] );
      std::sort( c->begin(), c->end() );
      if( !nSt ) nSt = c->size();
      VH_REQUIRE( c->size() == nSt && nSt > 1, "columns", "%s: %zu instead of %zu points per column", NAMES[s], c->size(), nSt );
      for( size_t m = 0; m < nSt; m++ ) VH_REQUIRE( std::abs( (*c)[m]-( zT+( p[2]-zT )*m/( nSt-1 ) ) ) < 1E-6, "columns", "%s: depth %g in column (%g %g)", NAMES[s], (*c)[m], p[0], p[1] );
    }
  }
  VH_REQUIRE( ( zMax-zT )/( nSt-1 ) <= dMin*( 1+1E-9 )+( noise ? 1E-3 : 0 ), "depth steps", "vertical spacing %g with a horizontal one of %g", ( zMax-zT )/( nSt-1 ), dMin );
  VH_REQUIRE( nSt-1 <= ( zMax-zT )/dMin*( noise ? 1.01 : 1 )+1+1E-6, "depth steps", "%zu steps for a depth of %g and a horizontal spacing of %g", nSt-1, zMax-zT, dMin );
}
int main( int i_argc, char ** i_argv ) { return vh::run( i_argc, i_argv, "cut", body ); }
