// Small dense and sparse matrices: all patterns, sizes, leading dimensions and parameters on the real routines against the definitions.
#include <cstring>
#include <vector>
#include <string>
#include <limits>
#include <cmath>
#include <algorithm>
#include "constants.hpp"
#include "linalg/Matrix.h"
#include "data/MmVanilla.hpp"
#include "vh.hpp"
using edge::linalg::Matrix;
typedef real_base R;
static unsigned const NO = std::numeric_limits< unsigned >::max();
template< int N > static double leibniz( R const ( &m )[N][N] ) { int p[N]; for( int i = 0; i < N; i++ ) p[i] = i; double d = 0; do { int inv = 0; for( int i = 0; i < N; i++ ) for( int j = 0; j < i; j++ ) inv += p[j] > p[i]; double t = inv%2 ? -1 : 1; for( int i = 0; i < N; i++ ) t *= m[i][p[i]]; d += t; } while( std::next_permutation( p, p+N ) ); return d; }
template< int N > static void checkInv( R const ( &m )[N][N], double d ) {
  if( d == 0 ) return; R inv[N][N]; Matrix::inv( m, inv ); vh::nontrivial();
  for( int i = 0; i < N; i++ ) for( int j = 0; j < N; j++ ) for( int w = 0; w < 2; w++ ) { double s = 0; for( int k = 0; k < N; k++ ) s += w ? double( m[i][k] )*inv[k][j] : double( inv[i][k] )*m[k][j]; VH_REQUIRE( std::fabs( s - ( i == j ) ) < 1e-4, "inverse", "%dx%d: product (%d,%d) is %g", N, N, i, j, s ); }
}
template< int N > static void det() {
  R m[N][N]; static R const V[4] = { 0, 1, -1, 2 }, S[4] = { 1, -2, 3, 0.5 }; std::string s;
  for( int i = 0; i < N; i++ ) for( int j = 0; j < N; j++ ) { m[i][j] = V[ vh::choose( N == 2 ? 4 : N == 3 ? 3 : 2 ) ]; if( N > 2 ) m[i][j] *= S[i]*S[( j+1 )%4]; s += " " + std::to_string( m[i][j] ); }
  vh::note( "%dx%d%s", N, N, s.c_str() ); double d = leibniz( m ); R r = Matrix::det( m ), q = Matrix::det( N, &m[0][0] );
  VH_REQUIRE( std::fabs( r-d ) < 1e-4*( 1+std::fabs( d ) ), "determinant", "%g instead of %g", double( r ), d ); VH_REQUIRE( q == r, "determinant", "%g by dimension, %g directly", double( q ), double( r ) );
  vh::observe( &r, sizeof r );
  if( N < 4 ) { R( *p )[N < 4 ? N : 3] = (R(*)[N < 4 ? N : 3]) m; R x[N < 4 ? N : 3][N < 4 ? N : 3]; memcpy( x, p, sizeof x ); checkInv( x, d ); }
}
struct Mat { int r, c; std::vector< R > v; R at( int i, int j ) const { return v[i*c+j]; } };
// all patterns of entries; kinds: 0 zero, 1 value, 2 below the tolerance
static Mat pattern( int r, int c, int kinds, double small ) {
  Mat m{ r, c, std::vector< R >( r*c ) }; std::string s;
  for( int i = 0; i < r*c; i++ ) { int k = vh::choose( kinds ); m.v[i] = k == 0 ? 0 : k == 1 ? ( i%2 ? -1 : 1 )*( i+1.5 ) : ( i%3 ? -small : small ); s += "0x."[k]; if( i%c == c-1 ) s += ' '; }
  vh::note( "%dx%d %s", r, c, s.c_str() ); return m;
}
static void crd() {
  static int const S[8][2] = { {1,1}, {1,4}, {4,1}, {2,3}, {3,2}, {3,3}, {2,5}, {5,2} }; int s = vh::choose( vh::thorough() ? 8 : 6 ), t = vh::choose( 2 ); R tol = t ? R( 0.25 ) : R( 0.000001 );
  Mat m = pattern( S[s][0], S[s][1], 3, t ? 0.125 : 5e-7 ); std::vector< R > in = m.v; int n = 0; for( R x : m.v ) n += std::fabs( x ) > tol; if( n && n < m.r*m.c ) vh::nontrivial();
  t_matCrd a; a.nz.assign( 2, 1 ); a.ro.assign( 2, 0 ); a.co.assign( 2, 0 ); if( t ) Matrix::denseToCrd( m.r, m.c, m.v.data(), a, tol ); else Matrix::denseToCrd< R >( m.r, m.c, m.v.data(), a );
  auto same = [&]( t_matCrd const & x, bool tr, char const * w ) { VH_REQUIRE( int( x.nz.size() ) == n && x.ro.size() == x.nz.size() && x.co.size() == x.nz.size(), w, "%s: %d entries instead of %d", w, int( x.nz.size() ), n );
    for( int i = 0; i < n; i++ ) { int p = tr ? x.co[i] : x.ro[i], q = tr ? x.ro[i] : x.co[i]; VH_REQUIRE( p < m.r && q < m.c && std::fabs( m.at( p, q ) ) > tol && x.nz[i] == m.at( p, q ), w, "%s: entry %d (%d,%d) is %g", w, i, p, q, double( x.nz[i] ) ); VH_REQUIRE( i == 0 || std::make_pair( x.ro[i-1], x.co[i-1] ) < std::make_pair( x.ro[i], x.co[i] ), w, "%s: entry %d isn't in row-major order", w, i ); } };
  same( a, false, "coordinates" ); t_matCrd b; b.nz.assign( 1, 3 ); b.ro.assign( 1, 0 ); b.co.assign( 1, 0 ); Matrix::transposeCrd( a, b ); same( b, true, "transposed coordinates" );
  for( int p = 0; p <= m.r; p++ ) for( int q = 0; q <= m.c; q++ ) {
    bool full = p == m.r && q == m.c; int k = 0; for( int i = 0; i < p; i++ ) for( int j = 0; j < q; j++ ) k += std::fabs( m.at( i, j ) ) > tol;
    VH_REQUIRE( int( Matrix::getNnzCrd( p, q, a ) ) == k, "number of non-zeros", "%dx%d of the matrix", p, q );
    for( int w = 0; w < 4; w++ ) {
      bool csr = w%2; if( w > 1 && !full && ( p == 0 || q == 0 ) ) {} t_matCsr cr; t_matCsc cc; cr.val.assign( 3, 7 ); cr.rowPtr.assign( 1, 9 ); cc.val.assign( 3, 7 ); cc.colPtr.assign( 1, 9 );
      if( w == 0 ) Matrix::crdToCsc( p, q, a, cc ); if( w == 1 ) Matrix::crdToCsr( p, q, a, cr );
      if( w == 2 ) { if( full && !t ) Matrix::denseToCsc< R >( m.r, m.c, m.v.data(), cc ); else Matrix::denseToCsc< R >( m.r, m.c, m.v.data(), cc, tol, p, q ); }
      if( w == 3 ) { if( full && !t ) Matrix::denseToCsr< R >( m.r, m.c, m.v.data(), cr ); else Matrix::denseToCsr< R >( m.r, m.c, m.v.data(), cr, tol, p, q ); }
      auto const & val = csr ? cr.val : cc.val; auto const & ptr = csr ? cr.rowPtr : cc.colPtr; auto const & idx = csr ? cr.colIdx : cc.rowIdx; int o = csr ? p : q;
      VH_REQUIRE( int( val.size() ) == k && idx.size() == val.size() && int( ptr.size() ) == o+1, "sizes", "%s of %dx%d: %d values, %d pointers", csr ? "rows" : "columns", p, q, int( val.size() ), int( ptr.size() ) );
      VH_REQUIRE( ptr[0] == 0 && int( ptr[o] ) == k, "pointers", "first %d, last %d", int( ptr[0] ), int( ptr[o] ) );
      for( int i = 0; i < o; i++ ) { VH_REQUIRE( ptr[i] <= ptr[i+1] && int( ptr[i+1] ) <= k, "pointers", "pointer %d", i ); for( unsigned e = ptr[i]; e < ptr[i+1]; e++ ) { int ro = csr ? i : idx[e], co = csr ? idx[e] : i; VH_REQUIRE( ro < p && co < q && val[e] == m.at( ro, co ) && std::fabs( val[e] ) > tol, "entry", "%s: (%d,%d) is %g", csr ? "rows" : "columns", ro, co, double( val[e] ) ); VH_REQUIRE( e == ptr[i] || idx[e-1] < idx[e], "order", "entry %d", int( e ) ); } }
    }
  }
  VH_REQUIRE( m.v == in, "input", "the input changed" ); vh::observe( a.nz.data(), a.nz.size()*sizeof( R ) ); vh::observe( a.ro.data(), a.ro.size()*4 );
}
// fill-in: same matrix, additional explicit zeros only
static void qfma() {
  static int const S[9][3] = { {3,2,1}, {4,1,1}, {4,2,1}, {5,2,1}, {6,2,1}, {4,30,2}, {5,3,1}, {8,2,1}, {6,3,1} }; int s = vh::choose( vh::thorough() ? 9 : 8 ); int r = S[s][0], c = S[s][1], sub = vh::choose( 3 );
  Mat m{ r, c, std::vector< R >( r*c, 0 ) };
  if( c == 30 ) { int a = vh::choose( 16 ), b = vh::choose( 16 ), x = vh::choose( 3 )*14; for( int j = 0; j < c; j++ ) for( int i = 0; i < r; i++ ) m.v[i*c+j] = ( ( j == x || j == 29 ? b : j%7 ? 0 : a ) >> i & 1 )*( 1+i*c+j ); vh::note( "4x30 %d %d %d", a, b, x ); }
  else m = pattern( r, c, 2, 0 );
  int p = sub == 1 ? r-1 : r, q = sub == 2 ? c-1 : c; t_matCsc cc; if( sub ) Matrix::denseToCsc< R >( r, c, m.v.data(), cc, R( 0.000001 ), p, q, "qfma" ); else Matrix::denseToCsc< R >( r, c, m.v.data(), cc, R( 0.000001 ), NO, NO, "qfma" );
  VH_REQUIRE( int( cc.colPtr.size() ) == q+1 && cc.colPtr[0] == 0 && cc.colPtr[q] == cc.val.size() && cc.rowIdx.size() == cc.val.size(), "fill-in sizes", "%d values", int( cc.val.size() ) );
  std::vector< R > d( r*c, 0 ); std::vector< int > seen( r*c, 0 );
  for( int j = 0; j < q; j++ ) { VH_REQUIRE( cc.colPtr[j] <= cc.colPtr[j+1] && cc.colPtr[j+1] <= cc.val.size(), "fill-in pointers", "column %d", j ); for( unsigned e = cc.colPtr[j]; e < cc.colPtr[j+1]; e++ ) { int i = cc.rowIdx[e]; VH_REQUIRE( i < p && !seen[i*c+j], "fill-in entry", "(%d,%d)", i, j ); VH_REQUIRE( e == cc.colPtr[j] || cc.rowIdx[e-1] < cc.rowIdx[e], "fill-in order", "(%d,%d)", i, j ); seen[i*c+j] = 1; d[i*c+j] = cc.val[e]; if( cc.val[e] == 0 ) vh::nontrivial(); } }
  for( int i = 0; i < p; i++ ) for( int j = 0; j < q; j++ ) VH_REQUIRE( d[i*c+j] == m.at( i, j ), "fill-in value", "(%d,%d) is %g instead of %g", i, j, double( d[i*c+j] ), double( m.at( i, j ) ) );
  vh::observe( cc.val.data(), cc.val.size()*sizeof( R ) ); vh::observe( cc.rowIdx.data(), cc.rowIdx.size()*4 );
}
static void block() {
  Mat m = pattern( 3, 3, 2, 0 ); unsigned in[2][2], out[2][2]; for( int i = 0; i < 4; i++ ) { int k = vh::choose( ( i/2 ? m.c : m.r )+1 ); in[i/2][i%2] = k ? k-1 : NO; }
  t_matCrd a; Matrix::denseToCrd< R >( m.r, m.c, m.v.data(), a ); Matrix::getBlockNz( a, in, out ); unsigned ex[2][2] = { {NO, NO}, {NO, NO} };
  for( int i = 0; i < m.r; i++ ) for( int j = 0; j < m.c; j++ ) { unsigned x[2] = { unsigned( i ), unsigned( j ) }; bool ok = m.at( i, j ) != 0; for( int d = 0; d < 2; d++ ) ok &= ( in[d][0] == NO || x[d] >= in[d][0] ) && ( in[d][1] == NO || x[d] <= in[d][1] ); if( ok ) for( int d = 0; d < 2; d++ ) { if( ex[d][0] == NO || x[d] < ex[d][0] ) ex[d][0] = x[d]; if( ex[d][1] == NO || x[d] > ex[d][1] ) ex[d][1] = x[d]; } }
  if( ex[0][0] != NO ) vh::nontrivial(); vh::observe( out, sizeof out );
  for( int i = 0; i < 4; i++ ) VH_REQUIRE( out[i/2][i%2] == ex[i/2][i%2], "block", "bound %d is %u instead of %u", i, out[i/2][i%2], ex[i/2][i%2] );
}
static void mult() {
  int M = 1+vh::choose( 3 ), Nn = 1+vh::choose( 3 ), K = 1+vh::choose( 3 ), kind = vh::choose( 3 ), ba = vh::choose( 4 ); static double const AL[3] = { 1, -0.5, 0 }, BE[4] = { 0, 1, 2, -1 }; R be = BE[ba], al = AL[ vh::choose( kind == 2 ? 1 : 3 ) ];
  int r = kind == 2 ? 1 : 1+vh::choose( 4 ), la = K, lb = Nn, lc = Nn, g = 0; if( kind < 2 ) { la += vh::choose( 3 ); lb += vh::choose( 3 ); lc += vh::choose( 3 ); g = vh::choose( 2 ); }
  int ra = kind == 0 ? r : 1, rb = kind == 1 ? r : 1; vh::note( "M %d N %d K %d, %s, runs %d, ld %d %d %d, alpha %g beta %g", M, Nn, K, kind == 0 ? "A fused" : kind == 1 ? "B fused" : "dense", r, la, lb, lc, double( al ), double( be ) );
  R const nan = std::numeric_limits< R >::quiet_NaN(); std::vector< R > a( M*la*ra, nan ), b( K*lb*rb, nan ), c( M*lc*r + 3, 77 ), e;
  for( int i = 0; i < M; i++ ) for( int k = 0; k < K; k++ ) for( int x = 0; x < ra; x++ ) a[( i*la+k )*ra+x] = ( ( i*5 + k*3 + x*7 )%11 ) - 4;
  for( int k = 0; k < K; k++ ) for( int j = 0; j < Nn; j++ ) for( int x = 0; x < rb; x++ ) b[( k*lb+j )*rb+x] = ( ( k*7 + j*4 + x*3 )%13 ) - 6;
  for( int i = 0; i < M; i++ ) for( int j = 0; j < Nn; j++ ) for( int x = 0; x < r; x++ ) c[( i*lc+j )*r+x] = be == 0 ? nan : R( i - 2*j + 3*x ); if( r*M*Nn*K > 1 ) vh::nontrivial();
  e = c; for( int i = 0; i < M; i++ ) for( int j = 0; j < Nn; j++ ) for( int x = 0; x < r; x++ ) { double s = 0; for( int k = 0; k < K; k++ ) s += double( a[( i*la+k )*ra+( ra > 1 ? x : 0 )] )*b[( k*lb+j )*rb+( rb > 1 ? x : 0 )]; R & o = e[( i*lc+j )*r+x]; o = kind == 2 ? s : ( be == 0 ? 0 : be*o ) + al*s; }
  if( kind == 2 ) { Matrix::matMulB0( M, Nn, K, a.data(), b.data(), c.data() ); }
  else if( !g ) { if( kind == 0 ) Matrix::matMulFusedAC( r, M, Nn, K, la, lb, lc, al, be, a.data(), b.data(), c.data() ); else Matrix::matMulFusedBC( r, M, Nn, K, la, lb, lc, al, be, a.data(), b.data(), c.data() ); }
  else { edge::data::MmVanilla< R > mm; mm.add( 2, 1, 1, 1, 1, 1, 1, R( 5 ), R( 0 ), true, false, 1 ); mm.add( 0, M+1, Nn, K, la, lb, lc, al, be, true, false, r ); mm.add( 2, M, Nn, K, la, lb, lc, al, be, kind == 0, kind == 1, r );
    VH_REQUIRE( mm.m_kernels.size() == 3 && mm.m_kernels[0].size() == 1 && mm.m_kernels[1].empty() && mm.m_kernels[2].size() == 2, "kernels", "kernels in groups" ); mm.m_kernels[2][1]( a.data(), b.data(), c.data() ); }
  for( std::size_t i = 0; i < c.size(); i++ ) VH_REQUIRE( c[i] == e[i], "product", "position %d: %g instead of %g", int( i ), double( c[i] ), double( e[i] ) );
  vh::observe( c.data(), c.size()*sizeof( R ) );
}
static void trans() { int n = 1+vh::choose( 5 ); std::vector< R > m( n*n + 2 ), t; for( int i = 0; i < n*n+2; i++ ) m[i] = i+1; t = m; Matrix::transposeDense( n, m.data() ); vh::note( "transposed %d", n ); for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) VH_REQUIRE( m[i*n+j] == t[j*n+i], "transposed", "(%d,%d) is %g", i, j, double( m[i*n+j] ) ); VH_REQUIRE( m[n*n] == t[n*n] && m[n*n+1] == t[n*n+1], "transposed", "written beyond" ); vh::obs( n ); if( n > 1 ) vh::nontrivial(); }
static void body() { switch( vh::choose( 8 ) ) { case 0: det< 2 >(); break; case 1: det< 3 >(); break; case 2: det< 4 >(); break; case 3: crd(); break; case 4: qfma(); break; case 5: block(); break; case 6: mult(); break; default: trans(); } }
int main( int argc, char ** argv ) { return vh::run( argc, argv, "mat", body ); }
