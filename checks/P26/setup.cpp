// Setup of the shallow water equations: all combinations of mesh data (bathymetry and displacement) or initial values.
#include "constants.hpp"
#include "io/logging.h"
#include "data/Internal.hpp"
#include "parallel/Shared.h"
#include "dg/Basis.h"
#include "impl/swe/setup_dep.inc"
#include "vh.hpp"
#include <map>
#include <cmath>
#include <array>
#include <string>
namespace edge { namespace pre { namespace dg { extern double const * g_massRaw; extern std::size_t const g_massSize; static double const l_m[1] = { T_SDISC.ELEMENT == TRIA3 ? 0.5 : 1 }; double const * g_massRaw = l_m; std::size_t const g_massSize = 1; } } }
static t_entityType const EL = T_SDISC.ELEMENT;
static int const NV = C_ENT[EL].N_VERTICES, ND = N_DIM, NEL = 3;
struct MeshData {
  std::map< std::string, std::vector< float > > d; std::size_t nE, nF;
  static std::string key( std::string const & n ) { return n[0] == '/' ? n : "/" + n; }
  std::size_t nEls() const { return nE; } std::size_t nFas() const { return nF; } std::size_t nVes() const { return NEL*2+2; }
  std::size_t nVas( std::string const & n ) const { auto i = d.find( key( n ) ); return i == d.end() ? 0 : i->second.size(); }
  template< typename T > void getData( std::string const & n, T * o ) const { auto i = d.find( key( n ) ); VH_REQUIRE( i != d.end(), "missing", "data set %s doesn't exist", n.c_str() ); for( std::size_t k = 0; k < i->second.size(); k++ ) o[k] = i->second[k]; }
};
struct Conf { std::string m_initValsExprStrs[N_CRUNS]; };
static void body() {
  static edge::dg::Basis l_basis( EL, ORDER );
  MeshData l_edgeV; l_edgeV.nE = 1 + vh::choose( NEL ); l_edgeV.nF = l_edgeV.nE * 2 + 1; Conf l_config; std::size_t n = l_edgeV.nE;
  int kind = vh::choose( 5 );   // 0: everything, 1: nothing, 2: no bathymetry, 3: no displacement of the last run, 4: data of another size
  if( kind == 3 && N_CRUNS == 1 ) {}
  float const B[4] = { -2, -0.5, 0, 1.5 }, D[3] = { 0, 1.5, -1 };
  float bath[NEL], disp[N_CRUNS][NEL]; double iv[N_CRUNS][3];
  if( kind == 0 ) for( std::size_t e = 0; e < n; e++ ) { bath[e] = B[ vh::choose( 4 ) ]; for( int c = 0; c < N_CRUNS; c++ ) disp[c][e] = D[ ( e < 2 && c < 2 ) ? vh::choose( 3 ) : ( e+c )%3 ]; }
  else for( std::size_t e = 0; e < n; e++ ) { bath[e] = -7; for( int c = 0; c < N_CRUNS; c++ ) disp[c][e] = 0.25; }
  if( kind != 1 && kind != 2 ) l_edgeV.d["/edge_v/bath"] = std::vector< float >( bath, bath + n );
  if( kind != 1 ) for( int c = 0; c < N_CRUNS; c++ ) if( kind != 3 || c < N_CRUNS-1 ) l_edgeV.d["/edge_v/disp_" + std::to_string( c )] = std::vector< float >( disp[c], disp[c] + n );
  if( kind == 4 ) l_edgeV.d["/edge_v/bath"].push_back( 1 );
  for( int c = 0; c < N_CRUNS; c++ ) { iv[c][0] = 2 + c; iv[c][1] = kind == 1 ? vh::choose( 3 ) - 1 : 0.5; iv[c][2] = -0.75 * c + 0.25; std::string s = "0 " + std::to_string( iv[c][0] ) + " 0 0 0  0 0.5 1 0 0";
    for( int q = 1; q < N_QUANTITIES; q++ ) s += "  " + std::to_string( q ) + " " + std::to_string( iv[c][q] ) + " 0 0 0"; l_config.m_initValsExprStrs[c] = s; }
  vh::note( "%d elements, data %d", int( n ), kind ); if( kind == 0 ) for( std::size_t e = 0; e < n; e++ ) { vh::note( " b%g", bath[e] ); for( int c = 0; c < N_CRUNS; c++ ) vh::note( ",%g", disp[c][e] ); }
  if( kind == 0 ) vh::nontrivial();
  edge::data::Internal l_internal; l_internal.initDense( l_edgeV.nVes(), l_edgeV.nFas(), n );
  // strip of elements
  static std::size_t elVe[NEL][C_ENT[EL].N_VERTICES]; double x[NEL+3] = { 0, 1, 2.5, 3, 5, 5.5 }, dia[NEL] = { 1, 1.5, 0.5 }, cen[NEL];
  for( int v = 0; v < int( l_edgeV.nVes() ); v++ ) { auto & k = l_internal.m_vertexChars[v].coords; if( EL == LINE ) { k[0] = v < 6 ? x[v] : 9; k[1] = 0; } else if( EL == TRIA3 ) { k[0] = v/2; k[1] = v%2; } else { k[0] = x[v/2]; k[1] = v%2; } k[2] = 0; }
  for( int e = 0; e < int( n ); e++ ) {
    if( EL == LINE ) { elVe[e][0] = e; elVe[e][1] = e+1; cen[e] = ( x[e]+x[e+1] )/2; }
    else if( EL == TRIA3 ) { std::size_t a = e, b = e%2 ? e+2 : e+1, c = e%2 ? e+1 : e+2; elVe[e][0] = a; elVe[e][1] = c; elVe[e][2] = b; cen[e] = 0; for( int v = 0; v < 3; v++ ) cen[e] += l_internal.m_vertexChars[elVe[e][v]].coords[0]/3; }
    else { std::size_t q[4] = { std::size_t( 2*e ), std::size_t( 2*e+2 ), std::size_t( 2*e+3 ), std::size_t( 2*e+1 ) }; for( int v = 0; v < 4; v++ ) elVe[e][v % C_ENT[EL].N_VERTICES] = q[v]; cen[e] = ( x[e]+x[e+1] )/2; }
    l_internal.m_elementChars[e].inDia = dia[e]; l_internal.m_elementChars[e].volume = 1; l_internal.m_elementChars[e].spType = 0;
  }
  l_internal.m_connect.elVe = elVe;
  for( std::size_t e = 0; e < n; e++ ) { l_internal.m_elementModeShared1[e][0][0] = 99; for( int q = 0; q < N_QUANTITIES; q++ ) for( int c = 0; c < N_CRUNS; c++ ) l_internal.m_elementModePrivate1[e][q][0][c] = 99; }
  edge::parallel::Shared l_shared; l_shared.init( false );
  double l_dT[3] = { -1, -1, -1 };
#include "impl/swe/setup.inc"
  double mi = std::numeric_limits< double >::max(), ma = 0;
  for( std::size_t e = 0; e < n; e++ ) {
    double b = kind == 0 ? bath[e] : 0, t = std::numeric_limits< double >::max();
    VH_REQUIRE( l_internal.m_elementModeShared1[e][0][0] == b, "bathymetry", "element %d: bathymetry %g instead of %g", int( e ), double( l_internal.m_elementModeShared1[e][0][0] ), b );
    for( int c = 0; c < N_CRUNS; c++ ) {
      double h = kind == 0 ? std::max( disp[c][e] - bath[e], 0.f ) : iv[c][0] + 0.5*cen[e], hu2 = 0;
      double tol = 1e-6;
      VH_REQUIRE( std::abs( l_internal.m_elementModePrivate1[e][0][0][c] - h ) < tol, "height", "element %d, run %d: water height %g instead of %g", int( e ), c, double( l_internal.m_elementModePrivate1[e][0][0][c] ), h );
      for( int q = 1; q < N_QUANTITIES; q++ ) { double m = kind == 0 ? 0 : iv[c][q]; hu2 += m*m; VH_REQUIRE( std::abs( l_internal.m_elementModePrivate1[e][q][0][c] - m ) < tol, "momentum", "element %d, run %d: momentum %g instead of %g", int( e ), c, double( l_internal.m_elementModePrivate1[e][q][0][c] ), m ); }
      if( h > 0 ) t = std::min( t, dia[e] / ( std::sqrt( hu2 )/h + std::sqrt( 9.80665*h ) ) / ND );
    }
    mi = std::min( mi, t ); ma = std::max( ma, t );
  }
  VH_REQUIRE( l_dT[0] > 0 && l_dT[0] <= mi*( 1+1e-5 ), "time step", "time step %g, stable are at most %g", l_dT[0], mi );
  if( mi < 1e9 ) VH_REQUIRE( l_dT[0] >= 0.5*mi, "time step", "time step %g is much smaller than the stable %g", l_dT[0], mi );
  // every face and element is worked on exactly once in its step
  unsigned short tg, st; unsigned int id; int_el fi, si, sp[128];
  for( int k = 0; k < 2; k++ ) {
    l_shared.setStatusAll( edge::parallel::Shared::RDY, k );
    bool w = l_shared.getWrkTd( tg, st, id, fi, si, sp );
    VH_REQUIRE( w && tg == 0 && st == k && id == unsigned( k ) && fi == 0 && std::size_t( si ) == ( k == 0 ? l_edgeV.nFas() : n ), "work", "step %d: work %d, time group %d, step %d, first %d, size %d", k, int( w ), int( tg ), int( st ), int( fi ), int( si ) );
    l_shared.setStatusTd( edge::parallel::Shared::IPR, k ); l_shared.setStatusTd( edge::parallel::Shared::FIN, k );
  }
  for( std::size_t e = 0; e < n; e++ ) vh::observe( &l_internal.m_elementModePrivate1[e], sizeof( l_internal.m_elementModePrivate1[e] ) );
  l_internal.finalize();
}
int main( int argc, char ** argv ) { edge::parallel::g_nThreads = 1; return vh::run( argc, argv, "setup", body ); }
