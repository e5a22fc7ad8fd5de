// Configuration of the solver: all combinations of given and missing elements, the values seen by the program are the written ones or the defaults.
#include <cstring>
#include <vector>
#include <limits>
#include "constants.hpp"
#include "data/common.hpp"
#include "io/Config.h"
#ifdef PP_T_EQUATIONS_SEISMIC
#include "impl/seismic/io/Config.h"
#endif
#include "xml.hpp"
using edge::io::Config;
struct HS { double o[3], n[3]; };
struct Dom { std::vector< HS > h; std::vector< double > v; };
// half spaces of exact planes: normals with small integers
static void addHs( N & d, Dom & e, int n, int off ) {
  for( int i = 0; i < n; i++ ) {
    HS h; N & x = d.add( "half_space" ); static int const NRM[4][3] = { {1,0,0}, {0,-1,2}, {-1,1,1}, {2,1,-1} };
    for( int k = 0; k < 3; k++ ) { h.o[k] = off*1.25 - k + 2*i; h.n[k] = NRM[( i+off )%4][k]; char c[2] = { char( 'x'+k ), 0 }, b[40]; snprintf( b, 40, "%.17g", h.o[k] ); x.at( "origin" ).add( c, b ); snprintf( b, 40, "%.17g", h.n[k] ); x.at( "normal" ).add( c, b ); }
    e.h.push_back( h );
  }
}
template< typename T > static void inside( T const & dom, Dom const & e, char const * w ) {
  for( int p = 0; p < 125; p++ ) {
    int q[3] = { p%5, p/5%5, p/25 }; real_mesh pt[3]; bool in = true, edge = false;
    if( N_DIM == 2 && q[2] ) continue;
    for( int k = 0; k < 3; k++ ) pt[k] = q[k]*2.625 - 4.375;
    for( auto const & h : e.h ) { double d = 0; for( int k = 0; k < N_DIM; k++ ) d += h.n[k]*( pt[k]-h.o[k] ); if( std::fabs( d ) < 1E-3 ) edge = true; if( d < 0 ) in = false; }
    if( edge ) continue;
    // the sign convention is the one of HalfSpace, which is decided by P24
    bool r = dom.inside( pt ); VH_REQUIRE( r == in, w, "%s: point %g %g %g is %d", w, double( pt[0] ), double( pt[1] ), double( pt[2] ), int( r ) );
  }
}
static void body() {
  int const nSec = 6; g_sec = vh::choose( nSec ); g_bg = vh::choose( 2 ); int st = vh::choose( 3 );
  N root{ "edge", "", {}, false }; auto P = [&]( std::string const & p ) -> N & { return root.at( "cfr/" + p ); };
  // mesh
  std::string base = "", ext = ""; if( opt( 0 ) ) { base = "dir/a mesh_&_1"; P( "mesh/in/base" ).t = base; } if( opt( 0 ) ) { ext = ".msh"; P( "mesh/in/extension" ).t = ext; }
  int per = std::numeric_limits< int >::max(); std::vector< std::pair< std::string, int > > bnd;
  { int o = opt( 0, 3 ), m = opt( 0, 16 ); static char const * BN[4] = { "free_surface", "outflow", "rupture", "dirichlet" };
    for( int i = 0; i < 4; i++ ) { if( o == 1 && i == 0 ) { per = 106; P( "mesh/boundary/periodic" ).t = "106"; } if( m >> i & 1 ) { bnd.push_back( { BN[i], 101+i*2 } ); P( "mesh/boundary" ).add( BN[i], std::to_string( 101+i*2 ) ); } }
    if( o == 2 ) { per = 7; P( "mesh/boundary/periodic" ).t = "7"; } }
  // sparse types
  std::vector< Dom > sp[3]; static char const * EN[3] = { "vertices", "faces", "elements" };
  for( int t = 0; t < 3; t++ ) { int n = opt( 1, 3 ); for( int i = 0; i < n; i++ ) { N & d = P( std::string( "mesh/sparse_types/" ) + EN[t] ).add( "domain" ); Dom e; int h = opt( 1, t == 2 ? 4 : 2 ); addHs( d, e, h, t*2+i ); e.v.push_back( 1000*t + 100*i + 5 ); d.add( "type", std::to_string( int( e.v[0] ) ) ); sp[t].push_back( e ); } }
  // setups
  std::string iv[N_CRUNS], rv[N_CRUNS]; std::string const DEF = "q := 0; // set automatically, adjust config if required";
  for( int w = 0; w < 2; w++ ) {
    int k = opt( 2, 4 ); std::string * x = w ? rv : iv; std::string p = w ? "output/error_norms/reference_values" : "setups/initial_values"; for( int c = 0; c < N_CRUNS; c++ ) x[c] = DEF;
    if( k == 1 ) { x[0] = "q := (x < 2) && 1;\nv := 3;"; P( p ).t = x[0]; }
    else if( k ) for( int c = 0; c < N_CRUNS + ( k == 3 ) - ( k == 2 && N_CRUNS > 1 ); c++ ) { std::string e = "q := " + std::to_string( 10*w+c ) + "*y; // < & >"; P( p ).add( "run", e ); if( c < N_CRUNS ) x[c] = e; }
  }
  int et = opt( 2, 3 ); static char const * ET[3] = { "2.5", "0.125", "4E2" }; static double const EV[3] = { 2.5, 0.125, 400 }; P( "setups/end_time" ).t = ET[et];
  std::string wt = "", wf = ""; double wi = std::numeric_limits< double >::max()/2; int_spType ws = std::numeric_limits< int_spType >::max(); 
  { int k = opt( 2, 4 ); if( k ) { wt = k == 1 ? "vtk_ascii" : "vtk_binary"; P( "output/wave_field/type" ).t = wt; static char const * I[] = { "", "0.001", "1.5", "20" }; static double const D[] = { 0, 0.001, 1.5, 20 }; P( "output/wave_field/int" ).t = I[k]; wi = D[k]; if( opt( 2 ) ) { wf = "o/w"; P( "output/wave_field/file" ).t = wf; } if( opt( 2 ) ) { ws = 2000000101; P( "output/wave_field/sparse_type" ).t = "2000000101"; } } }
  double sy = std::min( 0.05*EV[et], wi ); if( opt( 2 ) ) { sy = 0.0375; root.at( "synchronization/max_int" ).t = "0.0375"; }
  int wk = 1; { int k = opt( 2, 4 ); if( k == 1 ) root.at( "parallelization" ); if( k > 1 ) { wk = k-2; root.at( "parallelization/separate_workers" ).t = std::to_string( wk ); } }
  // output
  std::string it = "", fi = ""; double ii = std::numeric_limits< double >::max()/2; if( opt( 5 ) ) { it = "vtk_binary"; fi = "ib"; ii = 0.75; P( "output/internal_boundary/type" ).t = it; P( "output/internal_boundary/file" ).t = fi; P( "output/internal_boundary/int" ).t = "0.75"; }
  std::string nt = "", nf = ""; if( opt( 5 ) ) { nt = "xml"; P( "output/error_norms/type" ).t = nt; } if( opt( 5 ) ) { nf = "norms.xml"; P( "output/error_norms/file" ).t = nf; }
  std::vector< std::string > rn[2]; std::vector< std::array< double, 3 > > rc[2]; double rf[2]; std::string rp[2];
  for( int t = 0; t < 2; t++ ) {
    std::string p = t ? "output/receivers_quad" : "output/receivers"; int fr = opt( 3 ), pa = opt( 3 ), n = opt( 3, 4 ); rf[t] = -std::numeric_limits< double >::max();
    if( fr ) P( p + "/freq" ).t = t ? "0.01" : "0.25"; if( pa ) { rp[t] = t ? "q/" : "r/s"; P( p + "/path_to_dir" ).t = rp[t]; }
    for( int i = 0; i < n; i++ ) { N & r = P( p ).add( "receiver" ); std::string na = std::to_string( i ); if( opt( 3 ) ) { na = "rec_" + std::to_string( 10*t+i ); r.add( "name", na ); } std::array< double, 3 > c; for( int d = 0; d < 3; d++ ) { c[d] = VAL[( i+d+t )%6]; r.at( "coords" ).add( std::string( 1, 'x'+d ), NUM[( i+d+t )%6] ); } rn[t].push_back( na ); rc[t].push_back( c ); }
    if( fr && n ) rf[t] = t ? 0.01 : 0.25;
    if( !fr || !pa ) { rn[t].clear(); rc[t].clear(); }
  }
  // equations
  std::vector< std::string > ps; std::vector< Dom > vel, rup[N_CRUNS]; bool rupt = false; std::vector< std::array< double, 3 > > lsw;
#ifdef PP_T_EQUATIONS_SEISMIC
  static char const * VN[5] = { "rho", "lambda", "mu", "qp", "qs" }; int const nv = N_RELAXATION_MECHANISMS > 0 ? 5 : 3;
  if( opt( 4 ) ) for( int c = 0; c < N_CRUNS; c++ ) { ps.push_back( "src/p_" + std::to_string( c ) + ".h5" ); P( "setups/point_sources" ).add( "file", ps.back() ); }
  if( N_RELAXATION_MECHANISMS > 0 ) { P( "setups/attenuation/central_frequency" ).t = "1.5"; P( "setups/attenuation/frequency_ratio" ).t = "100"; }
  { int n = opt( 4, 4 ); for( int i = 0; i < n; i++ ) { N & d = P( "velocity_model" ).add( "domain" ); Dom e; addHs( d, e, opt( 4, 3 ), i ); for( int v = 0; v < nv; v++ ) { static char const * X[5] = { "2600", "3.24E10", "2.08e10", "155.9", "69.3" }; static double const Y[5] = { 2600, 3.24E10, 2.08e10, 155.9, 69.3 }; std::string s = X[v]; double y = Y[v]; if( i == 1 ) { s = std::to_string( 3+v ); y = 3+v; } if( i == 2 ) { s = std::to_string( 13*v+1 ); y = 13*v+1; } d.add( VN[v], s ); e.v.push_back( y ); } vel.push_back( e ); } }
  { int n = opt( 4, N_CRUNS+1 ); for( int r = 0; r < n; r++ ) {
      rupt = true; N x{ "rupture", "", {}, false }; lsw.push_back( { 0.5+r, 0.25*( r+1 ), 4.5-r } ); char const * L[3] = { "mus", "mud", "dc" }; for( int k = 0; k < 3; k++ ) x.at( "friction_law" ).add( L[k], std::to_string( lsw.back()[k] ) );
      int m = opt( 4, 3 ); for( int i = 0; i < m; i++ ) { N & d = x.at( "stress_init" ).add( "domain" ); Dom e; addHs( d, e, opt( 4 ), i ); for( int v = 0; v < N_DIM; v++ ) e.v.push_back( -120.5 + 10*v + r + 100*i ); d.at( "values/sn0" ).t = std::to_string( e.v[0] ); d.at( "values/ss0/normal_strike" ).t = std::to_string( e.v[1] ); if( N_DIM == 3 ) d.at( "values/ss0/normal_dip" ).t = std::to_string( e.v[2] ); rup[r].push_back( e ); }
      P( "setups" ).c.push_back( x ); } }
  int fc = opt( 4 ); if( fc ) for( int a = 0; a < N_DIM; a++ ) for( int b = 0; b < N_DIM; b++ ) P( std::string( "setups/fault_coordinates/" ) + ( a == 0 ? "normal" : a == 1 ? "strike" : "dip" ) + "/" + char( 'x'+b ) ).t = std::to_string( a*3+b+1 );
#endif
  if( st == 1 ) { root.at( "cfr/unknown/base" ).t = "x"; root.at( "unknown/mesh" ).t = "3"; }
  std::string xml = writeXml( root, st );
  vh::note( "section %d, everything else %s, style %d, %d boundaries, receivers %d %d, domains %d %d", g_sec, g_bg ? "given" : "missing", st, int( bnd.size() ), int( rn[0].size() ), int( rn[1].size() ), int( sp[2].size() ), int( vel.size() ) );
  vh::nontrivial();
  Config c( xml );
  EQS( c.m_meshInBase, base, "base" ); EQS( c.m_meshInExt, ext, "extension" ); EQ( c.m_periodic, per, "periodic" );
  EQ( c.m_bndConId.size(), bnd.size(), "boundaries" ); EQ( c.m_bndConName.size(), bnd.size(), "boundaries" );
  for( auto const & b : bnd ) { int f = 0; for( std::size_t i = 0; i < bnd.size(); i++ ) if( c.m_bndConName[i] == b.first ) { f++; EQ( c.m_bndConId[i], b.second, "boundary" ); } EQ( f, 1, "boundary" ); }
  for( int t = 0; t < 3; t++ ) { EQ( c.m_spTypesDoms[t].size(), sp[t].size(), "sparse types" ); EQ( c.m_spTypesVals[t].size(), sp[t].size(), "sparse types" ); for( std::size_t i = 0; i < sp[t].size(); i++ ) { EQ( c.m_spTypesVals[t][i], int_spType( sp[t][i].v[0] ), "sparse type" ); inside( c.m_spTypesDoms[t][i], sp[t][i], "sparse type domain" ); } }
  for( int r = 0; r < N_CRUNS; r++ ) { EQS( c.m_initValsExprStrs[r], iv[r], "initial values" ); EQS( c.m_refValsExprStrs[r], rv[r], "reference values" ); }
  EQ( c.m_endTime, EV[et], "end time" ); EQS( c.m_waveFieldType, wt, "wave field" ); EQS( c.m_waveFieldFile, wf, "wave field file" ); EQ( c.m_waveFieldInt, wi, "wave field interval" ); EQ( c.m_waveFieldSpType, ws, "wave field sparse type" );
  EQ( c.m_syncMaxInt, sy, "synchronization" ); EQ( !!c.m_separateWrks, !!wk, "separate workers" );
  EQS( c.m_iBndType, it, "internal boundary" ); EQS( c.m_iBndFile, fi, "internal boundary file" ); EQ( c.m_iBndInt, ii, "internal boundary interval" );
  EQS( c.m_errorNormsType, nt, "error norms" ); EQS( c.m_errorNormsFile, nf, "error norms file" );
  for( int t = 0; t < 2; t++ ) {
    EQ( c.m_recvNames[t].size(), rn[t].size(), "receivers" ); EQ( c.m_recvCrds[t].size(), rn[t].size(), "receivers" ); if( rn[t].size() ) { EQ( c.m_recvFreq[t], rf[t], "receiver frequency" ); EQS( c.m_recvPath[t], rp[t], "receiver path" ); }
    for( std::size_t i = 0; i < rn[t].size(); i++ ) { EQS( c.m_recvNames[t][i], rn[t][i], "receiver name" ); for( int d = 0; d < 3; d++ ) NEAR( c.m_recvCrds[t][i][d], rc[t][i][d], "receiver coordinate" ); }
  }
#ifdef PP_T_EQUATIONS_SEISMIC
  edge::seismic::io::Config s( c.m_doc );
  EQ( s.m_ptSrcs.size(), ps.size(), "point sources" ); for( std::size_t i = 0; i < ps.size(); i++ ) EQS( s.m_ptSrcs[i], ps[i], "point source" );
  if( N_RELAXATION_MECHANISMS > 0 ) { EQ( s.m_attFreqs[0], 1.5, "central frequency" ); EQ( s.m_attFreqs[1], 100, "frequency ratio" ); }
  EQ( s.m_velDoms.size(), vel.size(), "velocity domains" ); EQ( s.m_velVals.size(), vel.size(), "velocity domains" );
  for( std::size_t i = 0; i < vel.size(); i++ ) { for( int v = 0; v < nv; v++ ) NEAR( s.m_velVals[i][v], vel[i].v[v], "material" ); inside( s.m_velDoms[i], vel[i], "velocity domain" ); }
  EQS( s.m_frictionLaw, rupt ? "lsw" : "", "friction law" );
  for( std::size_t r = 0; r < lsw.size(); r++ ) { for( int k = 0; k < 3; k++ ) NEAR( s.m_lsw[r][k], lsw[r][k], "friction" ); EQ( s.m_rupDoms[r].size(), rup[r].size(), "rupture domains" ); EQ( s.m_stressInit[r].size(), rup[r].size(), "rupture domains" );
    for( std::size_t i = 0; i < rup[r].size(); i++ ) { for( int v = 0; v < N_DIM; v++ ) NEAR( s.m_stressInit[r][i][v], rup[r][i].v[v], "initial stress" ); inside( s.m_rupDoms[r][i], rup[r][i], "rupture domain" ); } }
  if( fc ) for( int a = 0; a < N_DIM; a++ ) for( int b = 0; b < N_DIM; b++ ) EQ( s.m_faultCrds[a][b], a*3+b+1, "fault coordinates" );
#endif
  std::string o; emit( root, 0, 0, o ); vh::observe( o.data(), o.size() ); unlink( xml.c_str() );
}
int main( int argc, char ** argv ) { return vh::run( argc, argv, "edge", body ); }
