// Configurations of EDGE-V and EDGE-cut.
#include "xml.hpp"
#include <limits>
#ifdef VH_CUT
#include "io/Config.h"
static void body() {
  g_sec = 0; g_bg = 0; int st = vh::choose( 3 ); N root{ "edge_cut", "", {}, false };
  std::string s[7]; static char const * P[7] = { "extrude/in", "mesh/files/out/left", "mesh/files/out/right", "mesh/files/out/front", "mesh/files/out/back", "mesh/files/out/bottom", "mesh/files/out/top" };
  for( int i = 0; i < 7; i++ ) if( opt( 0 ) ) { s[i] = "f" + std::to_string( i ) + ".off"; root.at( P[i] ).t = s[i]; }
  double z = 0; int l = 0; int k = opt( 0, 4 ); if( k ) { z = VAL[k]; root.at( "extrude/target_z" ).t = NUM[k]; } k = opt( 0, 3 ); if( k ) { l = 3*k; root.at( "extrude/n_levels" ).t = std::to_string( l ); }
  std::string x = writeXml( root, st ); vh::note( "%s", x.c_str() ); vh::nontrivial();
  edge_cut::io::Config c( x ); c.print();
  EQS( c.getGridIn(), s[0], "grid" ); EQS( c.getMeshOutLeft(), s[1], "left" ); EQS( c.getMeshOutRight(), s[2], "right" ); EQS( c.getMeshOutFront(), s[3], "front" ); EQS( c.getMeshOutBack(), s[4], "back" ); EQS( c.getMeshOutBottom(), s[5], "bottom" ); EQS( c.getMeshOutTop(), s[6], "top" );
  EQ( c.getExtZ(), z, "target_z" ); EQ( c.getExtLvls(), l, "n_levels" );
  std::string o; emit( root, 0, 0, o ); vh::observe( o.data(), o.size() ); unlink( x.c_str() );
}
#else
#include "io/Config.h"
static void body() {
  g_sec = vh::choose( 3 ); g_bg = vh::choose( 2 ); int st = vh::choose( 3 ); N root{ "edge_v", "", {}, false };
  auto S = [&]( int sec, char const * p ) { std::string r; if( opt( sec ) ) { r = std::string( "v/" ) + p + " x"; root.at( p ).t = r; } return r; };
  auto B = [&]( int sec, char const * p ) { int k = opt( sec, 5 ); static char const * T[5] = { "", "0", "false", "1", "true" }; if( k ) { root.at( p ).t = T[k]; root.at( p ).raw = true; } return k > 2; };
  std::string in = S( 0, "mesh/files/in" ), ob = S( 0, "mesh/files/out/base" ), oe = S( 0, "mesh/files/out/extension" ); bool an = B( 0, "mesh/write_element_annotations" ), ro = B( 0, "mesh/reorder_only" );
  int pe = std::numeric_limits< int >::max(); { int k = opt( 0, 3 ); if( k ) { root.at( "mesh/periodic" ).t = k == 1 ? "0" : "106"; if( k == 2 ) pe = 106; } }
  std::size_t np = 1; { int k = opt( 0, 5 ); static char const * T[5] = { "", "0", "1", "17", "5000000000" }; static std::size_t const V[5] = { 1, 1, 1, 17, 5000000000 }; if( k ) root.at( "mesh/n_partitions" ).t = T[k]; np = V[k]; }
  std::string se = S( 1, "velocity_model/seismic_expression" ); double tr[3][3] = { {1,0,0}, {0,1,0}, {0,0,1} };
  if( opt( 1 ) ) for( int a = 0; a < 3; a++ ) for( int b = 0; b < 3; b++ ) { tr[a][b] = VAL[( 3*a+b )%6] + a; char t[40]; snprintf( t, 40, "%.17g", tr[a][b] ); root.at( std::string( "velocity_model/ucvm/source_transformation/" ) + char( 'x'+a ) + "_" + char( '0'+b ) ).t = t; }
  std::string ps = S( 1, "velocity_model/ucvm/projections/source" ), pd = S( 1, "velocity_model/ucvm/projections/destination" ), mo = S( 1, "velocity_model/ucvm/models" ), mt = S( 1, "velocity_model/ucvm/model_type" ), cm = S( 1, "velocity_model/ucvm/coordinate_mode" ), ru = S( 1, "velocity_model/ucvm/normalization_rule" );
  bool lo = B( 1, "velocity_model/ucvm/lower_to_surface" );
  double dt = -25; { int k = opt( 2, 3 ); if( k ) { dt = k == 1 ? 0 : 0.5; root.at( "velocity_model/tsunami/dry_tolerance" ).t = k == 1 ? "0" : "0.5"; } }
  std::string ba = S( 2, "velocity_model/tsunami/bathymetry" ), ex = S( 2, "velocity_model/tsunami/expression" ); std::vector< std::string > di; { int n = opt( 2, 3 ); for( int i = 0; i < n; i++ ) { di.push_back( "d" + std::to_string( i ) + ".csv" ); root.at( "velocity_model/tsunami" ).add( "displacements", di.back() ); } }
  std::string re = S( 2, "refinement/expression" ), rx = S( 2, "refinement/out" );
  unsigned ng = 1; { int k = opt( 2, 4 ); static char const * T[4] = { "", "0", "1", "5" }; if( k ) root.at( "time/n_groups" ).t = T[k]; ng = k == 3 ? 5 : 1; }
  double fd = 0; if( opt( 2 ) ) { fd = 0.97; root.at( "time/fundamental_time_step" ).t = "0.97"; }
  bool cf = B( 2, "time/centroid_based_cfl" ); std::string to = S( 2, "time/files/out/time_steps" );
  std::string x = writeXml( root, st ); vh::note( "section %d, everything else %s, style %d", g_sec, g_bg ? "given" : "missing", st ); vh::nontrivial();
  edge_v::io::Config c( x );
  EQS( c.getMeshIn(), in, "in" ); EQS( c.getMeshOutBase(), ob, "out/base" ); EQS( c.getMeshOutExt(), oe, "out/extension" ); EQ( c.getWriteElAn(), an, "write_element_annotations" ); EQ( c.getReorderOnly(), ro, "reorder_only" ); EQ( c.getPeriodic(), pe, "periodic" ); EQ( c.nPartitions(), np, "n_partitions" );
  EQS( c.getVelModSeismicExpr(), se, "seismic_expression" ); for( int a = 0; a < 9; a++ ) EQ( c.getVelModUcvmTrafoSrc()[a/3][a%3], tr[a/3][a%3], "source_transformation" );
  EQS( c.getVelModUcvmProjSrc(), ps, "projections/source" ); EQS( c.getVelModUcvmProjDes(), pd, "projections/destination" ); EQS( c.getVelModUcvmModels(), mo, "models" ); EQS( c.getVelModUcvmModelType(), mt, "model_type" ); EQS( c.getVelModUcvmCrdMode(), cm, "coordinate_mode" ); EQS( c.getVelModUcvmRule(), ru, "normalization_rule" ); EQ( c.getLowerToSurf(), lo, "lower_to_surface" );
  EQ( c.getModTsunamiDryTol(), dt, "dry_tolerance" ); EQS( c.getModTsunamiBath(), ba, "bathymetry" ); EQS( c.getModTsunamiExpr(), ex, "tsunami expression" ); EQ( c.getModTsunamiDisp().size(), di.size(), "displacements" ); for( std::size_t i = 0; i < di.size(); i++ ) EQS( c.getModTsunamiDisp()[i], di[i], "displacements" );
  EQS( c.getRefExpr(), re, "refinement/expression" ); EQS( c.getRefOut(), rx, "refinement/out" ); EQ( c.nTsGroups(), ng, "n_groups" ); EQ( c.getFunDt(), fd, "fundamental_time_step" ); EQ( c.getCenCfl(), cf, "centroid_based_cfl" ); EQS( c.getTsOut(), to, "time_steps" );
  std::string o; emit( root, 0, 0, o ); vh::observe( o.data(), o.size() ); unlink( x.c_str() );
}
#endif
int main( int argc, char ** argv ) { return vh::run( argc, argv, "tools", body ); }
