// Exhaustive enumeration of source placements x meshes x time step patterns: every source injects exactly the time integral of its source time function.
#include <vector>
#include <cmath>
#include <string>
#include "io/logging.h"
#include "impl/seismic/setups/PointSources.hpp"
#include "vh.hpp"

static double ref( double dx, double xs, std::vector< float > const & v, double x1, double x2 ) {
  double l_end = xs + ( v.size()-1.0 )*dx, r = 0;
  double a = std::min( std::max( x1, xs ), l_end ), b = std::min( std::max( x2, xs ), l_end );
  for( size_t c = 0; c+1 < v.size(); c++ ) {
    double lo = std::max( a, xs+c*dx ), hi = std::min( b, xs+(c+1)*dx );
    if( hi <= lo ) continue;
    double s = ( v[c+1]-v[c] )/dx;
    r += 0.5*( ( v[c] + s*( lo-xs-c*dx ) ) + ( v[c] + s*( hi-xs-c*dx ) ) )*( hi-lo );
  }
  return r;
}

struct Src { double x[3]; std::vector< float > sca; float t0, dt; std::vector< float > ts; int loc; };

static void w2( hid_t f, char const * n, int r, hsize_t const * d, hid_t ft, hid_t mt, void const * p ) {
  hid_t s = H5Screate_simple( r, d, NULL );
  hid_t ds = H5Dcreate( f, n, ft, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT );
  H5Dwrite( ds, mt, H5S_ALL, H5S_ALL, H5P_DEFAULT, p );
  H5Dclose( ds ); H5Sclose( s );
}
static void writeH5( std::string const & i_path, std::vector< Src > const & i_s, int nDis, int nQts ) {
  hid_t f = H5Fcreate( i_path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT );
  hsize_t n = i_s.size();
  std::vector< float > pts, sca, tp, ts; std::vector< unsigned long long > ptr( 1, 0 );
  for( auto & s : i_s ) {
    for( int d = 0; d < nDis; d++ ) pts.push_back( s.x[d] );
    for( int q = 0; q < nQts; q++ ) sca.push_back( s.sca[q] );
    tp.push_back( s.t0 ); tp.push_back( s.dt );
    for( float v : s.ts ) ts.push_back( v );
    ptr.push_back( ts.size() );
  }
  hsize_t d1[2] = { n, (hsize_t) nDis }, d2[2] = { n, (hsize_t) nQts }, d3[2] = { n, 2 }, d4 = n+1, d5 = ts.size();
  w2( f, "points", 2, d1, H5T_NATIVE_FLOAT, H5T_NATIVE_FLOAT, pts.data() );
  w2( f, "scalings", 2, d2, H5T_NATIVE_FLOAT, H5T_NATIVE_FLOAT, sca.data() );
  w2( f, "time_parameters", 2, d3, H5T_NATIVE_FLOAT, H5T_NATIVE_FLOAT, tp.data() );
  w2( f, "time_pointers", 1, &d4, H5T_NATIVE_ULLONG, H5T_NATIVE_ULLONG, ptr.data() );
  w2( f, "time_series", 1, &d5, H5T_NATIVE_FLOAT, H5T_NATIVE_FLOAT, ts.data() );
  H5Fclose( f );
}

struct VeC { double coords[3]; };
struct ElC { long long spType; };

// candidate location: coordinates, list of admissible (mesh) elements, coordinates after clamping to the mesh
struct Loc { double x[3]; std::vector< int > els; double xc[3]; };

template< t_entityType TL_EL, unsigned short TL_NV >
static void go( std::vector< VeC > const & i_ve, std::vector< std::vector< int > > const & i_el, std::vector< Loc > const & i_locs ) {
  constexpr unsigned short O = 2, CR = 2;
  constexpr unsigned short DIM = C_ENT[TL_EL].N_DIM, MD = CE_N_ELEMENT_MODES( TL_EL, O ), NQ = DIM == 2 ? 5 : 9;
  typedef edge::seismic::setups::PointSources< double, unsigned int, TL_EL, O, CR > PS;
  unsigned int nEl = i_el.size();
  // numbering of the elements
  int l_rot = vh::choose( 2 );
  auto l_id = [&]( int e ) { return l_rot ? (unsigned) ( nEl-1-e ) : (unsigned) e; };
  std::vector< unsigned int > l_elVe( nEl*TL_NV );
  for( unsigned e = 0; e < nEl; e++ ) for( unsigned v = 0; v < TL_NV; v++ ) l_elVe[ l_id(e)*TL_NV+v ] = i_el[e][v];

  int nS = 1 + vh::choose( 3 );
  std::vector< Src > l_src[CR];
  for( int s = 0; s < nS; s++ ) {
    int l_l = vh::choose( i_locs.size() );
    Src a; a.loc = l_l; for( int d = 0; d < 3; d++ ) a.x[d] = i_locs[l_l].x[d];
    for( int q = 0; q < NQ; q++ ) a.sca.push_back( ( q+s ) % 3 == 0 ? 0.f : 0.5f*( q+1 ) - s );
    a.t0 = 0.25f*s; a.dt = s == 1 ? 0.125f : 0.5f;
    for( int i = 0; i < 2 + 2*s; i++ ) a.ts.push_back( ( i*i + s ) % 4 - 0.5f*i );
    l_src[0].push_back( a );
  }
  // second simulation: reversed order, different locations and series, one source less/more
  for( int s = nS-1; s >= 0; s-- ) {
    Src a = l_src[0][s]; a.loc = ( a.loc + 1 + s ) % i_locs.size();
    for( int d = 0; d < 3; d++ ) a.x[d] = i_locs[a.loc].x[d];
    a.t0 += 0.125f; a.ts.push_back( 3.f );
    l_src[1].push_back( a );
  }
  if( nS == 2 ) l_src[1].pop_back();

  int l_pat = vh::choose( 4 ), l_split = vh::choose( 3 );
  std::string l_paths[CR] = { "src_0.h5", "src_1.h5" };
  for( int c = 0; c < CR; c++ ) writeH5( l_paths[c], l_src[c], DIM, NQ );
  vh::note( "type=%d nEls=%u renumbered=%d locations(cr0)=", (int) TL_EL, nEl, l_rot );
  for( auto & s : l_src[0] ) vh::note( "%d ", s.loc );
  vh::note( "cr1=" ); for( auto & s : l_src[1] ) vh::note( "%d ", s.loc );
  vh::note( "steps=%d split=%d", l_pat, l_split );

  std::vector< ElC > l_elc( nEl ); for( auto & e : l_elc ) e.spType = 4;
  double l_massI[MD]; for( int m = 0; m < MD; m++ ) l_massI[m] = 1.0 + 0.5*m;
  edge::data::Dynamic l_dyn;
  PS l_ps;
  long long l_sp = 1ll << 5;
  bool l_ok = l_ps.init( l_paths, l_sp, nEl, (unsigned int const (*)[TL_NV]) l_elVe.data(), i_ve.data(), l_massI, l_elc.data(), l_dyn );
  VH_REQUIRE( l_ok, "init", "sources were not initialized" );

  // sparse source elements in the dense order
  std::vector< unsigned > l_spEl;
  for( unsigned e = 0; e < nEl; e++ ) if( l_elc[e].spType & l_sp ) l_spEl.push_back( e );
  for( unsigned e = 0; e < nEl; e++ ) VH_REQUIRE( ( l_elc[e].spType & ~l_sp ) == 4, "sptype", "element %u: other sparse bits changed", e );

  // apply: elements with even sparse id use the pattern, all others a single step (local time stepping)
  static const std::vector< std::vector< double > > l_pats = { { 0, 4 }, { 0, 0.3, 0.6, 0.9, 1.2, 1.5, 1.8, 2.1, 2.4, 2.7, 3.0, 3.3, 3.6, 4.0 },
    { 0, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.55, 0.57, 0.59, 0.7, 1.0, 1.01, 4 }, { 0, 0.25, 0.5, 0.75, 1.0, 1.25, 1.5, 1.75, 2, 2.25, 2.5, 2.75, 3, 3.25, 3.5, 3.75, 4 } };
  std::vector< double > l_dofs( nEl*NQ*MD*CR + 1, 0.0 );
  l_dofs.back() = 123;
  auto * l_d = (double (*)[NQ][MD][CR]) l_dofs.data();
  std::vector< double > const & p = l_pats[l_pat];
  for( size_t s = 0; s+1 < p.size(); s++ ) {
    if( l_split == 0 ) l_ps.apply( 0, l_spEl.size(), p[s], p[s+1], l_d );
    else if( l_split == 1 ) for( unsigned e = l_spEl.size(); e-- > 0; ) l_ps.apply( e, 1, p[s], p[s+1], l_d );
    else { unsigned h = l_spEl.size()/2; l_ps.apply( h, l_spEl.size()-h, p[s], p[s+1], l_d ); }
  }
  if( l_split == 2 ) l_ps.apply( 0, l_spEl.size()/2, 0, 4, l_d );
  VH_REQUIRE( l_dofs.back() == 123, "oob", "wrote behind the DOFs" );

  // oracle
  std::vector< bool > l_isSrc( nEl, false );
  // a location with several admissible elements is resolved by looking at which one was marked; every source has to go into exactly one element
  std::vector< double > l_ref( nEl*NQ*MD*CR, 0.0 );
  bool l_multi = false;
  for( int c = 0; c < CR; c++ ) for( auto & s : l_src[c] ) {
    Loc const & L = i_locs[s.loc];
    std::vector< int > l_cand = L.els;
    unsigned e = l_id( l_cand[0] );
    if( l_cand.size() > 1 ) { // ties go to the lowest id
      for( int k : l_cand ) e = std::min( e, l_id( k ) );
      l_multi = true;
    }
    l_isSrc[e] = true;
    double l_ve[DIM][TL_NV];
    for( unsigned d = 0; d < DIM; d++ ) for( unsigned v = 0; v < TL_NV; v++ ) l_ve[d][v] = i_ve[ l_elVe[e*TL_NV+v] ].coords[d];
    // reference coordinates: x = v0 + sum xi_d (v_d - v0) for simplices; rectangular elements: edges 0-1, 0-3, 0-4
    int l_ed[3] = { 1, ( TL_EL == QUAD4R || TL_EL == HEX8R ) ? 3 : 2, TL_EL == HEX8R ? 4 : 3 };
    double A[3][3] = {{1,0,0},{0,1,0},{0,0,1}}, b[3] = {0,0,0};
    for( unsigned d = 0; d < DIM; d++ ) { for( unsigned k = 0; k < DIM; k++ ) A[d][k] = l_ve[d][l_ed[k]] - l_ve[d][0]; b[d] = L.xc[d]-l_ve[d][0]; }
    double det = A[0][0]*(A[1][1]*A[2][2]-A[1][2]*A[2][1]) - A[0][1]*(A[1][0]*A[2][2]-A[1][2]*A[2][0]) + A[0][2]*(A[1][0]*A[2][1]-A[1][1]*A[2][0]);
    double xi[3] = {0,0,0};
    for( unsigned k = 0; k < DIM; k++ ) {
      double B[3][3]; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) B[i][j] = (unsigned) j == k ? b[i] : A[i][j];
      xi[k] = ( B[0][0]*(B[1][1]*B[2][2]-B[1][2]*B[2][1]) - B[0][1]*(B[1][0]*B[2][2]-B[1][2]*B[2][0]) + B[0][2]*(B[1][0]*B[2][1]-B[1][1]*B[2][0]) ) / det;
    }
    double I = ref( s.dt, s.t0, s.ts, 0, 4 );
    for( int q = 0; q < NQ; q++ ) for( int m = 0; m < MD; m++ ) {
      double l_b = edge::dg::Basis::evalBasis( m, TL_EL, xi[0], xi[1], xi[2], -1, O );
      l_ref[ ( ( e*NQ+q )*MD+m )*CR+c ] += I * s.sca[q] * l_b * l_massI[m] / det;
    }
  }
  for( unsigned e = 0; e < nEl; e++ ) VH_REQUIRE( l_isSrc[e] == ( ( l_elc[e].spType & l_sp ) != 0 ), "sptype", "element %u: holds source %d, marked %d", e, (int) l_isSrc[e], (int) !l_isSrc[e] );
  for( size_t i = 0; i < l_ref.size(); i++ ) {
    VH_REQUIRE( vh::close( l_dofs[i], l_ref[i], 1E-5, 1.0 ), "dofs", "element %zu qt %zu mode %zu sim %zu: %g injected, expected %g", i/(NQ*MD*CR), (i/(MD*CR))%NQ, (i/CR)%MD, i%CR, l_dofs[i], l_ref[i] );
    float l_o = l_dofs[i]; vh::obs( l_o );
  }
  if( nS > 1 || l_multi ) vh::nontrivial();
}

static Loc loc( double x, double y, double z, std::vector< int > e ) { Loc l; l.x[0]=l.xc[0]=x; l.x[1]=l.xc[1]=y; l.x[2]=l.xc[2]=z; l.els = e; return l; }

static void body() {
  int l_ty = vh::choose( 3 );
  std::vector< VeC > l_ve; std::vector< std::vector< int > > l_el; std::vector< Loc > l_lo;
  if( l_ty == 0 ) {
    // 2x2 quads of size 1 x 2
    for( int j = 0; j < 3; j++ ) for( int i = 0; i < 3; i++ ) l_ve.push_back( VeC{ { i*1.0, j*2.0, 0 } } );
    for( int j = 0; j < 2; j++ ) for( int i = 0; i < 2; i++ ) l_el.push_back( { j*3+i, j*3+i+1, (j+1)*3+i+1, (j+1)*3+i } );
    l_lo = { loc( 0.25, 0.5, 0, {0} ), loc( 0.5, 1.5, 0, {0} ), loc( 1.75, 0.25, 0, {1} ), loc( 0.125, 3.0, 0, {2} ), loc( 1.5, 2.5, 0, {3} ), loc( 1.0, 2.0, 0, {0,1,2,3} ), loc( 2.5, 1.0, 0, {1} ) };
    l_lo.back().xc[0] = 2.0;
    go< QUAD4R, 4 >( l_ve, l_el, l_lo );
  }
  else if( l_ty == 1 ) {
    l_ve = { VeC{{0,0,0}}, VeC{{2,0,0}}, VeC{{2,2,0}}, VeC{{0,2,0}}, VeC{{1,1,0}} };
    l_el = { {0,1,4}, {1,2,4}, {2,3,4}, {3,0,4} };
    l_lo = { loc( 1.0, 0.25, 0, {0} ), loc( 0.5, 0.125, 0, {0} ), loc( 1.75, 1.0, 0, {1} ), loc( 1.25, 1.5, 0, {2} ), loc( 0.25, 1.0, 0, {3} ), loc( 1, -1, 0, {0} ) };
    l_lo.back().xc[1] = 0.0;
    go< TRIA3, 3 >( l_ve, l_el, l_lo );
  }
  else {
    // two tets sharing a face
    l_ve = { VeC{{0,0,0}}, VeC{{2,0,0}}, VeC{{0,2,0}}, VeC{{0,0,2}}, VeC{{2,2,2}} };
    l_el = { {0,1,2,3}, {1,2,3,4} };
    // second one: vertices sorted such that the jacobian is positive
    double d = 0;
    { double a[3], b[3], c[3]; for( int k = 0; k < 3; k++ ) { a[k]=l_ve[2].coords[k]-l_ve[1].coords[k]; b[k]=l_ve[3].coords[k]-l_ve[1].coords[k]; c[k]=l_ve[4].coords[k]-l_ve[1].coords[k]; }
      d = a[0]*(b[1]*c[2]-b[2]*c[1]) - a[1]*(b[0]*c[2]-b[2]*c[0]) + a[2]*(b[0]*c[1]-b[1]*c[0]); }
    if( d < 0 ) std::swap( l_el[1][0], l_el[1][1] );
    l_lo = { loc( 0.25, 0.5, 0.5, {0} ), loc( 0.75, 0.25, 0.125, {0} ), loc( 1.0, 1.0, 1.0, {1} ), loc( 1.25, 1.0, 1.25, {1} ), loc( 0.5, 0.5, -1, {0} ) };
    l_lo.back().xc[2] = 0.0;
    go< TET4, 4 >( l_ve, l_el, l_lo );
  }
}
int main( int c, char ** v ) { H5Eset_auto( H5E_DEFAULT, NULL, NULL ); return vh::run( c, v, "sources", body ); }
