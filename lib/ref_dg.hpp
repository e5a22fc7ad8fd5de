// reference element tables and quadrature, shared by the ADER-DG harnesses (P20, P21)
#ifndef REF_HPP
#define REF_HPP
#include <limits>
#include <algorithm>
#include <cmath>
#include <vector>
#include <array>
#include "constants.hpp"
#include "dg/Basis.h"

namespace ref {
  typedef std::vector< double > V;
  typedef std::array< double, 3 > P;
  constexpr t_entityType EL = T_SDISC.ELEMENT;
  constexpr t_entityType FA = C_ENT[EL].TYPE_FACES;
  constexpr int DIM = C_ENT[EL].N_DIM, NF = C_ENT[EL].N_FACES, NV = C_ENT[EL].N_VERTICES, NVF = C_ENT[EL].N_FACE_VERTICES;
  constexpr int NM = CE_N_ELEMENT_MODES( EL, ORDER ), NMF = CE_N_ELEMENT_MODES( FA, ORDER ), NFN = CE_N_FLUXN_MATRICES( EL );
  constexpr int NO = NFN / NF;

  inline double basis( t_entityType i_t, int i_b, P const & i_p, int i_der=-1 ) {
    if( i_t == POINT ) return 1;
    return edge::dg::Basis::evalBasis( i_b, i_t, i_p[0], i_p[1], i_p[2], i_der, ORDER );
  }
  inline void gauss( int n, V & x, V & w ) { // [0,1]
    x.resize(n); w.resize(n);
    for( int i = 0; i < n; i++ ) {
      double z = std::cos( M_PI*(i+0.75)/(n+0.5) ), dp = 1;
      for( int it = 0; it < 100; it++ ) {
        double p0 = 1, p1 = z;
        for( int k = 2; k <= n; k++ ) { double p2 = ((2*k-1)*z*p1-(k-1)*p0)/k; p0 = p1; p1 = p2; }
        if( n == 1 ) { p0 = 1; p1 = z; }
        dp = n*(z*p1-p0)/(z*z-1); double dz = p1/dp; z -= dz; if( std::fabs(dz) < 1E-15 ) break;
      }
      x[i] = 0.5*(1-z); w[i] = 1/((1-z*z)*dp*dp);
    }
  }
  //! quadrature of the reference entity
  inline void quad( t_entityType i_t, std::vector<P> & o_p, V & o_w ) {
    V x, w; gauss( ORDER+2, x, w ); int n = x.size(); o_p.clear(); o_w.clear();
    if( i_t == POINT ) { o_p.push_back( P{{0,0,0}} ); o_w.push_back( 1 ); }
    if( i_t == LINE ) for( int i = 0; i < n; i++ ) { o_p.push_back( P{{x[i],0,0}} ); o_w.push_back( w[i] ); }
    if( i_t == QUAD4R ) for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) { o_p.push_back( P{{x[i],x[j],0}} ); o_w.push_back( w[i]*w[j] ); }
    if( i_t == TRIA3 ) for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) { o_p.push_back( P{{x[i],x[j]*(1-x[i]),0}} ); o_w.push_back( w[i]*w[j]*(1-x[i]) ); }
    if( i_t == HEX8R ) for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) for( int k = 0; k < n; k++ ) { o_p.push_back( P{{x[i],x[j],x[k]}} ); o_w.push_back( w[i]*w[j]*w[k] ); }
    if( i_t == TET4 ) for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) for( int k = 0; k < n; k++ ) {
      double a = x[i], b = x[j]*(1-a), c = x[k]*(1-a-b); o_p.push_back( P{{a,b,c}} ); o_w.push_back( w[i]*w[j]*w[k]*(1-a)*(1-a-b) ); }
  }
  //! reference vertices
  inline P refVe( int v ) {
    static int const tet[4][3] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}, hex[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
    int const * r = (EL == HEX8R || EL == QUAD4R) ? hex[v] : tet[v];
    return P{{(double)r[0],(double)r[1],(double)r[2]}};
  }
  //! vertices of the faces
  inline int faVe( int f, int v ) {
    static int const li[2][4] = {{0},{1}}, qu[4][4] = {{0,1},{1,2},{2,3},{3,0}}, tr[3][4] = {{0,1},{1,2},{2,0}}, te[4][4] = {{0,2,1},{0,1,3},{0,3,2},{1,2,3}},
                     he[6][4] = {{0,3,2,1},{0,1,5,4},{1,2,6,5},{3,7,6,2},{0,4,7,3},{4,5,6,7}};
    return EL == LINE ? li[f][v] : EL == QUAD4R ? qu[f][v] : EL == TRIA3 ? tr[f][v] : EL == TET4 ? te[f][v] : he[f][v];
  }
  //! face to element coordinates: affine w.r.t. the face's first, second and last vertex
  inline P faToEl( int f, P const & c ) {
    P a = refVe(faVe(f,0)), r = a;
    if( NVF >= 2 ) { P b = refVe(faVe(f,1)); for( int d = 0; d < 3; d++ ) r[d] += c[0]*(b[d]-a[d]); }
    if( NVF >= 3 ) { P b = refVe(faVe(f,NVF-1)); for( int d = 0; d < 3; d++ ) r[d] += c[1]*(b[d]-a[d]); }
    return r;
  }
  //! EDGEpre's parametrization of the neighboring face
  inline P faToFa( int o, P const & c ) {
    if( DIM == 1 ) return c;
    if( DIM == 2 ) return P{{1-c[0],0,0}};
    if( o == 0 ) return P{{c[1],c[0],0}};
    if( o == 1 ) return P{{1-c[0]-c[1],c[1],0}};
    return P{{c[0],1-c[0]-c[1],0}};
  }
  //! C = A*B
  inline V mul( V const & a, V const & b, int n, int k, int m ) {
    V c( n*m, 0 ); for( int i = 0; i < n; i++ ) for( int l = 0; l < k; l++ ) for( int j = 0; j < m; j++ ) c[i*m+j] += a[i*k+l]*b[l*m+j]; return c;
  }
  inline V inv( V a, int n ) {
    V r( n*n, 0 ); for( int i = 0; i < n; i++ ) r[i*n+i] = 1;
    for( int c = 0; c < n; c++ ) {
      int p = c; for( int i = c; i < n; i++ ) if( std::fabs(a[i*n+c]) > std::fabs(a[p*n+c]) ) p = i;
      for( int j = 0; j < n; j++ ) { std::swap( a[p*n+j], a[c*n+j] ); std::swap( r[p*n+j], r[c*n+j] ); }
      double d = a[c*n+c]; for( int j = 0; j < n; j++ ) { a[c*n+j] /= d; r[c*n+j] /= d; }
      for( int i = 0; i < n; i++ ) if( i != c ) { double m = a[i*n+c]; if( m != 0 ) for( int j = 0; j < n; j++ ) { a[i*n+j] -= m*a[c*n+j]; r[i*n+j] -= m*r[c*n+j]; } }
    }
    return r;
  }
  inline V tr( V const & a, int n, int m ) { V r( n*m ); for( int i = 0; i < n; i++ ) for( int j = 0; j < m; j++ ) r[j*n+i] = a[i*m+j]; return r; }

  //! element operators
  struct Ops {
    V mass, massInv, stiff[3], grad[3]; // stiff_d[i][j] = int phi_i d_d phi_j; grad_d: modal coefficients of the derivatives
    V proj[6];
    std::vector<P> qp; V qw; std::vector<P> fp; V fw; // element and face quadrature
    Ops() {
      quad( EL, qp, qw ); quad( FA, fp, fw );
      mass.assign( NM*NM, 0 ); for( int d = 0; d < DIM; d++ ) stiff[d].assign( NM*NM, 0 );
      for( size_t q = 0; q < qp.size(); q++ ) {
        V b(NM), e[3]; for( int d = 0; d < DIM; d++ ) e[d].resize(NM);
        for( int i = 0; i < NM; i++ ) { b[i] = basis( EL, i, qp[q] ); for( int d = 0; d < DIM; d++ ) e[d][i] = basis( EL, i, qp[q], d ); }
        for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) {
          mass[i*NM+j] += qw[q]*b[i]*b[j]; for( int d = 0; d < DIM; d++ ) stiff[d][i*NM+j] += qw[q]*b[i]*e[d][j]; }
      }
      massInv = inv( mass, NM );
      for( int d = 0; d < DIM; d++ ) grad[d] = mul( massInv, stiff[d], NM, NM, NM );
    }
  };
  inline Ops const & ops() { static Ops o; return o; }
}

namespace edge { namespace pre { namespace dg {
  static double s_mass[ref::NM*ref::NM], s_sv[ref::DIM*ref::NM*ref::NM], s_st[ref::DIM*ref::NM*ref::NM],
                s_fl[ref::NF*ref::NM*ref::NMF], s_fn[ref::NFN*ref::NM*ref::NMF], s_ft[ref::NF*ref::NMF*ref::NM];
  extern std::size_t const g_massSize, g_stiffVSize, g_stiffTSize, g_fluxLSize, g_fluxNSize, g_fluxTSize;
  double const * g_massRaw = s_mass;    std::size_t const g_massSize   = ref::NM*ref::NM;
  double const * g_stiffVRaw = s_sv;    std::size_t const g_stiffVSize = ref::DIM*ref::NM*ref::NM;
  double const * g_stiffTRaw = s_st;    std::size_t const g_stiffTSize = ref::DIM*ref::NM*ref::NM;
  double const * g_fluxLRaw = s_fl;     std::size_t const g_fluxLSize  = ref::NF*ref::NM*ref::NMF;
  double const * g_fluxNRaw = s_fn;     std::size_t const g_fluxNSize  = ref::NFN*ref::NM*ref::NMF;
  double const * g_fluxTRaw = s_ft;     std::size_t const g_fluxTSize  = ref::NF*ref::NMF*ref::NM;
} } }

namespace ref {
  //! fills the operators as EDGEpre does
  inline void fillPre() {
    using namespace edge::pre::dg; Ops const & o = ops();
    for( int i = 0; i < NM*NM; i++ ) s_mass[i] = o.mass[i];
    for( int d = 0; d < DIM; d++ ) {
      V v = mul( o.stiff[d], o.massInv, NM, NM, NM ), t = mul( tr( o.stiff[d], NM, NM ), o.massInv, NM, NM, NM );
      for( int i = 0; i < NM*NM; i++ ) { s_sv[d*NM*NM+i] = v[i]; s_st[d*NM*NM+i] = t[i]; }
    }
    V mf( NMF*NMF, 0 );
    for( size_t q = 0; q < o.fp.size(); q++ ) for( int i = 0; i < NMF; i++ ) for( int j = 0; j < NMF; j++ ) mf[i*NMF+j] += o.fw[q]*basis( FA, i, o.fp[q] )*basis( FA, j, o.fp[q] );
    V mfi = inv( mf, NMF );
    for( int f = 0; f < NF; f++ ) {
      V r( NM*NMF, 0 );
      for( size_t q = 0; q < o.fp.size(); q++ ) for( int i = 0; i < NM; i++ ) for( int j = 0; j < NMF; j++ )
        r[i*NMF+j] += o.fw[q]*basis( EL, i, faToEl( f, o.fp[q] ) )*basis( FA, j, o.fp[q] );
      V p = mul( r, mfi, NM, NMF, NMF ), t = mul( tr( p, NM, NMF ), o.massInv, NMF, NM, NM );
      for( int i = 0; i < NM*NMF; i++ ) { s_fl[f*NM*NMF+i] = r[i]; s_ft[f*NM*NMF+i] = t[i]; }
      for( int a = 0; a < NO; a++ ) {
        V m( NMF*NMF, 0 );
        for( size_t q = 0; q < o.fp.size(); q++ ) for( int i = 0; i < NMF; i++ ) for( int j = 0; j < NMF; j++ )
          m[i*NMF+j] += o.fw[q]*basis( FA, i, faToFa( a, o.fp[q] ) )*basis( FA, j, o.fp[q] );
        V n = mul( p, m, NM, NMF, NMF );
        for( int i = 0; i < NM*NMF; i++ ) s_fn[(a*NF+f)*NM*NMF+i] = n[i];
      }
    }
  }

  //! affine element given by its vertices
  struct Geo {
    P ve[8]; double jac[3][3], inv[3][3], det; // jac[phys][ref]
    void set() {
      int const ids[3] = { 1, EL == HEX8R || EL == QUAD4R ? 3 : 2, EL == HEX8R ? 4 : 3 };
      for( int d = 0; d < 3; d++ ) for( int e = 0; e < 3; e++ ) jac[d][e] = (d == e);
      for( int d = 0; d < DIM; d++ ) for( int e = 0; e < DIM; e++ ) jac[d][e] = ve[ids[e]][d]-ve[0][d];
      double (*j)[3] = jac;
      det = j[0][0]*(j[1][1]*j[2][2]-j[1][2]*j[2][1]) - j[0][1]*(j[1][0]*j[2][2]-j[1][2]*j[2][0]) + j[0][2]*(j[1][0]*j[2][1]-j[1][1]*j[2][0]);
      for( int a = 0; a < 3; a++ ) for( int b = 0; b < 3; b++ ) {
        int a1 = (a+1)%3, a2 = (a+2)%3, b1 = (b+1)%3, b2 = (b+2)%3;
        inv[a][b] = ( j[b1][a1]*j[b2][a2] - j[b1][a2]*j[b2][a1] ) / det;
      }
    }
    P phy( P const & r ) const { P x = ve[0]; for( int d = 0; d < DIM; d++ ) for( int e = 0; e < DIM; e++ ) x[d] += jac[d][e]*r[e]; return x; }
    P toRef( P const & x ) const { P r{{0,0,0}}; for( int d = 0; d < DIM; d++ ) for( int e = 0; e < DIM; e++ ) r[d] += inv[d][e]*(x[e]-ve[0][e]); return r; }
    //! outward normal (scaled by the ratio of the physical to the parametric face measure)
    P nrm( int f ) const {
      P a = ve[faVe(f,0)], n{{0,0,0}}, c{{0,0,0}};
      for( int v = 0; v < NV; v++ ) for( int d = 0; d < DIM; d++ ) c[d] += ve[v][d]/NV;
      if( DIM == 1 ) n[0] = 1;
      if( DIM == 2 ) { P b = ve[faVe(f,1)]; n[0] = b[1]-a[1]; n[1] = -(b[0]-a[0]); }
      if( DIM == 3 ) { P b = ve[faVe(f,1)], e = ve[faVe(f,NVF-1)]; for( int d = 0; d < 3; d++ ) { int d1 = (d+1)%3, d2 = (d+2)%3; n[d] = (b[d1]-a[d1])*(e[d2]-a[d2])-(b[d2]-a[d2])*(e[d1]-a[d1]); } }
      double s = 0; for( int d = 0; d < DIM; d++ ) s += n[d]*(a[d]-c[d]);
      if( s < 0 ) for( int d = 0; d < DIM; d++ ) n[d] = -n[d];
      return n;
    }
  };

  //! element with one neighbor per face; numberings of the neighbors are chosen by i_num
  inline int nNum() { return EL == TET4 ? 12 : EL == TRIA3 ? 3 : 1; }
  inline Geo center( int i_g ) {
    static double const lv[3][2] = {{0,1},{-0.25,0.5},{3,3.2}};
    static double const tv[3][3][2] = {{{0,0},{1,0},{0,1}},{{0.1,-0.2},{1.2,0.3},{0.4,0.9}},{{2,1},{1.3,1.4},{1.1,0.2}}};
    static double const te[3][4][3] = {{{0,0,0},{1,0,0},{0,1,0},{0,0,1}},{{0.1,0,-0.2},{1.1,0.2,0.1},{0.3,1.2,0.1},{0.2,0.3,0.9}},{{1,1,1},{0.2,1.1,0.8},{1.3,0.3,0.7},{0.9,0.8,0.1}}};
    static double const bo[3][3] = {{1,1,1},{0.5,1.5,0.8},{2,0.7,1.1}};
    Geo g; for( int v = 0; v < 8; v++ ) g.ve[v] = P{{0,0,0}};
    for( int v = 0; v < NV; v++ ) for( int d = 0; d < DIM; d++ )
      g.ve[v][d] = EL == LINE ? lv[i_g][v] : EL == TRIA3 ? tv[i_g][v][d] : EL == TET4 ? te[i_g][v][d] : refVe(v)[d]*bo[i_g][d]+0.3*d-0.1*i_g;
    g.set(); if( g.det < 0 ) std::swap( g.ve[1], g.ve[2] );
    g.set(); return g;
  }
  //! neighbor at the given face; o_fId: its face id, o_vId: id of its face-vertex matching the element's first vertex of the face
  inline Geo neighbor( Geo const & g, int f, int num, int & o_fId, int & o_vId, bool & o_ok ) {
    Geo n; for( int v = 0; v < 8; v++ ) n.ve[v] = P{{0,0,0}};
    o_ok = true;
    if( EL == LINE || EL == QUAD4R || EL == HEX8R ) {
      P m = g.nrm(f); double l = 0; for( int d = 0; d < DIM; d++ ) l += m[d]*m[d]; l = std::sqrt(l);
      int ax = 0; for( int d = 0; d < DIM; d++ ) if( std::fabs(m[d]) > 0.5*l ) ax = d;
      double lo = 1E9, hi = -1E9; for( int v = 0; v < NV; v++ ) { lo = std::min( lo, g.ve[v][ax] ); hi = std::max( hi, g.ve[v][ax] ); }
      double w = (hi-lo)*(0.7+0.2*f);
      for( int v = 0; v < NV; v++ ) {
        n.ve[v] = g.ve[v]; bool up = g.ve[v][ax] > 0.5*(lo+hi);
        if( m[ax] > 0 ) n.ve[v][ax] = up ? hi+w : hi; else n.ve[v][ax] = up ? lo : lo-w;
      }
    }
    else {
      P c{{0,0,0}}, m = g.nrm(f), vs[4]; int op = -1;
      for( int v = 0; v < NV; v++ ) { bool on = false; for( int k = 0; k < NVF; k++ ) on = on || faVe(f,k) == v; if( !on ) op = v; }
      for( int k = 0; k < NVF; k++ ) { vs[k] = g.ve[faVe(f,k)]; for( int d = 0; d < DIM; d++ ) c[d] += vs[k][d]/NVF; }
      double l = 0; for( int d = 0; d < DIM; d++ ) l += m[d]*m[d]; l = std::sqrt(l); (void) op;
      for( int d = 0; d < DIM; d++ ) vs[NVF][d] = c[d] + m[d]/l*(0.6+0.1*f) + 0.07*(d+1)*(f%2 ? 1 : -1);
      vs[NVF][2] = DIM == 3 ? vs[NVF][2] : 0; for( int k = 0; k < NVF; k++ ) if( DIM < 3 ) vs[k][2] = 0;
      // positive numberings
      int pe[4] = {0,1,2,3}, cnt = -1; bool found = false;
      do { for( int v = 0; v < NV; v++ ) n.ve[v] = vs[pe[v]]; n.set(); if( n.det > 0 ) cnt++; if( cnt == num ) { found = true; break; } } while( std::next_permutation( pe, pe+NV ) );
      o_ok = found; if( !found ) return n;
    }
    n.set();
    // matching face
    o_fId = o_vId = -1;
    for( int h = 0; h < NF; h++ ) {
      int cnt = 0, first = -1;
      for( int k = 0; k < NVF; k++ ) for( int j = 0; j < NVF; j++ ) {
        double e = 0; for( int d = 0; d < DIM; d++ ) e += std::fabs( g.ve[faVe(f,k)][d]-n.ve[faVe(h,j)][d] );
        if( e < 1E-9 ) { cnt++; if( k == 0 ) first = j; } }
      if( cnt == NVF ) { o_fId = h; o_vId = first; }
    }
    if( NO == 1 ) o_vId = 0;
    return n;
  }
}
#endif
