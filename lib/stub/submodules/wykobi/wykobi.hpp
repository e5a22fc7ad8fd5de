// Stand-in for the (absent) Wykobi submodule: exact closest points and angles of the few functions EDGE calls.
#ifndef VH_WYKOBI
#define VH_WYKOBI
#include <cmath>
namespace wykobi {
  template< typename T > struct point2d { T c[2]; T & operator[]( unsigned i ) { return c[i]; } T const & operator[]( unsigned i ) const { return c[i]; } };
  template< typename T > struct point3d { T c[3]; T & operator[]( unsigned i ) { return c[i]; } T const & operator[]( unsigned i ) const { return c[i]; } };
  template< typename T, unsigned D > struct ptd { T c[D]; T & operator[]( unsigned i ) { return c[i]; } T const & operator[]( unsigned i ) const { return c[i]; } };
  template< typename T, unsigned D > struct triangle { ptd<T,D> p[3]; ptd<T,D> & operator[]( unsigned i ) { return p[i]; } ptd<T,D> const & operator[]( unsigned i ) const { return p[i]; } };
  template< typename T, unsigned D > void closest_( triangle<T,D> const & t, T const * q, T * o ) {
    T ab[D], ac[D], ap[D];
    for( unsigned d = 0; d < D; d++ ) { ab[d] = t[1][d]-t[0][d]; ac[d] = t[2][d]-t[0][d]; ap[d] = q[d]-t[0][d]; }
    auto dot = []( T const * a, T const * b ) { T s = 0; for( unsigned d = 0; d < D; d++ ) s += a[d]*b[d]; return s; };
    T d1 = dot(ab,ap), d2 = dot(ac,ap);
    if( d1 <= 0 && d2 <= 0 ) { for( unsigned d = 0; d < D; d++ ) o[d] = t[0][d]; return; }
    T bp[D], cp[D];
    for( unsigned d = 0; d < D; d++ ) { bp[d] = q[d]-t[1][d]; cp[d] = q[d]-t[2][d]; }
    T d3 = dot(ab,bp), d4 = dot(ac,bp);
    if( d3 >= 0 && d4 <= d3 ) { for( unsigned d = 0; d < D; d++ ) o[d] = t[1][d]; return; }
    T vc = d1*d4 - d3*d2;
    if( vc <= 0 && d1 >= 0 && d3 <= 0 ) { T v = d1/(d1-d3); for( unsigned d = 0; d < D; d++ ) o[d] = t[0][d]+v*ab[d]; return; }
    T d5 = dot(ab,cp), d6 = dot(ac,cp);
    if( d6 >= 0 && d5 <= d6 ) { for( unsigned d = 0; d < D; d++ ) o[d] = t[2][d]; return; }
    T vb = d5*d2 - d1*d6;
    if( vb <= 0 && d2 >= 0 && d6 <= 0 ) { T w = d2/(d2-d6); for( unsigned d = 0; d < D; d++ ) o[d] = t[0][d]+w*ac[d]; return; }
    T va = d3*d6 - d5*d4;
    if( va <= 0 && (d4-d3) >= 0 && (d5-d6) >= 0 ) { T w = (d4-d3)/((d4-d3)+(d5-d6)); for( unsigned d = 0; d < D; d++ ) o[d] = t[1][d]+w*(t[2][d]-t[1][d]); return; }
    if( D == 2 ) { for( unsigned d = 0; d < D; d++ ) o[d] = q[d]; return; }
    T den = 1/(va+vb+vc), v = vb*den, w = vc*den;
    for( unsigned d = 0; d < D; d++ ) o[d] = t[0][d] + ab[d]*v + ac[d]*w;
  }
  template< typename T > point2d<T> closest_point_on_triangle_from_point( triangle<T,2> const & t, T x, T y ) { point2d<T> r; T q[2] = {x,y}; closest_<T,2>( t, q, r.c ); return r; }
  template< typename T > point3d<T> closest_point_on_triangle_from_point( triangle<T,3> const & t, point3d<T> const & p ) { point3d<T> r; closest_<T,3>( t, p.c, r.c ); return r; }
  template< typename T > T distance( point3d<T> const & a, point3d<T> const & b ) { T s = 0; for( int d = 0; d < 3; d++ ) s += (a[d]-b[d])*(a[d]-b[d]); return std::sqrt( s ); }
  template< typename T > T robust_cartesian_angle( T x, T y ) { T a = std::atan2( y, x ) * T( 180.0/M_PI ); if( a < 0 ) a += 360; return a; }
}
#endif
