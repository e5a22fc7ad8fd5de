/**
 * Small meshes which are handed to EDGE-V through the real gmsh library, in freely chosen numberings.
 **/
#ifndef MESHFIX_HPP
#define MESHFIX_HPP
#include <vector>
#include <array>
#include <set>
#include <map>
#include <algorithm>
#include <cmath>
#include <limits>
#include <gmsh.h>
#include "constants.h"
#include "io/Gmsh.h"
#include "mesh/Mesh.h"

namespace meshfix {
  using namespace edge_v;
  static const t_idx NONE = std::numeric_limits< t_idx >::max();
  typedef std::array< double, 3 > Vec;

  //! a mesh in terms of geometric vertices; the numbering is applied when passing it to gmsh
  struct Spec {
    t_entityType ty;
    std::vector< Vec > crds;
    std::vector< std::vector< int > > els;                               // vertices in gmsh's local order
    std::vector< std::pair< int, std::vector< std::vector< int > > > > groups;  // physical groups of faces
  };

  //! vertices of the faces in terms of gmsh's local numbering of the elements' vertices
  inline std::vector< std::vector< int > > facesOf( t_entityType i_ty ) {
    if( i_ty == TRIA3 ) return { {0,1}, {1,2}, {2,0} };
    if( i_ty == QUAD4R ) return { {0,1}, {1,2}, {2,3}, {3,0} };
    if( i_ty == TET4 ) return { {0,2,1}, {0,1,3}, {0,3,2}, {1,2,3} };
    if( i_ty == HEX8R ) return { {0,3,2,1}, {0,1,5,4}, {1,2,6,5}, {3,7,6,2}, {0,4,7,3}, {4,5,6,7} };
    return { {0}, {1} };
  }

  //! orders of an element's local vertices
  inline std::vector< std::vector< int > > localOrders( t_entityType i_ty ) {
    std::vector< std::vector< int > > l_re;
    if( i_ty == TRIA3 || i_ty == TET4 ) {
      std::vector< int > p; for( int i = 0; i < CE_N_VES( i_ty ); i++ ) p.push_back( i );
      do l_re.push_back( p ); while( std::next_permutation( p.begin(), p.end() ) );
    }
    else if( i_ty == QUAD4R ) {
      for( int r = 0; r < 4; r++ ) { l_re.push_back( { r, (r+1)%4, (r+2)%4, (r+3)%4 } ); l_re.push_back( { r, (r+3)%4, (r+2)%4, (r+1)%4 } ); }
    }
    else { // rotations of the cube
      int l_ax[8][3] = { {0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1} };
      int l_pe[3] = { 0, 1, 2 };
      do for( int f = 0; f < 8; f++ ) {
        std::vector< int > p( 8 );
        for( int v = 0; v < 8; v++ ) {
          int c[3]; for( int d = 0; d < 3; d++ ) c[d] = l_ax[v][ l_pe[d] ] ^ ( (f >> d) & 1 );
          for( int w = 0; w < 8; w++ ) if( l_ax[w][0] == c[0] && l_ax[w][1] == c[1] && l_ax[w][2] == c[2] ) p[v] = w;
        }
        l_re.push_back( p );
      } while( std::next_permutation( l_pe, l_pe+3 ) );
    }
    return l_re;
  }

  //! permutations to be explored for n items: all for few, otherwise systematic ones (affine maps and their reversals)
  inline std::vector< std::vector< int > > perms( int n, int i_allUpTo ) {
    std::vector< std::vector< int > > l_re;
    std::vector< int > p; for( int i = 0; i < n; i++ ) p.push_back( i );
    if( n <= i_allUpTo ) { do l_re.push_back( p ); while( std::next_permutation( p.begin(), p.end() ) ); return l_re; }
    std::set< std::vector< int > > l_se;
    for( int a = 1; a < n; a++ ) {
      bool l_inv = true; for( int i = 2; i <= a; i++ ) if( a%i == 0 && n%i == 0 ) l_inv = false;
      if( !l_inv ) continue;
      for( int b : { 0, 1, n/2, n-1 } ) { std::vector< int > q( n ); for( int i = 0; i < n; i++ ) q[i] = ( a*i+b ) % n; l_se.insert( q ); }
    }
    l_re.assign( l_se.begin(), l_se.end() );
    return l_re;
  }

  //! numbering of a mesh
  struct Numbering { std::vector< int > ve, el; std::vector< int > lo; bool gaps = false; };

  //! passes the mesh to gmsh; tags of the vertices ascend with i_nu.ve
  inline void load( Spec const & s, Numbering const & i_nu ) {
    gmsh::clear();
    gmsh::model::add( "verif" );
    int l_dim = CE_N_DIS( s.ty );
    auto tag = [&]( int v ) { return (std::size_t) ( i_nu.gaps ? 3*i_nu.ve[v]+5 : i_nu.ve[v]+1 ); };
    gmsh::model::addDiscreteEntity( l_dim, 1 );
    std::vector< std::size_t > l_tags; std::vector< double > l_crds;
    for( size_t v = 0; v < s.crds.size(); v++ ) { l_tags.push_back( tag( v ) ); for( double c : s.crds[v] ) l_crds.push_back( c ); }
    gmsh::model::mesh::addNodes( l_dim, 1, l_tags, l_crds );
    auto gt = []( t_entityType t ) { return t == POINT ? 15 : t == LINE ? 1 : t == TRIA3 ? 2 : t == QUAD4R ? 3 : t == TET4 ? 4 : 5; };
    std::vector< std::size_t > l_et, l_en;
    std::vector< std::vector< int > > l_lo = localOrders( s.ty );
    std::vector< int > l_order( s.els.size() );
    for( size_t e = 0; e < s.els.size(); e++ ) l_order[ i_nu.el[e] ] = e;
    size_t l_ne = 0;
    for( int e : l_order ) {
      l_et.push_back( ++l_ne + 100 );
      for( int v : l_lo[ i_nu.lo[e] ] ) l_en.push_back( tag( s.els[e][v] ) );
    }
    gmsh::model::mesh::addElementsByType( 1, gt( s.ty ), l_et, l_en );
    int l_ent = 1;
    for( auto & g : s.groups ) {
      // two entities per group
      std::vector< int > l_ents;
      for( int h = 0; h < 2; h++ ) {
        std::vector< std::size_t > l_ft, l_fn;
        for( size_t f = h; f < g.second.size(); f += 2 ) { l_ft.push_back( ++l_ne + 100 ); for( int v : g.second[f] ) l_fn.push_back( tag( v ) ); }
        l_ent++;
        gmsh::model::addDiscreteEntity( l_dim-1, l_ent );
        if( !l_ft.empty() ) gmsh::model::mesh::addElementsByType( l_ent, gt( CE_T_FA( s.ty ) ), l_ft, l_fn );
        l_ents.push_back( l_ent );
      }
      gmsh::model::addPhysicalGroup( l_dim-1, l_ents, g.first );
    }
    gmsh::model::addPhysicalGroup( l_dim, { 1 }, 1 );
  }

  inline Vec sub( Vec a, Vec b ) { return { a[0]-b[0], a[1]-b[1], a[2]-b[2] }; }
  inline double dot( Vec a, Vec b ) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
  inline Vec cross( Vec a, Vec b ) { return { a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0] }; }
  inline double norm( Vec a ) { return std::sqrt( dot( a, a ) ); }

  //! all boundary faces
  inline std::vector< std::vector< int > > bndFaces( Spec const & s ) {
    std::map< std::vector< int >, int > l_c; std::map< std::vector< int >, std::vector< int > > l_o;
    for( auto & e : s.els ) for( auto & f : facesOf( s.ty ) ) { std::vector< int > k, o; for( int v : f ) k.push_back( e[v] ); o = k; std::sort( k.begin(), k.end() ); l_c[k]++; l_o[k] = o; }
    std::vector< std::vector< int > > l_re; for( auto & x : l_c ) if( x.second == 1 ) l_re.push_back( l_o[x.first] );
    return l_re;
  }
  inline std::vector< std::vector< int > > allFaces( Spec const & s ) {
    std::map< std::vector< int >, std::vector< int > > l_o;
    for( auto & e : s.els ) for( auto & f : facesOf( s.ty ) ) { std::vector< int > k, o; for( int v : f ) k.push_back( e[v] ); o = k; std::sort( k.begin(), k.end() ); l_o[k] = o; }
    std::vector< std::vector< int > > l_re; for( auto & x : l_o ) l_re.push_back( x.second );
    return l_re;
  }

  //! grid of nx x ny (x nz) cells; triangles/tets split the cells
  inline Spec grid( t_entityType i_ty, int nx, int ny, int nz, Vec i_h, double i_shear=0 ) {
    Spec s; s.ty = i_ty; int l_dim = CE_N_DIS( i_ty ); if( l_dim == 2 ) nz = 0;
    auto id = [&]( int x, int y, int z ) { return ( z*(ny+1) + y )*(nx+1) + x; };
    for( int z = 0; z <= nz; z++ ) for( int y = 0; y <= ny; y++ ) for( int x = 0; x <= nx; x++ ) s.crds.push_back( { x*i_h[0]+y*i_shear, y*i_h[1], z*i_h[2] } );
    for( int z = 0; z < std::max( nz, 1 ); z++ ) for( int y = 0; y < ny; y++ ) for( int x = 0; x < nx; x++ ) {
      std::vector< int > c = { id(x,y,z), id(x+1,y,z), id(x+1,y+1,z), id(x,y+1,z) };
      if( l_dim == 3 ) for( int v : std::vector< int >{ id(x,y,z+1), id(x+1,y,z+1), id(x+1,y+1,z+1), id(x,y+1,z+1) } ) c.push_back( v );
      if( i_ty == QUAD4R || i_ty == HEX8R ) s.els.push_back( c );
      else if( i_ty == TRIA3 ) { s.els.push_back( { c[0], c[1], c[2] } ); s.els.push_back( { c[0], c[2], c[3] } ); }
      else { // six tets along the diagonal 0-6
        int t[6][2] = { {1,2}, {2,3}, {3,7}, {7,4}, {4,5}, {5,1} };
        for( auto & q : t ) s.els.push_back( { c[0], c[q[0]], c[q[1]], c[6] } );
      }
    }
    return s;
  }
}
#endif
