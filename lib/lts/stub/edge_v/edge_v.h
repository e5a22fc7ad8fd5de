// in-memory meshes and supplements of the scenario
#pragma once
#include <string>
#include <cstring>
#include <vector>
#include "lts/lts.h"
namespace edge_v {
typedef long long t_sparseType; enum t_entityType { TRIA3 };
inline unsigned short CE_N_FAS( t_entityType ) { return 3; }
namespace io {
struct Gmsh { template< typename... A > void setNumber( A const &... ) {} void open( std::string const & ) {} void readMesh() {} };
struct Hdf5 {
  int r;
  Hdf5( std::string const & p ) { r = p[2] - '1'; }
  std::vector< double > ds( std::string const & n, bool & ex ) const {
    using namespace lts; Part & p = P[r]; std::vector< double > v; ex = true;
    if( n == "/edge_v/n_time_group_elements_inner" ) for( int t = 0; t < S.nTgs; t++ ) v.push_back( p.nIn[t] );
    else if( n == "/edge_v/n_time_group_elements_send" ) for( int t = 0; t < S.nTgs; t++ ) v.push_back( p.nSe[t] );
    else if( n == "/edge_v/relative_time_steps" ) { for( int t = 0; t < S.nTgs; t++ ) v.push_back( 1 << t ); v.push_back( 1 << S.nTgs ); }
    else if( n == "/edge_v/vp" ) v.assign( p.nEl, 2 ); else if( n == "/edge_v/vs" || n == "/edge_v/rho" ) v.assign( p.nEl, 1 );
#ifdef LTS_SWE
    // water of height id+1 at rest
    else if( S.src[0] && n == "/edge_v/bath" ) for( int e = 0; e < p.nEl; e++ ) v.push_back( -( p.gid[e] + 1 ) );
    else if( S.src[0] && ( n == "/edge_v/disp_0" || n == "edge_v/disp_0" ) ) v.assign( p.nEl, 0 );
#endif
    else if( S.nRanks > 1 && n == "/edge_v/communication_structure" ) v.assign( p.cs, p.cs + 1 + 4 * p.nCh );
    else if( S.nRanks > 1 && n == "/edge_v/send_el" ) v.assign( p.coEl, p.coEl + p.nCo );
    else if( S.nRanks > 1 && n == "/edge_v/send_fa" ) v.assign( p.coFa, p.coFa + p.nCo );
    else if( S.nRanks > 1 && n == "/edge_v/recv_el" ) v.assign( p.coRecvEl, p.coRecvEl + p.nCo );
    else if( S.nRanks > 1 && n == "/edge_v/recv_fa" ) v.assign( p.coRecvFa, p.coRecvFa + p.nCo );
    else if( S.nRanks > 1 && n == "/edge_v/send_vertex_ids" ) for( int c = 0; c < p.nCo; c++ ) v.push_back( code( p.gid[p.coEl[c]], p.coFa[c] ) );
    else if( S.nRanks > 1 && n == "/edge_v/send_face_ids" ) for( int c = 0; c < p.nCo; c++ ) v.push_back( otherFa( p.coFa[c] ) );
    else ex = false;
    return v; }
  bool exists( std::string const & n ) const { bool e; ds( n, e ); return e; }
  std::size_t nVas( std::string const & n ) const { bool e; return ds( n, e ).size(); }
  template< typename T > void get( std::string const & n, T * o ) const { bool e; auto v = ds( n, e ); if( !e ) eng_fail( "data set %s", n.c_str() ); for( std::size_t i = 0; i < v.size(); i++ ) o[i] = v[i]; }
};
}
namespace mesh {
struct Mesh {
  std::size_t nV, nF, nE; std::vector< std::size_t > fv, fe, ev, ef, efe; std::vector< double > crd, nor, tan, area, vol, dia; std::vector< t_sparseType > sv, sf, se; int r;
  Mesh( io::Gmsh &, int ); // defined in mesh.cpp
  t_entityType getTypeEl() const { return TRIA3; }
  std::size_t nVes() const { return nV; } std::size_t nFas() const { return nF; } std::size_t nEls() const { return nE; }
  std::size_t const * getFaVe() const { return fv.data(); } std::size_t const * getFaEl() const { return fe.data(); } std::size_t const * getElVe() const { return ev.data(); } std::size_t const * getElFa() const { return ef.data(); } std::size_t const * getElFaEl() const { return efe.data(); }
  double const (* getVeCrds() const )[3] { return (double const (*)[3]) crd.data(); } double const (* getNormalsFa() const )[3] { return (double const (*)[3]) nor.data(); } double const (* getTangentsFa() const )[2][3] { return (double const (*)[2][3]) tan.data(); }
  double const * getAreasFa() const { return area.data(); } double const * getVolumesEl() const { return vol.data(); } double const * getInDiasEl() const { return dia.data(); }
  t_sparseType const * getSpTypeVe() const { return sv.data(); } t_sparseType const * getSpTypeFa() const { return sf.data(); } t_sparseType const * getSpTypeEl() const { return se.data(); }
  template< typename A > void getVeIdsAd( std::size_t n, std::size_t off, A const * el, unsigned short const * fa, unsigned short * o ) const { for( std::size_t i = off; i < off + n; i++ ) o[i] = lts::code( lts::P[r].gid[el[i]], fa[i] ); }
  template< typename A > void getFaIdsAd( std::size_t n, std::size_t off, A const *, unsigned short const * fa, unsigned short * o ) const { for( std::size_t i = off; i < off + n; i++ ) o[i] = lts::otherFa( fa[i] ); }
};
} }
