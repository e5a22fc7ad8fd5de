#ifndef EDGE_IO_CONFIG_H
#define EDGE_IO_CONFIG_H
#include <string>
#include <vector>
#include <array>
#include "constants.hpp"
#include "lts/lts.h"
#include "linalg/Domain.hpp"
#include "linalg/HalfSpace.hpp"
#include "parallel/global.h"
#include "submodules/pugixml/src/pugixml.hpp"
namespace edge { namespace io {
struct Config {
  int m_doc = 0; bool m_separateWrks = lts::S.sep; int m_periodic = 0; std::string m_meshInBase = "m", m_meshInExt = ".msh";
  std::vector< linalg::Domain< real_mesh, N_DIM, linalg::HalfSpace > > m_spTypesDoms[3]; std::vector< int_spType > m_spTypesVals[3];
  std::vector< std::array< real_mesh, 3 > > m_recvCrds[2]; std::string m_recvPath[2]; std::vector< std::string > m_recvNames[2]; double m_recvFreq[2];
  double m_waveFieldInt = lts::S.wf; std::string m_waveFieldType, m_waveFieldFile; int_spType m_waveFieldSpType = 0; double m_endTime = lts::S.end, m_syncMaxInt = lts::S.syncMax;
  std::array< std::string, N_CRUNS > m_initValsExprStrs, m_refValsExprStrs; std::string m_errorNormsType, m_errorNormsFile;
  Config( std::string ) {
    m_recvPath[0] = "out"; m_recvFreq[0] = lts::S.freq;
    for( int k = 0; k < 4; k++ ) for( int i = 0; i < lts::S.n; i++ ) { int g = lts::S.n - 1 - i; if( k < lts::S.rec[g] && lts::S.rank[g] == parallel::g_rank ) {
      // inside of the element with vertices g, g+1, g+2
      std::array< real_mesh, 3 > c; c[0] = 0.5 * (g + 1) + 0.02 * k; c[1] = ( (g%2) + ((g+1)%2) + ((g+2)%2) ) / 3.0; c[2] = 0;
      m_recvCrds[0].push_back( c ); m_recvNames[0].push_back( "r" + std::to_string(g) + "_" + std::to_string(k) ); } }
  }
};
} }
#endif
