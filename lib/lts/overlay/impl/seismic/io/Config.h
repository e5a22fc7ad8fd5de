#ifndef EDGE_SEISMIC_IO_CONFIG_H
#define EDGE_SEISMIC_IO_CONFIG_H
#include <string>
#include <vector>
#include <array>
#include "constants.hpp"
#include "linalg/Domain.hpp"
#include "linalg/HalfSpace.hpp"
namespace edge { namespace seismic { namespace io {
struct Config { double m_attFreqs[2] = {0,0}; std::array< std::string, N_CRUNS > m_src; std::vector< std::string > m_ptSrcs; std::vector< linalg::Domain< real_mesh, N_DIM, linalg::HalfSpace > > m_velDoms; std::vector< std::array< real_base, 5 > > m_velVals;
  Config( int ) { m_ptSrcs.push_back( "src" ); } };
} } }
#endif
