#include <vector>
#include <array>
#include <string>
struct Loaded {
  size_t nEls, nVes, nFas, nEnts, nIn, nSe, nCo, nVp, nNone; int nTgs;
  std::vector< std::array< size_t, 2 > > lay[2]; std::vector< size_t > cnt[2], own;
  std::vector< double > relDt; std::vector< float > vp; std::vector< size_t > cs, co[4];
  std::vector< std::array< double, 3 > > crds; std::vector< size_t > elVe, elFa, faVe, elFaEl; std::vector< unsigned short > ve, fa;
  std::vector< std::array< bool, 3 > > ad, el; std::vector< long long > other, faSp;
};
void loadEdge( std::string const & i_msh, std::string const & i_h5, int i_rank, int i_nRanks, size_t i_nElFas, Loaded & o_re );
