// definitions of EDGEpre's (absent) generated data, filled by harnesses which need it
#include <cstddef>
namespace edge { namespace pre { namespace dg {
  extern double const * g_massRaw; extern std::size_t const g_massSize; extern double const * g_stiffVRaw; extern std::size_t const g_stiffVSize;
  extern double const * g_stiffTRaw; extern std::size_t const g_stiffTSize; extern double const * g_fluxLRaw; extern std::size_t const g_fluxLSize;
  extern double const * g_fluxNRaw; extern std::size_t const g_fluxNSize; extern double const * g_fluxTRaw; extern std::size_t const g_fluxTSize;
  
#ifdef LTS_ADV
  static double const l_m[36] = {1,0,0,0,0,0, 0,1,0,0,0,0, 0,0,1,0,0,0, 0,0,0,1,0,0, 0,0,0,0,1,0, 0,0,0,0,0,1}; double const * g_massRaw = l_m; std::size_t const g_massSize = 36;
#elif defined LTS_SWE
  static double const l_m[1] = {1}; double const * g_massRaw = l_m; std::size_t const g_massSize = 1;
#else
  static double const l_m[9] = {1,0,0,0,1,0,0,0,1}; double const * g_massRaw = l_m; std::size_t const g_massSize = 9;
#endif
   double const * g_stiffVRaw = 0; std::size_t const g_stiffVSize = 0;
  double const * g_stiffTRaw = 0; std::size_t const g_stiffTSize = 0; double const * g_fluxLRaw = 0; std::size_t const g_fluxLSize = 0;
  double const * g_fluxNRaw = 0; std::size_t const g_fluxNSize = 0; double const * g_fluxTRaw = 0; std::size_t const g_fluxTSize = 0;
} } }
