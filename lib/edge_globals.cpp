// definitions of EDGEpre's (absent) generated data, filled by harnesses which need it
#include <cstddef>
namespace edge { namespace pre { namespace dg {
  extern double const * g_massRaw; extern std::size_t const g_massSize; extern double const * g_stiffVRaw; extern std::size_t const g_stiffVSize;
  extern double const * g_stiffTRaw; extern std::size_t const g_stiffTSize; extern double const * g_fluxLRaw; extern std::size_t const g_fluxLSize;
  extern double const * g_fluxNRaw; extern std::size_t const g_fluxNSize; extern double const * g_fluxTRaw; extern std::size_t const g_fluxTSize;
  double const * g_massRaw = 0; std::size_t const g_massSize = 0; double const * g_stiffVRaw = 0; std::size_t const g_stiffVSize = 0;
  double const * g_stiffTRaw = 0; std::size_t const g_stiffTSize = 0; double const * g_fluxLRaw = 0; std::size_t const g_fluxLSize = 0;
  double const * g_fluxNRaw = 0; std::size_t const g_fluxNSize = 0; double const * g_fluxTRaw = 0; std::size_t const g_fluxTSize = 0;
} } }
