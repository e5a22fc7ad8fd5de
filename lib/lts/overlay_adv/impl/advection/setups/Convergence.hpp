#ifndef EDGE_ADVECTION_SETUPS_CONVERGENCE_HPP
#define EDGE_ADVECTION_SETUPS_CONVERGENCE_HPP
#include "constants.hpp"
namespace edge { namespace advection { namespace setups { struct Convergence {
  template< typename L > static void setConstantSpeed( L n, t_bgPars (*p)[1], double, double = 0, double = 0 ) { for( L e = 0; e < n; e++ ) { p[e][0].a = 1; p[e][0].b = 0; } }
}; } } }
#endif
