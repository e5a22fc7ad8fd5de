#ifndef ADV_PAYLOAD_HPP
#define ADV_PAYLOAD_HPP
#include "constants.hpp"
#include "data/Dynamic.h"
#include "lts/lts.h"
namespace payload {
// the first modes of the scalar quantity hold the payload
template< int NM, typename T > void get( T const (*d)[1], double *o, char const * w ) { static_assert( NM >= 6, "modes" ); for( int q = 0; q < 5; q++ ) o[q] = d[q][0]; double s = 0; for( int q = 0; q < 5; q++ ) s += o[q]; if( !(d[5][0]-s < 1E-9 && s-d[5][0] < 1E-9) ) eng_fail( "%s: modes out of sync", w ); }
template< int NM, typename T > void put( T (*d)[1], double const *o ) { double s = 0; for( int q = 0; q < 5; q++ ) { d[q][0] = o[q]; s += o[q]; } d[5][0] = s; for( int m = 6; m < NM; m++ ) d[m][0] = 0; }
}
#endif
