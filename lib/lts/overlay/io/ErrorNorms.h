#ifndef EDGE_IO_ERROR_NORMS_H
#define EDGE_IO_ERROR_NORMS_H
#include <string>
#include "constants.hpp"
#include "WaveField.h"
namespace edge { namespace io {
struct ErrorNorms {
  ErrorNorms( std::string, std::string ) { WaveField::last()->check( lts::S.end );
    int k = 0; if( lts::S.wf < lts::S.end ) { k = 1; while( (k - 1) * lts::S.wf < lts::S.end - 1e-9 && k * lts::S.wf <= lts::S.end + 1e-9 ) k++; if( WaveField::last()->m_k < k ) eng_fail( "%d wave fields written, %d expected", WaveField::last()->m_k, k ); } }
  bool outEnabled() { return false; }
  template< typename A > void write( A const & ) {}
};
} }
#endif
