#pragma once
#include <cstddef>
extern "C" { int hbw_posix_memalign( void ** o_p, size_t i_al, size_t i_s ); void hbw_free( void * i_p ); }
