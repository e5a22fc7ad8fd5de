#pragma once
#include <cstddef>
typedef unsigned long ghr_t;
#define GHR_DEFAULT ((ghr_t)0x01UL)
void * get_hugepage_region( size_t i_len, ghr_t i_f ); void free_hugepage_region( void * i_p ); int gethugepagesizes( long *, int ); long gethugepagesize();
