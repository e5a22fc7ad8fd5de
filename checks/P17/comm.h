#include <vector>
#include <cstddef>
// communication structure of the partitions, from EDGE-V
struct Part { std::vector< std::size_t > st, se, re; std::vector< unsigned short > sf, rf; };
std::vector< Part > commStruct( int i_nFa, unsigned short i_nTgs, std::vector< std::size_t > const & i_elFaEl, std::vector< std::size_t > const & i_nPaEls, std::vector< unsigned short > const & i_tg );
