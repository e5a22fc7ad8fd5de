// Stand-in for EDGE's wrapper of the (absent) exprtk submodule: "qt scale a b c ..." sets quantities to sums of monomials.
#ifndef EDGE_EXPRESSION_HPP
#define EDGE_EXPRESSION_HPP
#include <string>
#include <sstream>
#include <vector>
#include <cmath>
#include <map>
namespace edge { namespace data {
  template< typename T > class Expression {
    struct Term { unsigned q; double s; int e[3]; };
    std::vector<Term> m_terms; T *m_crd = nullptr, *m_q = nullptr; unsigned short m_nD = 0; unsigned m_nQ = 0;
  public:
    void bind( std::string const &, T & ) {}
    void bind( std::string const &, T * a, std::size_t n ) { m_q = a; m_nQ = n; }
    void bindCrds( T * c, unsigned short n ) { m_crd = c; m_nD = n; }
    void compile( std::string const & s ) { std::istringstream i( s ); Term t; while( i >> t.q >> t.s >> t.e[0] >> t.e[1] >> t.e[2] ) m_terms.push_back( t ); }
    void eval() const {
      for( unsigned q = 0; q < m_nQ; q++ ) { bool any = false; double v = 0;
        for( auto const & t : m_terms ) if( t.q == q ) { any = true; double x = t.s; for( int d = 0; d < m_nD; d++ ) x *= std::pow( double(m_crd[d]), t.e[d] ); v += x; }
        if( any ) m_q[q] = v; }
    }
  };
} }
#endif
