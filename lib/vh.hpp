/**
 * Bounded exhaustive explorer for sequential code.
 *
 * A check body asks for every nondeterministic input through vh::choose(n); vh::main enumerates the complete
 * choice tree depth-first (every path is one execution of the real code), evaluates the oracle on each and records
 * violations together with the choice sequence, which --replay re-executes.
 **/
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace vh {
  struct Violation { std::string key, msg; };
  struct Skip {};

  //! next nondeterministic choice in [0,n)
  int choose( int i_n );
  //! fixed tuple choice
  template< typename T, size_t N > T const & pick( T const (&i_a)[N] ) { return i_a[choose( (int) N )]; }
  template< typename T > T const & pick( std::vector<T> const & i_a ) { return i_a[choose( (int) i_a.size() )]; }

  //! describes the current execution (shown in samples and violations)
  void note( char const * i_fmt, ... ) __attribute__((format(printf,1,2)));
  //! current description
  std::string & caseText();
  //! ends the current execution with a violation; key identifies the kind of the violation
  [[noreturn]] void fail( char const * i_key, char const * i_fmt, ... ) __attribute__((format(printf,2,3)));
  //! abandons the current path, which is outside of the explored input space
  [[noreturn]] void skip();
  //! adds data to the hash of what is observed in this execution
  void observe( void const * i_data, size_t i_size );
  template< typename T > void obs( T const & i_v ) { observe( &i_v, sizeof(T) ); }
  //! marks the current execution as non-trivial (default: trivial)
  void nontrivial();
  //! true for the thorough tier
  bool thorough();
  //! additional counter reported in the evidence
  void count( char const * i_name, uint64_t i_n=1 );
  //! explorer, called by the harness' main
  int run( int i_argc, char ** i_argv, char const * i_name, std::function< void() > i_body );

  //! relative/absolute closeness
  bool close( double i_a, double i_b, double i_tol=1E-9, double i_scale=1.0 );
}

#define VH_REQUIRE( cond, key, ... ) do { if( !(cond) ) vh::fail( key, __VA_ARGS__ ); } while( 0 )
#endif
