// Stand-in for the logging library: messages are dropped, failed CHECKs and FATAL messages end the execution.
#ifndef VH_EASYLOGGING_STUB
#define VH_EASYLOGGING_STUB
#include <sstream>
#include <string>
#include <cstdio>
#include <cstdlib>
// the real header makes these available as well
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <vector>
#include <map>
#include <fstream>
#include <iomanip>
#include <functional>
#include <memory>
#include <unordered_map>
#include <iostream>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
namespace vhlog {
  struct Null { template<typename T> Null const & operator<<( T const & ) const { return *this; }
                Null const & operator<<( std::ostream & (*)( std::ostream & ) ) const { return *this; } };
  // called by Fatal, can be replaced by the harness
  void onFatal( char const * i_msg );
  struct Fatal { std::ostringstream s; char const * w;
    Fatal( char const * i_w ): w( i_w ) {}
    template<typename T> Fatal & operator<<( T const & t ) { s << t; return *this; }
    Fatal & operator<<( std::ostream & (*f)( std::ostream & ) ) { s << f; return *this; }
    ~Fatal() noexcept( false ) { std::string l_m = std::string( w ) + ": " + s.str(); onFatal( l_m.c_str() ); } };
  struct Void { void operator&( Null const & ) {} void operator&( Fatal const & ) {} };
}
#define INITIALIZE_EASYLOGGINGPP
#define VHLOG_INFO vhlog::Null()
#define VHLOG_TRACE vhlog::Null()
#define VHLOG_DEBUG vhlog::Null()
#define VHLOG_ERROR vhlog::Null()
#define VHLOG_WARNING vhlog::Null()
#define VHLOG_VERBOSE vhlog::Null()
#define VHLOG_FATAL vhlog::Fatal( "FATAL" )
#define LOG( l ) VHLOG_##l
#define LOG_IF( c, l ) !(c) ? (void) 0 : vhlog::Void() & VHLOG_##l
#define VLOG( l ) vhlog::Null()
#define VLOG_IF( c, l ) vhlog::Null()
#define VLOG_IS_ON( l ) false
#define CHECK( c ) (c) ? (void) 0 : vhlog::Void() & vhlog::Fatal( "CHECK(" #c ")" )
#define CHECK_EQ( a, b ) CHECK( (a) == (b) )
#define CHECK_NE( a, b ) CHECK( (a) != (b) )
#define CHECK_LT( a, b ) CHECK( (a) <  (b) )
#define CHECK_GT( a, b ) CHECK( (a) >  (b) )
#define CHECK_LE( a, b ) CHECK( (a) <= (b) )
#define CHECK_GE( a, b ) CHECK( (a) >= (b) )
#endif
