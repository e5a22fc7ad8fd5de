#include <cstdio>
#include <cstdlib>
namespace vhlog {
  void onFatal( char const * i_msg ) {
    fprintf( stderr, "VHLOG %s\n", i_msg );
    fflush( stderr );
    abort();
  }
}
