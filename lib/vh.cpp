#include "vh.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <exception>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>

namespace {
  struct Live { int nCh; int ch[4000]; char text[8000]; };
  Live * g_live = nullptr;

  std::vector< int > g_ch, g_n;   // current path and arity
  size_t g_pos = 0;
  std::string g_case;
  uint64_t g_h = 0;
  bool g_nontriv = false, g_thorough = false, g_replay = false;
  uint64_t g_edges = 0;
  unsigned g_shard = 0, g_nShards = 1;
  size_t g_shardDepth = 2;
  std::map< std::string, uint64_t > g_counts;

  struct NotMine {};

  uint64_t mix( uint64_t h, void const * d, size_t n ) {
    unsigned char const * p = (unsigned char const *) d;
    for( size_t i = 0; i < n; i++ ) { h ^= p[i]; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
  }
  std::string esc( std::string const & s ) {
    std::string r;
    for( char c : s ) {
      if( c == '"' || c == '\\' ) { r += '\\'; r += c; }
      else if( c == '\n' ) r += "\\n";
      else if( (unsigned char) c < 32 ) r += ' ';
      else r += c;
    }
    return r;
  }
  void onAlarm( int ) {
    char const l_m[] = "vh: CPU limit of a single execution exceeded\n";
    if( write( 2, l_m, sizeof(l_m)-1 ) ) {}
    _exit( 98 );
  }
  void arm( double s ) {
    itimerval t; memset( &t, 0, sizeof(t) );
    t.it_value.tv_sec = (long) s; t.it_value.tv_usec = (long) ( (s - (long) s)*1e6 );
    setitimer( ITIMER_PROF, &t, nullptr );
  }
}

int vh::choose( int i_n ) {
  if( i_n <= 0 ) { fprintf( stderr, "vh: empty choice\n" ); _exit( 97 ); }
  if( g_pos < g_ch.size() ) {
    if( g_replay ) { if( g_pos >= g_n.size() ) g_n.push_back( i_n ); }
    if( g_n[g_pos] != i_n || g_ch[g_pos] >= i_n ) { fprintf( stderr, "vh: divergence while replaying prefix (pos %zu)\n", g_pos ); _exit( 97 ); }
  }
  else {
    if( g_replay ) { fprintf( stderr, "vh: replay too short\n" ); _exit( 97 ); }
    g_ch.push_back( 0 ); g_n.push_back( i_n );
  }
  if( g_live && g_pos < 4000 ) { g_live->ch[g_pos] = g_ch[g_pos]; g_live->nCh = (int) g_pos+1; }
  g_edges++;
  g_pos++;
  int l_r = g_ch[g_pos-1];
  if( g_pos == g_shardDepth && g_nShards > 1 && !g_replay ) {
    uint64_t l_idx = 0;
    for( size_t i = 0; i < g_pos; i++ ) l_idx = l_idx * g_n[i] + g_ch[i];
    if( l_idx % g_nShards != g_shard ) throw NotMine();
  }
  return l_r;
}

void vh::note( char const * i_fmt, ... ) {
  char l_b[4096];
  va_list l_a; va_start( l_a, i_fmt ); vsnprintf( l_b, sizeof(l_b), i_fmt, l_a ); va_end( l_a );
  if( g_case.size() < 6000 ) g_case += l_b;
  if( g_live ) { strncpy( g_live->text, g_case.c_str(), sizeof(g_live->text)-1 ); }
}
std::string & vh::caseText() { return g_case; }
void vh::fail( char const * i_key, char const * i_fmt, ... ) {
  char l_b[4096];
  va_list l_a; va_start( l_a, i_fmt ); vsnprintf( l_b, sizeof(l_b), i_fmt, l_a ); va_end( l_a );
  throw Violation{ i_key, l_b };
}
void vh::skip() { throw Skip(); }
void vh::observe( void const * i_d, size_t i_s ) { g_h = mix( g_h, i_d, i_s ); }
void vh::nontrivial() { g_nontriv = true; }
bool vh::thorough() { return g_thorough; }
void vh::count( char const * i_name, uint64_t i_n ) { g_counts[i_name] += i_n; }
bool vh::close( double a, double b, double tol, double scale ) {
  if( std::isnan(a) || std::isnan(b) ) return false;
  return std::fabs( a-b ) <= tol * std::max( scale, std::max( std::fabs(a), std::fabs(b) ) );
}

int vh::run( int i_argc, char ** i_argv, char const * i_name, std::function< void() > i_body ) {
  std::string l_out, l_live, l_rep; double l_budget = 1e9, l_caseCpu = 20; bool l_isRep = false;
  for( int i = 1; i < i_argc; i++ ) {
    std::string a = i_argv[i];
    auto nx = [&]{ return std::string( i_argv[++i] ); };
    if( a == "--out" ) l_out = nx();
    else if( a == "--live" ) l_live = nx();
    else if( a == "--shard" ) { std::string s = nx(); sscanf( s.c_str(), "%u/%u", &g_shard, &g_nShards ); }
    else if( a == "--depth" ) g_shardDepth = atoi( nx().c_str() );
    else if( a == "--thorough" ) g_thorough = true;
    else if( a == "--budget" ) l_budget = atof( nx().c_str() );
    else if( a == "--case-cpu" ) l_caseCpu = atof( nx().c_str() );
    else if( a == "--replay" ) { l_rep = nx(); l_isRep = true; }
    else if( a == "--param" ) nx();
  }
  if( !l_live.empty() ) {
    int fd = open( l_live.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644 );
    if( ftruncate( fd, sizeof(Live) ) == 0 ) g_live = (Live*) mmap( 0, sizeof(Live), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0 );
    ::close( fd );
  }
  signal( SIGPROF, onAlarm );
  if( l_isRep ) {
    g_replay = true;
    size_t p = 0;
    while( p < l_rep.size() ) { g_ch.push_back( atoi( l_rep.c_str()+p ) ); p = l_rep.find( ',', p ); if( p == std::string::npos ) break; p++; }
  }

  timespec t0; clock_gettime( CLOCK_MONOTONIC, &t0 );
  uint64_t l_evals = 0, l_skips = 0, l_nt = 0;
  std::unordered_set< uint64_t > l_states, l_ntStates;
  std::vector< std::string > l_samples;
  std::map< std::string, int > l_keys;
  struct V { std::string key, msg, text; std::vector<int> ch; };
  std::vector< V > l_viol;
  bool l_complete = true;

  while( true ) {
    g_pos = 0; g_case.clear(); g_h = 1469598103934665603ull; g_nontriv = false;
    if( g_live ) { g_live->nCh = 0; g_live->text[0] = 0; }
    bool l_mine = true, l_skip = false;
    arm( l_caseCpu );
    auto l_record = [&]( std::string const & k, std::string const & m ) {
      if( l_keys[k]++ < 2 ) l_viol.push_back( V{ k, m, g_case, g_ch } );
    };
    try { i_body(); }
    catch( NotMine const & ) { l_mine = false; }
    catch( Skip const & ) { l_skip = true; }
    catch( Violation const & v ) { l_record( v.key, v.msg ); }
    catch( std::exception const & e ) { l_record( "exception", e.what() ); }
    arm( 0 );
    // paths shorter than the sharding depth belong to shard 0
    if( l_mine && g_nShards > 1 && !g_replay && g_pos < g_shardDepth && g_shard != 0 ) l_mine = false;
    if( l_mine && !l_skip ) {
      l_evals++;
      l_states.insert( g_h );
      if( g_nontriv ) { l_nt++; l_ntStates.insert( g_h ); }
      if( l_samples.size() < 2 || ( g_nontriv && l_samples.size() < 5 && l_evals % 97 == 3 ) ) l_samples.push_back( g_case );
    }
    if( l_skip ) l_skips++;
    if( g_replay ) {
      for( auto & v : l_viol ) printf( "REPRODUCED key=%s %s\n  case: %s\n", v.key.c_str(), v.msg.c_str(), v.text.c_str() );
      if( l_viol.empty() ) printf( "NOT-REPRODUCED case: %s\n", g_case.c_str() );
      fflush( stdout );
      return l_viol.empty() ? 0 : 1;
    }
    if( l_viol.size() >= 40 ) { l_complete = false; break; }
    // next path
    g_ch.resize( g_pos ); g_n.resize( g_pos );
    while( !g_ch.empty() && g_ch.back()+1 >= g_n.back() ) { g_ch.pop_back(); g_n.pop_back(); }
    if( g_ch.empty() ) break;
    g_ch.back()++;
    if( ( l_evals & 15 ) == 0 ) {
      timespec t1; clock_gettime( CLOCK_MONOTONIC, &t1 );
      if( t1.tv_sec - t0.tv_sec > l_budget ) { l_complete = false; break; }
    }
  }
  g_live = nullptr;
  FILE * f = l_out.empty() ? stdout : fopen( l_out.c_str(), "w" );
  fprintf( f, "{\"name\":\"%s\",\"complete\":%s,\"evaluations\":%llu,\"skipped\":%llu,\"edges\":%llu,\"distinct\":%zu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\n\"counts\":{", i_name,
           l_complete ? "true":"false", (unsigned long long) l_evals, (unsigned long long) l_skips, (unsigned long long) g_edges, l_states.size(), (unsigned long long) l_nt, l_ntStates.size() );
  bool l_f = true;
  for( auto & c : g_counts ) { fprintf( f, "%s\"%s\":%llu", l_f ? "":",", c.first.c_str(), (unsigned long long) c.second ); l_f = false; }
  fprintf( f, "},\n\"samples\":[" );
  for( size_t i = 0; i < l_samples.size(); i++ ) fprintf( f, "%s\"%s\"", i ? ",":"", esc( l_samples[i] ).c_str() );
  fprintf( f, "],\n\"violations\":[" );
  for( size_t i = 0; i < l_viol.size(); i++ ) {
    fprintf( f, "%s{\"key\":\"%s\",\"msg\":\"%s\",\"text\":\"%s\",\"choices\":\"", i ? ",\n":"", esc( l_viol[i].key ).c_str(), esc( l_viol[i].msg ).c_str(), esc( l_viol[i].text ).c_str() );
    for( size_t j = 0; j < l_viol[i].ch.size(); j++ ) fprintf( f, "%s%d", j ? ",":"", l_viol[i].ch[j] );
    fprintf( f, "\"}" );
  }
  fprintf( f, "]}\n" );
  if( f != stdout ) fclose( f );
  fflush( stdout );
  _exit( 0 );
}
