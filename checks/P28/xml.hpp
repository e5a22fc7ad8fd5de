// writes configurations: trees of elements in different styles
#pragma once
#include "vh.hpp"
#include <string>
#include <vector>
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <unistd.h>
struct N { std::string n, t; std::vector< N > c; bool raw = false;
  N & add( std::string const & x, std::string const & y = "" ) { c.push_back( N{ x, y, {}, false } ); return c.back(); }
  N & at( std::string const & p ) { std::size_t k = p.find( '/' ); std::string h = p.substr( 0, k ); for( auto & x : c ) if( x.n == h ) return k == std::string::npos ? x : x.at( p.substr( k+1 ) ); N & x = add( h ); return k == std::string::npos ? x : x.at( p.substr( k+1 ) ); } };
static std::string esc( std::string const & s ) { std::string r; for( char c : s ) { if( c == '&' ) r += "&amp;"; else if( c == '<' ) r += "&lt;"; else r += c; } return r; }
// style 0: compact, 1: indented with comments and unknown elements, spaces around values, 2: other elements first, character data sections for values
static void emit( N const & x, int st, int lvl, std::string & o ) {
  std::string in = st == 1 ? "\n" + std::string( 2*lvl, ' ' ) : "";
  o += in + "<" + x.n + ">";
  if( x.c.empty() ) { char * e; strtod( x.t.c_str(), &e ); if( st == 1 && x.t.size() && !x.raw && !*e ) o += " " + esc( x.t ) + "\n "; else if( st == 2 && x.t.size() ) o += "<![CDATA[" + x.t + "]]>"; else o += esc( x.t ); }
  else {
    std::vector< std::string > names; for( auto const & c : x.c ) { bool f = false; for( auto const & n : names ) f |= n == c.n; if( !f ) { if( st == 2 ) names.insert( names.begin(), c.n ); else names.push_back( c.n ); } }
    for( auto const & n : names ) for( auto const & c : x.c ) if( c.n == n ) { if( st == 1 ) o += in + "  <!-- <" + c.n + ">17</" + c.n + "> -->"; emit( c, st, lvl+1, o ); }
    o += in;
  }
  o += "</" + x.n + ">";
}
static std::string writeXml( N const & root, int st ) {
  std::string o = "<?xml version=\"1.0\"?>\n"; emit( root, st, 0, o ); o += "\n";
  static std::string p; if( p.empty() ) { char c[4096]; p = std::string( getcwd( c, sizeof c ) ) + "/c_" + std::to_string( (long) getpid() ) + ".xml"; }
  FILE * f = fopen( p.c_str(), "w" ); VH_REQUIRE( f && fwrite( o.data(), 1, o.size(), f ) == o.size(), "scratch", "can't write %s", p.c_str() ); fclose( f ); return p;
}
static int g_sec, g_bg; // explored section, everything else is absent (0) or given (1)
static int opt( int sec, int n = 2 ) { return sec == g_sec ? vh::choose( n ) : g_bg ? n-1 : 0; }
static char const * NUM[] = { "0.5", "1e-3", "25000", "-3.25", "7", "1.5E+4" }; static double const VAL[] = { 0.5, 1e-3, 25000, -3.25, 7, 1.5e4 };
#define EQ( a, b, w ) do { auto const _a = ( a ); VH_REQUIRE( _a == ( b ), w, "%s: %g instead of %g", w, double( _a ), double( b ) ); } while( 0 )
#define NEAR( a, b, w ) do { double const _a = ( a ), _b = ( b ); VH_REQUIRE( std::fabs( _a-_b ) <= 1e-6*std::fabs( _b ), w, "%s: %g instead of %g", w, _a, _b ); } while( 0 )
#define EQS( a, b, w ) do { std::string const _a = ( a ), _b = ( b ); VH_REQUIRE( _a == _b, w, "%s: '%s' instead of '%s'", w, _a.c_str(), _b.c_str() ); } while( 0 )
