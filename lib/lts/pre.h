// forced include of the program under test
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "lts/lts.h"
namespace std {
// files of the scenario live in the explored memory
struct eng_ofstream : public ostringstream {
  lts::File *f = nullptr; 
  eng_ofstream() {}
  template< typename P > explicit eng_ofstream( P const & p, ios_base::openmode m = ios_base::out ) { open( p, m ); }
  void open( string const & p, ios_base::openmode m = ios_base::out ) { f = lts::file( p.c_str(), true ); if( f && !(m & ios_base::app) ) f->len = 0; }
  bool is_open() const { return f; }
  void put_() { if( !f ) return; string s = str(); if( f->len + s.size() + 1 > sizeof f->data ) eng_fail( "file too long" ); for( char c : s ) f->data[f->len++] = c; str( "" ); }
  void flush() { put_(); }
  void close() { put_(); f = nullptr; }
  ~eng_ofstream() { put_(); }
};
}
#define ofstream eng_ofstream
