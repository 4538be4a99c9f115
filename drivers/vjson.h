// Minimal ndjson writer for the trace drivers.  Doubles are written as exact hexadecimal strings.
#ifndef VJSON_H
#define VJSON_H
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>
#include <initializer_list>

namespace vj
{
inline std::string num( double d ) { char b[64]; std::snprintf( b, sizeof b, "\"%a\"", d ); return b; }
inline std::string num( int i ) { return std::to_string( i ); }
inline std::string num( unsigned i ) { return std::to_string( i ); }
inline std::string num( bool b ) { return b ? "true" : "false"; }
inline std::string big( long long v ) { return "\"" + std::to_string( v ) + "\""; }
// A byte string as a sequence of character codes
inline std::string codes( const std::string& s )
{
  std::string r = "[";
  for( std::size_t i = 0; i < s.size(); ++i ) { if( i ) r += ","; r += std::to_string( int( (unsigned char) s[i] ) ); }
  return r + "]";
}
inline std::string str( const std::string& s )
{
  std::string r = "\"";
  for( char c : s ) { if( c == '"' || c == '\\' ) { r += '\\'; r += c; } else if( (unsigned char) c < 32 ) { char b[8]; std::snprintf( b, sizeof b, "\\u%04x", c ); r += b; } else r += c; }
  return r + "\"";
}
inline std::string arr( const std::vector<std::string>& v )
{
  std::string r = "[";
  for( std::size_t i = 0; i < v.size(); ++i ) { if( i ) r += ","; r += v[i]; }
  return r + "]";
}
template<typename V> std::string vec( const V& v )
{
  std::string r = "[";
  for( long i = 0; i < long( v.size() ); ++i ) { if( i ) r += ","; r += num( v( i ) ); }
  return r + "]";
}
template<typename V> std::string vecn( const V& v )
{
  std::string r = "[";
  for( std::size_t i = 0; i < v.size(); ++i ) { if( i ) r += ","; r += num( v[i] ); }
  return r + "]";
}
struct Obj
{
  std::string s;
  Obj( const std::string& e ) { s = "{\"e\":\"" + e + "\""; }
  Obj& raw( const char* k, const std::string& v ) { s += ",\""; s += k; s += "\":"; s += v; return *this; }
  Obj& n( const char* k, int v ) { return raw( k, num( v ) ); }
  Obj& n( const char* k, unsigned v ) { return raw( k, num( v ) ); }
  Obj& n( const char* k, double v ) { return raw( k, num( v ) ); }
  Obj& n( const char* k, bool v ) { return raw( k, num( v ) ); }
  Obj& t( const char* k, const std::string& v ) { return raw( k, str( v ) ); }
  Obj& c( const char* k, const std::string& v ) { return raw( k, codes( v ) ); }
  template<typename V> Obj& v( const char* k, const V& x ) { return raw( k, vec( x ) ); }
  std::string done() const { return s + "}"; }
};
struct Out
{
  std::FILE* f;
  Out( const char* path ) { f = std::fopen( path, "w" ); if( !f ) { std::perror( path ); std::exit( 3 ); } }
  ~Out() { std::fclose( f ); }
  void put( const Obj& o ) { std::fputs( o.done().c_str(), f ); std::fputc( '\n', f ); std::fflush( f ); }
};
// splitmix64
struct Rng
{
  std::uint64_t s;
  explicit Rng( std::uint64_t seed ) : s( seed ^ 0x1234567ull ) { s = next() ^ ( seed << 32 ); next(); }
  std::uint64_t next() { std::uint64_t z = ( s += 0x9E3779B97F4A7C15ull ); z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull; z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull; return z ^ ( z >> 31 ); }
  int i( int lo, int hi ) { return lo + int( next() % std::uint64_t( hi - lo + 1 ) ); }
  double u() { return double( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
  double d( double lo, double hi ) { return lo + ( hi - lo ) * u(); }
  bool b( double p = 0.5 ) { return u() < p; }
};
}
#endif
