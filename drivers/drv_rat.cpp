// Replays operation histories on scisim's Rational, and parses rationals from text.
//   drv_rat <histories.json> <seed> <n> <out.ndjson>
#include <algorithm>
#include <cassert>
#include "scisim/Math/Rational.h"
#include "vjson.h"
#include <fstream>
using namespace vj;
typedef std::intmax_t I;
typedef Rational<I> Q;

static void apply( Out& out, Q& r, const std::string& op, I n, I d, Rng& g )
{
  if( op == "set" ) { Q& back = r.set( n, d ); if( &back != &r ) r = Q( 77, 5 ); }
  else if( op == "add" ) r += Q( n, d );
  else if( op == "sub" ) r -= Q( n, d );
  else if( op == "mul" ) r *= Q( n, d );
  else if( op == "div" ) r /= Q( n, d );
  else if( op == "muls" ) r = r * n;
  else if( op == "smul" ) r = n * r;
  else if( op == "divs" ) r = r / n;
  else if( op == "sdiv" ) r = n / r;
  I cn, cd;
  switch( g.i( 0, 3 ) )
  {
    case 0: cn = r.numerator() * 3; cd = r.denominator() * 3; break;
    case 1: cn = -r.numerator(); cd = r.denominator(); break;
    case 2: cn = g.i( -3, 3 ); cd = 1; break;
    default: cn = r.numerator(); cd = r.denominator() + 1;
  }
  const Q o( cn, cd );
  out.put( Obj( "op" ).t( "op", op ).raw( "n", big( n ) ).raw( "d", big( d ) ).raw( "rn", big( r.numerator() ) ).raw( "rd", big( r.denominator() ) )
    .n( "pos", r.positive() ).n( "nonneg", r.nonNegative() ).n( "isint", r.isInteger() ).n( "dbl", double( r ) )
    .raw( "cn", big( cn ) ).raw( "cd", big( cd ) ).n( "eq", r == o ).n( "ne", r != o ).n( "eqint", r == cn ).n( "inteq", cn == r ) );
}

static void fresh( Out& out, Q& r, I n, I d )
{
  r = Q( n, d );
  out.put( Obj( "new" ).raw( "n", big( n ) ).raw( "d", big( d ) ).raw( "rn", big( r.numerator() ) ).raw( "rd", big( r.denominator() ) ) );
}

static std::string ws( Rng& g ) { static const char* w[] = { "", "", "", " ", "\t", "  " }; return w[g.i( 0, 5 )]; }

template<typename T> static void parse( Out& out, const std::string& s, I n, I d )
{
  Rational<T> q( T( 5 ), T( 9 ) );
  const bool ok = extractFromString( s, q );
  out.put( Obj( "parse" ).t( "s", s ).raw( "n", big( n ) ).raw( "d", big( d ) ).n( "ok", ok ).raw( "rn", big( q.numerator() ) ).raw( "rd", big( q.denominator() ) ) );
}

int main( int argc, char** argv )
{
  Out out( argv[4] );
  Rng g( std::strtoull( argv[2], nullptr, 10 ) );
  const int n = std::atoi( argv[3] );
  std::ifstream in( argv[1] );
  std::string line;
  while( std::getline( in, line ) )
  {
    Q r; fresh( out, r, 0, 1 );
    // [["op",n,d],...]
    std::size_t p = 0;
    while( ( p = line.find( "[\"", p ) ) != std::string::npos )
    {
      const std::size_t e = line.find( '"', p + 2 );
      const std::string op = line.substr( p + 2, e - p - 2 );
      char* q; const I a = std::strtoll( line.c_str() + e + 2, &q, 10 ); const I b = std::strtoll( q + 1, nullptr, 10 );
      apply( out, r, op, a, b, g );
      p = e;
    }
  }
  static const char* ops[] = { "set", "add", "sub", "mul", "div", "muls", "smul", "divs", "sdiv" };
  for( int k = 0; k < n; ++k )
  {
    Q r;
    const int lim = g.b() ? 30 : 20000;
    auto nz = [&]() { I x; do { x = g.i( -lim, lim ); } while( x == 0 ); return x; };
    fresh( out, r, g.b( 0.1 ) ? 0 : g.i( -lim, lim ), nz() );
    for( int s = 0; s < 2; ++s )
    {
      const std::string op = ops[g.i( 0, 8 )];
      I a = g.i( -lim, lim ), b = nz();
      if( op == "div" || op == "divs" ) a = nz();
      if( op == "sdiv" && r.numerator() == 0 ) continue;
      apply( out, r, op, a, b, g );
    }
    out.put( Obj( "gcd" ).raw( "n", big( lim ) ).raw( "d", big( n + k ) ).raw( "out", big( GCD( I( lim ), I( n + k ) ) ) ) );
  }
  for( int k = 0; k < n; ++k )
  {
    // decimal form: sign, integer digits, fraction digits
    const bool neg = g.b( 0.4 ); const bool plus = !neg && g.b( 0.2 );
    const int id = g.i( 0, 4 ), fd = g.i( 0, 6 );
    std::string ip, fp; I num = 0, den = 1;
    for( int i = 0; i < id; ++i ) { const int c = g.b( 0.3 ) ? 0 : g.i( 0, 9 ); ip += char( '0' + c ); num = num * 10 + c; }
    for( int i = 0; i < fd; ++i ) { const int c = g.b( 0.4 ) ? 0 : g.i( 0, 9 ); fp += char( '0' + c ); num = num * 10 + c; den *= 10; }
    if( neg ) num = -num;
    const bool dot = fd > 0 || id == 0 || g.b( 0.3 );
    const std::string s = ws( g ) + ( neg ? "-" : plus ? "+" : "" ) + ws( g ) + ip + ws( g ) + ( dot ? "." : "" ) + ws( g ) + fp + ws( g );
    parse<I>( out, s, num, den );
    if( id + fd <= 8 ) parse<int>( out, s, num, den );
    // fraction form
    I a = g.i( -5000, 5000 ), b; do { b = g.i( -500, 500 ); } while( b == 0 );
    parse<I>( out, ws( g ) + std::to_string( a ) + ws( g ) + "/" + ws( g ) + std::to_string( b ) + ws( g ), a, b );
    // malformed
    static const char* bad[] = { "1/2/3", "1.2.3", "1/2.0", "0.5/2", "a", "x/2", "3/y", "1//2", "..5", "1.x", "-", "/", "1/", "/2" };
    Q q; const std::string m = bad[g.i( 0, 13 )];
    if( m == "-" ) continue;
    out.put( Obj( "refuse" ).t( "s", m ).n( "ok", extractFromString( m, q ) ) );
  }
  return 0;
}
