// Runs scisim's text primitives on given strings and records argument and result of every call.
//   drv_text <strings.json> <seed> <random cases> <out.ndjson>
#include "scisim/StringUtilities.h"
#include "scisim/Math/MathUtilities.h"
#include "vjson.h"
#include <fstream>

using namespace vj;
namespace SU = StringUtilities;

static std::string toks( const std::vector<std::string>& t )
{
  std::vector<std::string> v;
  for( auto& s : t ) v.push_back( codes( s ) );
  return arr( v );
}

static void all( Out& out, const std::string& s, const std::vector<char>& delims, Rng& r )
{
  for( char c : delims )
  {
    std::vector<std::string> pre;
    for( int k = r.i( 0, 2 ); k > 0; --k ) pre.push_back( k == 1 ? "x" : "" );
    std::vector<std::string> out2 = pre;
    SU::tokenize( s, c, out2 );
    out.put( Obj( "tokenize" ).c( "s", s ).n( "c", int( c ) ).raw( "out", toks( SU::tokenize( s, c ) ) ).raw( "pre", toks( pre ) ).raw( "out2", toks( out2 ) ) );
    std::string lft = "junk", rgt = "junk";
    SU::splitAtLastCharacterOccurence( s, lft, rgt, c );
    out.put( Obj( "split" ).c( "s", s ).n( "c", int( c ) ).c( "left", lft ).c( "right", rgt ) );
    out.put( Obj( "numright" ).c( "s", s ).n( "c", int( c ) ).n( "out", int( SU::computeNumCharactersToRight( s, c ) ) ) );
    out.put( Obj( "trimright" ).c( "s", s ).n( "c", int( c ) ).c( "out", SU::trimCharacterRight( s, c ) ) );
  }
  out.put( Obj( "trim" ).c( "s", s ).c( "f", SU::trimFront( s ) ).c( "b", SU::trimBack( s ) ).c( "t", SU::trim( s ) ) );
  out.put( Obj( "squeeze" ).c( "s", s ).c( "out", SU::removeWhiteSpace( s ) ) );
  const unsigned w = unsigned( r.i( 0, 8 ) );
  out.put( Obj( "pad" ).c( "s", s ).n( "w", w ).c( "out", SU::padWithZeros( s, w ) ) );
}

int main( int argc, char** argv )
{
  Out out( argv[4] );
  Rng r( std::strtoull( argv[2], nullptr, 10 ) );
  const int n = std::atoi( argv[3] );
  {
    std::ifstream in( argv[1] );
    std::string line;
    while( std::getline( in, line ) )
    {
      std::string s; int cur = -1;
      for( char ch : line )
      {
        if( ch >= '0' && ch <= '9' ) cur = ( cur < 0 ? 0 : cur * 10 ) + ( ch - '0' );
        else { if( cur >= 0 ) s.push_back( char( cur ) ); cur = -1; }
      }
      all( out, s, { ',', '0' }, r );
    }
  }
  static const char pool[] = { ' ', '\t', '\n', '\v', '\f', '\r', 'a', 'b', '.', '/', ',', '0', '0', '1', '-', '_', 'Z', '~' };
  for( int k = 0; k < n; ++k )
  {
    std::string s;
    const int len = r.b( 0.1 ) ? r.i( 20, 60 ) : r.i( 0, 16 );
    for( int i = 0; i < len; ++i ) s.push_back( pool[r.i( 0, sizeof( pool ) - 1 )] );
    all( out, s, { ' ', '.', '/', '0', '\n' }, r );
  }
  // integers <-> text
  for( int k = 0; k < n; ++k )
  {
    int v = r.b( 0.3 ) ? r.i( 0, 20 ) : int( r.next() >> r.i( 33, 60 ) );
    if( r.b( 0.2 ) ) { v = 1; for( int j = r.i( 0, 9 ); j > 0; --j ) v *= 10; if( r.b() ) v -= 1; }
    out.put( Obj( "tostring" ).n( "n", v ).c( "out", SU::convertToString( v ) ).n( "digits", MathUtilities::computeNumDigits( unsigned( v ) ) ) );
    const int sv = r.b() ? v : -v;
    int got = 12345; const std::string pad1( std::size_t( r.i( 0, 2 ) ), ' ' );
    const bool ok = SU::extractFromString( pad1 + ( sv >= 0 && r.b( 0.2 ) ? "+" : "" ) + std::to_string( sv ) + ( r.b( 0.2 ) ? " " : "" ), got );
    out.put( Obj( "integer" ).n( "n", sv ).n( "ok", ok ).n( "val", got ) );
  }
  auto literal = [&]() -> std::string
  {
    if( r.b( 0.06 ) ) return r.b() ? "inf" : "-inf";
    char b[64];
    switch( r.i( 0, 4 ) )
    {
      case 0: std::snprintf( b, sizeof b, "%d", r.i( -1000, 1000 ) ); break;
      case 1: std::snprintf( b, sizeof b, "%.6f", r.d( -100, 100 ) ); break;
      case 2: std::snprintf( b, sizeof b, "%.16e", r.d( -1, 1 ) ); break;
      case 3: std::snprintf( b, sizeof b, "%.17g", std::ldexp( r.d( -1, 1 ), r.i( -40, 40 ) ) ); break;
      default: std::snprintf( b, sizeof b, "-0.%03d", r.i( 0, 999 ) );
    }
    return b;
  };
  for( int k = 0; k < n; ++k )
  {
    const std::string lit = literal();
    double v = -7.0;
    const bool ok = SU::extractScalarFromString( lit, v );
    out.put( Obj( "scalar" ).t( "lit", lit ).n( "ok", ok ).n( "val", v ) );
    static const char* bad[] = { "", "x", "abc1", "--3", "infinite", "+inf", "nan", "-", " " };
    double w = 0; const std::string b = bad[r.i( 0, 8 )];
    const bool okb = SU::extractScalarFromString( b, w );
    out.put( Obj( "notscalar" ).t( "lit", b ).n( "ok", okb ) );
    std::vector<std::string> lits; std::string text; const char d = r.b() ? ' ' : ',';
    for( int j = r.i( 1, 6 ); j > 0; --j ) { lits.push_back( literal() ); if( !text.empty() ) text += d; text += lits.back(); }
    const unsigned want = r.b( 0.7 ) ? unsigned( lits.size() ) : unsigned( r.i( 0, 7 ) );
    VectorXs list( 2 ); list << 5.0, 6.0;
    const bool okl = SU::readScalarList( text, want, d, list );
    std::vector<std::string> q; for( auto& x : lits ) q.push_back( str( x ) );
    out.put( Obj( "list" ).raw( "lits", arr( q ) ).n( "want", want ).n( "ok", okl ).v( "vals", list ) );
    const std::string t2 = text + d + "zz";
    VectorXs l2;
    out.put( Obj( "badlist" ).n( "ok", SU::readScalarList( t2, unsigned( lits.size() + 1 ), d, l2 ) ) );
  }
  return 0;
}
