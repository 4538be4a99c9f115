// Mass properties, extents and distance fields of shapes.
//   drv_shape <seed> <n> <out.ndjson>
#include "vjson.h"
#include "drv_con.h"
#include "r2d_scene.h"
#include <sstream>
using namespace vj;
static double pos( Rng& g ) { return g.b( 0.3 ) ? 0.25 * g.i( 1, 8 ) : g.d( 0.05, 3.0 ); }
static std::string two( const RigidBody2DGeometry& g )
{
  scalar m, I; g.computeMassAndInertia( 1.5, m, I ); Array2s a, b; g.computeAABB( Vector2s( 1, 2 ), 0.7, a, b ); std::ostringstream o; g.serialize( o ); return num( int( g.type() ) ) + num( m ) + num( I ) + vec( a ) + vec( b ) + str( o.str() );
}
static void plane( Out& out, Rng& g )
{
  std::unique_ptr<RigidBody2DGeometry> s; SubObj d;
  if( g.b() ) { const double r = pos( g ); s.reset( new CircleGeometry( r ) ); d.t( "kind", "circle" ).n( "r", r ); }
  else { const Vector2s w( pos( g ), pos( g ) ); s.reset( new BoxGeometry( w ) ); d.t( "kind", "box2" ).v( "w", w ); }
  const std::string sh = d.done(); const double rho = g.d( 0.1, 5 ); scalar m, I; s->computeMassAndInertia( rho, m, I );
  out.put( Obj( "mass" ).raw( "s", sh ).n( "rho", rho ).n( "m", m ).raw( "I", "[" + num( I ) + "]" ).n( "same", two( *s ) == two( *s->clone() ) ) );
  const Vector2s x( g.d( -3, 3 ), g.d( -3, 3 ) ), y = g.b() ? Vector2s( x + Vector2s( g.d( -1, 1 ), g.d( -1, 1 ) ) ) : Vector2s( g.d( -3, 3 ), g.d( -3, 3 ) ); const double th = g.b( 0.2 ) ? 0.0 : g.d( -7, 7 ), ph = g.d( -7, 7 ); Array2s lo, hi;
  s->computeAABB( x, th, lo, hi ); out.put( Obj( "box" ).raw( "s", sh ).v( "x", x ).n( "R", th ).v( "lo", lo ).v( "hi", hi ) );
  s->computeCollisionAABB( x, th, y, ph, lo, hi ); out.put( Obj( "sweep" ).raw( "s", sh ).v( "x", x ).n( "R", th ).v( "y", y ).n( "Q", ph ).v( "lo", lo ).v( "hi", hi ) );
}
int main( int, char** argv )
{
  Rng g( std::strtoull( argv[1], nullptr, 10 ) ); const int n = std::atoi( argv[2] ); Out out( argv[3] );
  for( int k = 0; k < n; ++k ) plane( out, g );
  return 0;
}
