// Scenes of the planar rigid body simulator, shared by the drivers.
#ifndef R2D_SCENE_H
#define R2D_SCENE_H
#include "drv_con.h"
#include <cassert>
#include <fstream>
#include <map>
#include "rigidbody2d/RigidBody2DSim.h"
#include "rigidbody2d/BoxGeometry.h"
#include "rigidbody2d/CircleGeometry.h"
namespace r2
{
using namespace vj;
struct Geo { bool box; double rx, ry; };
struct Portal { Vector2s xa, na, xb, nb; double v, b; };
struct Scene
{
  VectorXs q0, q1, v; std::vector<Geo> geos; std::vector<unsigned> gi; std::vector<bool> fixed; std::vector<double> rho;
  struct P { Vector2s x, n, v; double w; }; std::vector<P> planes;
  std::vector<Portal> portals; double t = 0.0;
  int n() const { return int( gi.size() ); }
};
inline std::string v2( const Vector2s& x ) { return vec( x ); }

inline RigidBody2DState makeState( const Scene& s )
{
  const int n = s.n();
  std::vector<std::unique_ptr<RigidBody2DGeometry>> geos;
  for( const Geo& g : s.geos ) geos.emplace_back( g.box ? (RigidBody2DGeometry*) new BoxGeometry( Vector2s( g.rx, g.ry ) ) : (RigidBody2DGeometry*) new CircleGeometry( g.rx ) );
  VectorXs m( 3 * n ); VectorXu gi( n );
  for( int i = 0; i < n; ++i ) { double mm, I; geos[s.gi[i]]->computeMassAndInertia( s.rho[i], mm, I ); m.segment<3>( 3 * i ) << mm, mm, I; gi( i ) = s.gi[i]; }
  std::vector<RigidBody2DStaticPlane> planes;
  for( const auto& p : s.planes ) { planes.emplace_back( p.x, p.n ); planes.back().setV( p.v ); planes.back().setOmega( p.w ); }
  std::vector<PlanarPortal> portals;
  for( const auto& p : s.portals )
  {
    if( p.v == 0.0 && p.b == 0.0 ) portals.emplace_back( RigidBody2DStaticPlane( p.xa, p.na ), RigidBody2DStaticPlane( p.xb, p.nb ) );
    else portals.emplace_back( RigidBody2DStaticPlane( p.xa, p.na ), RigidBody2DStaticPlane( p.xb, p.nb ), p.v, p.b );
    portals.back().updateMovingPortals( s.t );
  }
  return RigidBody2DState( s.q0, s.v, m, s.fixed, gi, geos, {}, planes, portals );
}
inline std::string dump( const Scene& s )
{
  SubObj o; const int n = s.n();
  o.raw( "q0", segs( s.q0, 0, 3, n ) ).raw( "q1", segs( s.q1, 0, 3, n ) );
  std::vector<std::string> a, f;
  for( int i = 0; i < n; ++i ) { const Geo& g = s.geos[s.gi[i]]; a.push_back( SubObj().n( "box", g.box ).raw( "r", "[" + num( g.rx ) + "," + num( g.ry ) + "]" ).done() ); f.push_back( num( bool( s.fixed[i] ) ) ); }
  o.raw( "geo", arr( a ) ).raw( "fixed", arr( f ) ); a.clear();
  for( const auto& p : s.planes ) a.push_back( SubObj().raw( "x", v2( p.x ) ).raw( "n", v2( p.n ) ).raw( "v", v2( p.v ) ).n( "w", p.w ).done() );
  o.raw( "planes", arr( a ) ); a.clear();
  for( const auto& p : s.portals )
    a.push_back( SubObj().raw( "a", SubObj().raw( "x", v2( p.xa ) ).raw( "n", v2( p.na ) ).done() ).raw( "b", SubObj().raw( "x", v2( p.xb ) ).raw( "n", v2( p.nb ) ).done() )
      .n( "v", p.v ).n( "bounds", p.b ).n( "t", s.t ).done() );
  o.raw( "portals", arr( a ) );
  return o.done();
}
inline Vector2s unit( Rng& g ) { const double a = g.d( 0.0, 6.283185307179586 ); return Vector2s( std::cos( a ), std::sin( a ) ); }

// kind 0: circles and boxes; 1: circles against scripted circles and boxes; 2: circles with portals
inline Scene randomScene( Rng& g, const int kind )
{
  // now and then: one body much larger than the rest, a crowd, a scene far from the origin
  const bool mixed = g.b( 0.25 ), crowd = g.b( 0.04 );
  Scene s; const int n = crowd ? g.i( 16, 24 ) : g.i( mixed ? 5 : 1, 9 );
  const Vector2s off = g.b( 0.2 ) ? Vector2s( g.d( -200, 200 ), g.d( -200, 200 ) ) : Vector2s( 0, 0 );
  s.q0.resize( 3 * n ); s.q1.resize( 3 * n ); s.v.resize( 3 * n );
  const double L = kind == 2 ? 4.0 : g.d( 0.8, 3.5 );
  const double rot = kind == 2 && g.b() ? g.d( 0.0, 6.28 ) : 0.0;
  const double c = std::cos( rot ), sn = std::sin( rot );
  auto R = [&]( const double x, const double y ) { return Vector2s( c * x - sn * y + off.x(), sn * x + c * y + off.y() ); };
  auto D = [&]( const double x, const double y ) { return Vector2s( c * x - sn * y, sn * x + c * y ); };
  const int ng = g.i( mixed ? 3 : 1, n + 1 );
  if( mixed )
    for( int k = 0; k < ng; ++k )
    {
      const double lo = k ? 0.05 : 0.8, hi = k ? 0.25 : kind == 2 ? 1.5 : 2.5;
      s.geos.push_back( kind == 2 || g.b( kind == 0 ? 0.3 : 0.5 ) ? Geo{ false, g.d( lo, hi ), 0.0 } : Geo{ true, g.d( lo, hi ), g.d( lo, hi ) } );
    }
  for( int k = mixed ? ng : 0; k < ng; ++k ) s.geos.push_back( kind == 2 || g.b( kind == 0 ? 0.3 : 0.5 ) ? Geo{ false, g.d( 0.2, 0.8 ), 0.0 } : Geo{ true, g.d( 0.2, 1.2 ), g.d( 0.2, 1.2 ) } );
  bool boxes = false;
  for( int i = 0; i < n; ++i )
  {
    s.gi.push_back( mixed ? ( i ? unsigned( g.i( 1, ng - 1 ) ) : 0u ) : unsigned( g.i( 0, ng - 1 ) ) ); s.rho.push_back( g.d( 0.3, 4.0 ) );
    const bool box = s.geos[s.gi[i]].box; boxes = boxes || box;
    s.fixed.push_back( kind == 1 && ( box || g.b( 0.3 ) ) );
    const double w = L + ( kind == 2 ? 0.1 : 0.0 );
    Vector2s x = R( g.d( -w, w ), g.d( -w, w ) );
    if( kind == 2 && g.b() ) { const double e = ( g.b() ? 1 : -1 ) * g.d( L - 0.6, L + 0.2 ), o = g.d( -L, L ); x = g.b() ? R( e, o ) : R( o, e ); }
    if( mixed && i > 0 && g.b( 0.7 ) ) { const Geo& b = s.geos[0]; x = s.q0.segment<2>( 0 ) + Vector2s( g.d( -1, 1 ) * b.rx, g.d( -1, 1 ) * ( b.box ? b.ry : b.rx ) ); if( !b.box ) x = s.q0.segment<2>( 0 ) + ( b.rx + g.d( -0.1, 0.2 ) ) * unit( g ); }
    s.v.segment<3>( 3 * i ) << g.d( -3, 3 ), g.d( -3, 3 ), g.d( -4, 4 );
    s.q0.segment<3>( 3 * i ) << x.x(), x.y(), g.b( 0.2 ) ? 0.0 : g.d( -3.2, 3.2 );
    const double step = kind == 2 ? 0.05 : g.b( 0.2 ) ? 0.0 : g.d( 0.0, 0.5 );
    s.q1.segment<3>( 3 * i ) = s.q0.segment<3>( 3 * i ) + step * s.v.segment<3>( 3 * i );
  }
  const int np = g.i( 0, 2 );
  for( int k = 0; k < np; ++k )
  {
    const bool still = boxes || g.b( 0.3 );
    s.planes.push_back( { off + Vector2s( g.d( -2, 2 ), g.d( -2, 2 ) ), unit( g ), still ? Vector2s( 0, 0 ) : Vector2s( g.d( -2, 2 ), g.d( -2, 2 ) ), still ? 0.0 : g.d( -2, 2 ) } );
  }
  if( kind == 2 )
  {
    const int pk = g.i( 0, 3 ); s.t = g.d( 0.0, 20.0 );
    auto add = [&]( const bool x, const bool le )
    {
      Portal p; p.xa = x ? R( -L, 0 ) : R( 0, -L ); p.na = x ? D( 1, 0 ) : D( 0, 1 ); p.xb = x ? R( L, 0 ) : R( 0, L ); p.nb = x ? D( -1, 0 ) : D( 0, -1 );
      if( g.b( 0.3 ) ) { std::swap( p.xa, p.xb ); std::swap( p.na, p.nb ); }
      p.v = le ? g.d( -2, 2 ) : 0.0; p.b = le ? L : 0.0; s.portals.push_back( p );
    };
    if( pk == 0 ) add( true, g.b() ); else if( pk == 1 ) add( false, g.b() ); else { add( true, false ); add( false, pk == 3 ); }
  }
  return s;
}
}
#endif
