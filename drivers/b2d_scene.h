// Scenes of the planar ball simulator, shared by the drivers.
#ifndef B2D_SCENE_H
#define B2D_SCENE_H
#include "drv_con.h"
#include <algorithm>
#include <cassert>
#include <fstream>
#include <map>
#include <set>
#include "ball2d/Ball2DSim.h"
#include "ball2d/StaticGeometry/StaticPlane.h"
#include "ball2d/StaticGeometry/StaticDrum.h"
#include "ball2d/Portals/PlanarPortal.h"
#include "ball2d/Forces/Ball2DForce.h"
namespace b2
{
using namespace vj;
struct Portal { Vector2s xa, na, xb, nb; double v, b; };
struct Scene
{
  VectorXs q0, q1, v; std::vector<double> r, m; std::vector<bool> fixed;
  int n() const { return int( r.size() ); }
  struct P { Vector2s x, n, v; }; std::vector<P> planes;
  struct D { Vector2s x; double r; }; std::vector<D> drums;
  std::vector<Portal> portals; double t = 0.0;
};

inline std::string v2( const Vector2s& x ) { return vec( x ); }
inline void load( const Scene& s, Ball2DSim& sim )
{
  Ball2DState& st = sim.state();
  for( std::size_t i = 0; i < s.r.size(); ++i ) st.pushBallBack( s.q0.segment<2>( 2 * i ), s.v.segment<2>( 2 * i ), s.r[i], s.m[i], s.fixed.empty() ? false : bool( s.fixed[i] ) );
  for( const auto& p : s.planes ) { StaticPlane pl( p.x, p.n ); pl.v() = p.v; st.staticPlanes().push_back( pl ); }
  for( const auto& d : s.drums ) st.staticDrums().emplace_back( d.x, d.r );
  for( const auto& p : s.portals ) { st.planarPortals().emplace_back( StaticPlane( p.xa, p.na ), StaticPlane( p.xb, p.nb ), p.v, p.b ); st.planarPortals().back().updateMovingPortals( s.t ); }
}
inline std::string dump( const Scene& s, Ball2DSim& sim )
{
  SubObj o; const int n = int( s.r.size() );
  o.raw( "q0", segs( s.q0, 0, 2, n ) ).raw( "q1", segs( s.q1, 0, 2, n ) ).raw( "r", vecn( s.r ) );
  std::vector<std::string> a;
  for( const auto& p : s.planes ) a.push_back( SubObj().raw( "x", v2( p.x ) ).raw( "n", v2( p.n ) ).raw( "v", v2( p.v ) ).done() );
  o.raw( "planes", arr( a ) ); a.clear();
  for( const auto& d : s.drums ) a.push_back( SubObj().raw( "x", v2( d.x ) ).n( "r", d.r ).done() );
  o.raw( "drums", arr( a ) ); a.clear();
  for( std::size_t k = 0; k < s.portals.size(); ++k )
  {
    const Portal& p = s.portals[k];
    a.push_back( SubObj().raw( "a", SubObj().raw( "x", v2( p.xa ) ).raw( "n", v2( p.na ) ).done() ).raw( "b", SubObj().raw( "x", v2( p.xb ) ).raw( "n", v2( p.nb ) ).done() )
      .n( "v", p.v ).n( "bounds", p.b ).n( "t", s.t ).done() );
  }
  o.raw( "portals", arr( a ) );
  return o.done();
}
inline Vector2s unit( Rng& g ) { const double a = g.d( 0.0, 6.283185307179586 ); return Vector2s( std::cos( a ), std::sin( a ) ); }

inline Scene randomScene( Rng& g, const bool portals )
{
  Scene s;
  // now and then: one ball much larger than the rest, a crowd, a scene far from the origin
  const bool mixed = g.b( 0.25 ), crowd = g.b( 0.04 );
  const int n = crowd ? g.i( 20, 36 ) : g.i( mixed ? 5 : 1, portals ? 10 : 12 );
  const Vector2s off = g.b( 0.2 ) ? Vector2s( g.d( -500, 500 ), g.d( -500, 500 ) ) : Vector2s( 0, 0 );
  s.q0.resize( 2 * n ); s.q1.resize( 2 * n ); s.v.resize( 2 * n );
  const double L = portals ? 4.0 : g.d( 1.0, 5.0 );
  const double rot = portals && g.b() ? g.d( 0.0, 6.28 ) : 0.0;
  const double c = std::cos( rot ), sn = std::sin( rot );
  auto R = [&]( const double x, const double y ) { return Vector2s( c * x - sn * y + off.x(), sn * x + c * y + off.y() ); };
  auto D = [&]( const double x, const double y ) { return Vector2s( c * x - sn * y, sn * x + c * y ); };
  const int big = g.i( 0, n - 1 );
  for( int i = 0; i < n; ++i )
  {
    s.r.push_back( mixed ? ( i == big ? g.d( 0.8, portals ? 1.5 : 3.0 ) : g.d( 0.02, 0.25 ) ) : g.d( 0.2, portals ? 0.8 : 1.0 ) ); s.m.push_back( g.d( 0.3, 4.0 ) );
    const double w = portals ? L + 0.1 : L;
    s.q0.segment<2>( 2 * i ) = R( g.d( -w, w ), g.d( -w, w ) );
    if( portals && g.b( 0.5 ) ) { const double e = ( g.b() ? 1 : -1 ) * g.d( L - 0.6, L + 0.2 ), o = g.d( -L, L ); s.q0.segment<2>( 2 * i ) = g.b() ? R( e, o ) : R( o, e ); }
    // the small ones crowd around the large one
    if( mixed && i != big && i > 0 && g.b( 0.7 ) ) s.q0.segment<2>( 2 * i ) = s.q0.segment<2>( big < i ? 2 * big : 0 ) + ( ( big < i ? s.r[big] : s.r[0] ) + g.d( -0.1, 1.1 ) * s.r[i] ) * unit( g );
    s.v.segment<2>( 2 * i ) = Vector2s( g.d( -3, 3 ), g.d( -3, 3 ) );
    const double step = portals ? 0.05 : g.b( 0.2 ) ? 0.0 : g.d( 0.0, 1.0 );
    s.q1.segment<2>( 2 * i ) = s.q0.segment<2>( 2 * i ) + step * s.v.segment<2>( 2 * i );
  }
  const int np = g.i( 0, 2 );
  for( int k = 0; k < np; ++k ) s.planes.push_back( { off + Vector2s( g.d( -3, 3 ), g.d( -3, 3 ) ), unit( g ), g.b() ? Vector2s( 0, 0 ) : Vector2s( g.d( -2, 2 ), g.d( -2, 2 ) ) } );
  const int nd = g.i( 0, 2 );
  for( int k = 0; k < nd; ++k ) s.drums.push_back( { off + Vector2s( g.d( -1, 1 ), g.d( -1, 1 ) ), g.d( 1.5, 6.0 ) } );
  if( portals )
  {
    const int kind = g.i( 0, 3 );    // x only, y only, both, both with one Lees-Edwards
    s.t = g.d( 0.0, 20.0 );
    auto add = [&]( const bool x, const bool le )
    {
      Portal p; p.xa = x ? R( -L, 0 ) : R( 0, -L ); p.na = x ? D( 1, 0 ) : D( 0, 1 ); p.xb = x ? R( L, 0 ) : R( 0, L ); p.nb = x ? D( -1, 0 ) : D( 0, -1 );
      if( g.b( 0.3 ) ) { std::swap( p.xa, p.xb ); std::swap( p.na, p.nb ); }
      p.v = le ? g.d( -2, 2 ) : 0.0; p.b = le ? L : 0.0; s.portals.push_back( p );
    };
    if( kind == 0 ) add( true, g.b() );
    else if( kind == 1 ) add( false, g.b() );
    else { add( true, false ); add( false, kind == 3 ); }
  }
  return s;
}

}
#endif
