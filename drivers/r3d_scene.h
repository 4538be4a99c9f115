// Scenes of the spatial rigid body simulator, shared by the drivers.
#ifndef R3D_SCENE_H
#define R3D_SCENE_H
#include "drv_con.h"
#include <cassert>
#include <fstream>
#include <map>
#include <sstream>
#include "rigidbody3d/RigidBody3DSim.h"
#include "rigidbody3d/RigidBody3DState.h"
#include "rigidbody3d/Geometry/RigidBodyBox.h"
#include "rigidbody3d/Geometry/RigidBodySphere.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
#include "rigidbody3d/StaticGeometry/StaticPlane.h"
#include "rigidbody3d/StaticGeometry/StaticCylinder.h"
#include "rigidbody3d/Portals/PlanarPortal.h"
#include "rigidbody3d/Forces/Force.h"
#include "scisim/Math/MathUtilities.h"
#include "scisim/StringUtilities.h"
#include "scisim/Utilities.h"
namespace r3
{
using namespace vj;
// kind 0: sphere (w.x the radius), 1: box (half widths), 2: a triangulated box with a sampled distance field
struct Geo { int kind; Vector3s w; };
struct Plane { Vector3s x, n, v, om; };
struct Cyl { Vector3s x, a; double r; Vector3s om; };
struct Portal { Vector3s xa, na, xb, nb; int m0, m1, m2; };
struct Scene
{
  VectorXs q0, q1, v; std::vector<Geo> geos; std::vector<unsigned> gi; std::vector<bool> fixed; std::vector<double> rho;
  std::vector<Plane> planes; std::vector<Cyl> cyls; std::vector<Portal> portals;
  int n() const { return int( gi.size() ); }
  void resize( const int n ) { q0.setZero( 12 * n ); q1.setZero( 12 * n ); v.setZero( 6 * n ); }
  void place( VectorXs& q, const int n, const int i, const Vector3s& x, const Matrix33sr& R ) const
  { q.segment<3>( 3 * i ) = x; for( int a = 0; a < 3; ++a ) for( int b = 0; b < 3; ++b ) q( 3 * n + 9 * i + 3 * a + b ) = R( a, b ); }
};
struct MeshData { Matrix3Xsc verts, samples; Vector3s delta, origin; Vector3u dims; VectorXs sdf; };
inline MeshData meshData( const Vector3s& w )
{
  MeshData m; m.verts.resize( 3, 8 );
  for( int k = 0; k < 8; ++k ) m.verts.col( k ) << ( k & 1 ? w.x() : -w.x() ), ( k & 2 ? w.y() : -w.y() ), ( k & 4 ? w.z() : -w.z() );
  m.samples.resize( 3, 14 );
  for( int k = 0; k < 8; ++k ) m.samples.col( k ) = m.verts.col( k );
  for( int k = 0; k < 6; ++k ) { Vector3s s( 0, 0, 0 ); s( k / 2 ) = ( k % 2 ? 1 : -1 ) * w( k / 2 ); m.samples.col( 8 + k ) = s; }
  m.dims << 4, 5, 6; m.origin = -1.5 * w;
  for( int k = 0; k < 3; ++k ) m.delta( k ) = 3.0 * w( k ) / double( m.dims( k ) - 1 );
  m.sdf.resize( m.dims.x() * m.dims.y() * m.dims.z() );
  for( unsigned k = 0; k < m.dims.z(); ++k ) for( unsigned j = 0; j < m.dims.y(); ++j ) for( unsigned i = 0; i < m.dims.x(); ++i )
  {
    const Vector3s x( m.origin.x() + i * m.delta.x(), m.origin.y() + j * m.delta.y(), m.origin.z() + k * m.delta.z() );
    const Vector3s d( std::fabs( x.x() ) - w.x(), std::fabs( x.y() ) - w.y(), std::fabs( x.z() ) - w.z() );
    m.sdf( ( k * m.dims.y() + j ) * m.dims.x() + i ) = d.maxCoeff() + 0.01 * x.x() + 0.02 * x.y() - 0.015 * x.z();
  }
  return m;
}
inline RigidBodyGeometry* makeGeo( const Geo& g )
{
  if( g.kind == 0 ) return new RigidBodySphere( g.w.x() );
  if( g.kind == 1 ) return new RigidBodyBox( g.w );
  const MeshData m = meshData( g.w );
  Matrix3Xuc f( 3, 12 );
  f << 0, 3, 4, 7, 0, 5, 2, 7, 0, 6, 1, 7,   2, 1, 5, 6, 1, 4, 6, 3, 4, 2, 3, 5,   3, 0, 7, 4, 5, 0, 7, 2, 6, 0, 7, 1;
  const double vol = 8.0 * g.w.prod();
  const Vector3s I = ( vol / 3.0 ) * Vector3s( g.w.y() * g.w.y() + g.w.z() * g.w.z(), g.w.x() * g.w.x() + g.w.z() * g.w.z(), g.w.x() * g.w.x() + g.w.y() * g.w.y() );
  std::stringstream s( std::ios::in | std::ios::out | std::ios::binary );
  StringUtilities::serialize( "mesh.h5", s ); MathUtilities::serialize( m.verts, s ); MathUtilities::serialize( f, s ); Utilities::serialize( vol, s ); MathUtilities::serialize( I, s );
  MathUtilities::serialize( Vector3s( 0, 0, 0 ), s ); MathUtilities::serialize( Matrix3s( Matrix3s::Identity() ), s ); MathUtilities::serialize( m.samples, s ); MathUtilities::serialize( m.verts, s );
  MathUtilities::serialize( m.delta, s ); MathUtilities::serialize( m.dims, s ); MathUtilities::serialize( m.origin, s ); MathUtilities::serialize( m.sdf, s );
  MathUtilities::serialize( Vector3s( 1.5 * g.w ), s );
  return new RigidBodyTriangleMesh( s );
}
inline void load( const Scene& s, RigidBody3DState& st )
{
  const int n = s.n();
  std::vector<Vector3s> X, V, om, I0; std::vector<double> M; std::vector<VectorXs> R;
  std::vector<std::unique_ptr<RigidBodyGeometry>> geos;
  for( const Geo& g : s.geos ) geos.emplace_back( makeGeo( g ) );
  for( int i = 0; i < n; ++i )
  {
    double m; Vector3s cm, I; Matrix33sr r; geos[s.gi[i]]->computeMassAndInertia( s.rho[i], m, cm, I, r );
    X.push_back( s.q0.segment<3>( 3 * i ) ); V.push_back( s.v.segment<3>( 3 * i ) ); om.push_back( s.v.segment<3>( 3 * n + 3 * i ) );
    M.push_back( m ); I0.push_back( I ); R.push_back( s.q0.segment<9>( 3 * n + 9 * i ) );
  }
  st.setState( X, V, M, R, om, I0, s.fixed, s.gi, geos );
  for( const auto& p : s.planes ) { StaticPlane pl( p.x, p.n ); pl.v() = p.v; pl.omega() = p.om; st.addStaticPlane( pl ); }
  for( const auto& c : s.cyls ) { StaticCylinder cy( c.x, c.a, c.r ); cy.omega() = c.om; st.addStaticCylinder( cy ); }
  for( const auto& p : s.portals ) st.addPlanarPortal( PlanarPortal( StaticPlane( p.xa, p.na ), StaticPlane( p.xb, p.nb ), Array3i( p.m0, p.m1, p.m2 ) ) );
}
inline std::string v3( const Vector3s& x ) { return vec( x ); }
inline std::string bodies( const VectorXs& q, const int n )
{
  std::vector<std::string> a;
  for( int i = 0; i < n; ++i ) a.push_back( SubObj().v( "x", VectorXs( q.segment<3>( 3 * i ) ) ).v( "R", VectorXs( q.segment<9>( 3 * n + 9 * i ) ) ).done() );
  return arr( a );
}
inline std::string dump( const Scene& s )
{
  SubObj o; const int n = s.n(); std::vector<std::string> a, f;
  o.raw( "q0", bodies( s.q0, n ) ).raw( "q1", bodies( s.q1, n ) );
  for( int i = 0; i < n; ++i )
  {
    const Geo& g = s.geos[s.gi[i]]; SubObj b; b.t( "kind", g.kind == 0 ? "sphere" : g.kind == 1 ? "box" : "mesh" ).raw( "r", v3( g.w ) );
    if( g.kind == 2 )
    {
      const MeshData m = meshData( g.w );
      b.raw( "samples", cols( m.samples ) ).raw( "hull", cols( m.verts ) ).v( "delta", m.delta ).v( "origin", m.origin ).raw( "dims", vecn( std::vector<unsigned>{ m.dims.x(), m.dims.y(), m.dims.z() } ) ).v( "sdf", m.sdf );
    }
    a.push_back( b.done() ); f.push_back( num( bool( s.fixed[i] ) ) );
  }
  o.raw( "geo", arr( a ) ).raw( "fixed", arr( f ) ); a.clear();
  for( const auto& p : s.planes ) a.push_back( SubObj().raw( "x", v3( p.x ) ).raw( "n", v3( p.n ) ).raw( "v", v3( p.v ) ).raw( "w", v3( p.om ) ).done() );
  o.raw( "planes", arr( a ) ); a.clear();
  for( const auto& c : s.cyls ) a.push_back( SubObj().raw( "x", v3( c.x ) ).raw( "a", v3( c.a ) ).n( "r", c.r ).raw( "w", v3( c.om ) ).done() );
  o.raw( "cyls", arr( a ) ); a.clear();
  auto side = []( const Vector3s& x, const Vector3s& n ) { const StaticPlane pl( x, n ); return SubObj().raw( "x", v3( x ) ).raw( "n", v3( n ) ).raw( "t0", v3( pl.t0() ) ).raw( "t1", v3( pl.t1() ) ).done(); };
  for( const auto& p : s.portals )
    a.push_back( SubObj().raw( "a", side( p.xa, p.na ) ).raw( "b", side( p.xb, p.nb ) )
      .raw( "m", vecn( std::vector<int>{ p.m0, p.m1, p.m2 } ) ).done() );
  o.raw( "portals", arr( a ) );
  return o.done();
}
inline Vector3s unit( Rng& g ) { for( ;; ) { const Vector3s x( g.d( -1, 1 ), g.d( -1, 1 ), g.d( -1, 1 ) ); const double l = x.norm(); if( l > 0.1 && l < 1.0 ) return x / l; } }
inline Matrix33sr rotation( Rng& g ) { return Matrix33sr( Eigen::AngleAxisd( g.d( -3.1, 3.1 ), unit( g ) ).toRotationMatrix() ); }
inline Matrix33sr turned( const Matrix33sr& R, const Vector3s& w, const double dt )
{ const double a = dt * w.norm(); return a == 0.0 ? R : Matrix33sr( Eigen::AngleAxisd( a, w.normalized() ).toRotationMatrix() * R ); }
// kind 0: spheres; 1: boxes; 2: meshes; 3: spheres with portals
inline Scene randomScene( Rng& g, const int kind )
{
  Scene s; const bool mixed = kind != 1 && g.b( 0.25 ), crowd = g.b( 0.03 );
  const int n = kind == 2 ? g.i( 1, 4 ) : crowd ? g.i( 14, 20 ) : g.i( mixed ? 4 : 1, kind == 1 ? 6 : 9 );
  s.resize( n );
  const Vector3s off = kind != 3 && g.b( 0.2 ) ? Vector3s( 50.0 * unit( g ) ) : Vector3s( 0, 0, 0 );
  const double L = kind == 3 ? 3.0 : g.d( 0.6, 2.5 );
  const Matrix33sr F = kind == 3 && g.b() ? rotation( g ) : Matrix33sr( Matrix33sr::Identity() );
  const bool aligned = kind == 1 && g.b( 0.3 ); const Matrix33sr A = g.b() ? rotation( g ) : Matrix33sr( Matrix33sr::Identity() );
  for( int i = 0; i < n; ++i )
  {
    s.gi.push_back( unsigned( i ) ); s.rho.push_back( g.d( 0.3, 4.0 ) ); s.fixed.push_back( g.b( 0.2 ) );
    Geo ge; ge.kind = kind == 1 ? 1 : kind == 2 ? 2 : 0;
    const double lo = mixed ? ( i ? 0.05 : 0.8 ) : 0.2, hi = mixed ? ( i ? 0.2 : kind == 3 ? 1.2 : 2.5 ) : kind == 3 ? 0.8 : 1.0;
    ge.w = Vector3s( g.d( lo, hi ), g.d( lo, hi ), g.d( lo, hi ) ); if( ge.kind == 0 ) ge.w = Vector3s::Constant( ge.w.x() );
    s.geos.push_back( ge );
    const double w = L + ( kind == 3 ? 0.1 : 0.0 );
    Vector3s x( g.d( -w, w ), g.d( -w, w ), g.d( -w, w ) );
    if( kind == 3 && g.b( 0.6 ) ) { const int ax = g.i( 0, 2 ); x( ax ) = ( g.b() ? 1 : -1 ) * g.d( L - 0.6, L + 0.1 ); for( int k = 0; k < 3; ++k ) if( k != ax && g.b( 0.6 ) ) x( k ) = g.d( -0.8, 0.8 ); }
    x = Vector3s( F * x ) + off;
    if( mixed && i && g.b( 0.7 ) ) x = s.q0.segment<3>( 0 ) + ( s.geos[0].w.x() + g.d( -0.1, 0.2 ) ) * unit( g );
    if( aligned && i && g.b( 0.7 ) )
    {
      // stacked on the previous one, face to face, with a slight overlap or gap
      const int ax = g.i( 0, 2 ); Vector3s d( g.d( -0.5, 0.5 ), g.d( -0.5, 0.5 ), g.d( -0.5, 0.5 ) ); if( g.b( 0.3 ) ) d.setZero();
      d( ax ) = ( g.b() ? 1 : -1 ) * ( s.geos[i].w( ax ) + s.geos[i - 1].w( ax ) - g.d( -0.02, 0.1 ) );
      x = s.q0.segment<3>( 3 * ( i - 1 ) ) + Vector3s( A * d );
    }
    // the same orientation, rounded differently, as after a step
    const Matrix33sr A2( Eigen::Quaterniond( Eigen::Matrix3d( A ) ).normalized().toRotationMatrix() );
    const Matrix33sr R = aligned ? ( i % 2 ? A2 : A ) : g.b( 0.1 ) ? Matrix33sr( Matrix33sr::Identity() ) : rotation( g );
    s.v.segment<3>( 3 * i ) = 2.0 * unit( g ); s.v.segment<3>( 3 * n + 3 * i ) = 3.0 * unit( g );
    const double step = kind == 3 ? 0.03 : aligned || g.b( 0.2 ) ? 0.0 : g.d( 0.0, 0.3 );
    s.place( s.q0, n, i, x, R ); s.place( s.q1, n, i, x + step * s.v.segment<3>( 3 * i ), turned( R, s.v.segment<3>( 3 * n + 3 * i ), step ) );
  }
  const int np = g.i( 0, 2 );
  for( int k = 0; k < np; ++k )
  {
    const bool still = kind == 1 || kind == 2 || g.b( 0.3 );
    s.planes.push_back( { off + 1.5 * unit( g ), g.b( 0.3 ) ? Vector3s( Vector3s::UnitY() ) : unit( g ), still ? Vector3s( 0, 0, 0 ) : unit( g ), still ? Vector3s( 0, 0, 0 ) : unit( g ) } );
  }
  const int nc = kind == 1 ? 0 : g.i( 0, 1 );
  // every body fits into the cylinder
  double fat = 1.0; for( const Geo& ge : s.geos ) fat = std::max( fat, ge.w.maxCoeff() );
  for( int k = 0; k < nc; ++k ) s.cyls.push_back( { off + 0.5 * unit( g ), unit( g ), fat + g.d( 0.3, 3.0 ), g.b() ? Vector3s( 0, 0, 0 ) : unit( g ) } );
  if( kind == 3 )
  {
    const int np2 = g.i( 1, 3 ), first = g.i( 0, 2 );
    for( int k = 0; k < np2; ++k )
    {
      Portal p; Vector3s e( 0, 0, 0 ); e( ( first + k ) % 3 ) = 1.0; e = F * e;
      p.xa = -L * e; p.na = e; p.xb = L * e; p.nb = -e; p.m0 = 1;
      if( g.b( 0.3 ) ) { std::swap( p.xa, p.xb ); std::swap( p.na, p.nb ); }
      // make teleporting a translation by the distance of the planes: the tangential multipliers depend on the tangent frames
      const StaticPlane a( p.xa, p.na ), b( p.xb, p.nb );
      p.m1 = a.t0().dot( b.t0() ) > 0.0 ? -1 : 1; p.m2 = a.t1().dot( b.t1() ) > 0.0 ? -1 : 1;
      s.portals.push_back( p );
    }
    // two images of one body at the same place do not arise: bodies stay clear of the planes' far sides
  }
  return s;
}
}
#endif
