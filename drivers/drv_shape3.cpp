// Mass properties, extents and distance fields of spatial shapes.
//   drv_shape3 <seed> <n> <out.ndjson>
#include "r3d_scene.h"
#include "rigidbody3d/Geometry/RigidBodyStaple.h"
#include "rigidbody3d/Geometry/MomentTools.h"
#include <sstream>
using namespace vj;
static double pos( Rng& g ) { return g.b( 0.3 ) ? 0.25 * g.i( 1, 8 ) : g.d( 0.05, 3.0 ); }
static std::string look( const RigidBodyGeometry& g )
{
  scalar m; Vector3s cm, I; Matrix33sr R; g.computeMassAndInertia( 1.5, m, cm, I, R ); Array3s a, b; g.computeAABB( Vector3s( 1, 2, 3 ), Matrix33sr( Eigen::AngleAxisd( 0.7, Vector3s( 1, 2, 2 ) / 3.0 ).toRotationMatrix() ), a, b );
  std::ostringstream o; if( g.getType() != RigidBodyGeometryType::STAPLE ) g.serialize( o );
  return g.name() + num( m ) + vec( cm ) + vec( I ) + vec( VectorXs( Eigen::Map<const VectorXs>( R.data(), 9 ) ) ) + vec( a ) + vec( b ) + str( o.str() );
}
static std::string mat( const Matrix33sr& R ) { return vec( VectorXs( Eigen::Map<const VectorXs>( R.data(), 9 ) ) ); }
static std::string tris( const Matrix3Xuc& f ) { std::vector<std::string> a; for( int k = 0; k < f.cols(); ++k ) a.push_back( vecn( std::vector<unsigned>{ f( 0, k ) + 1, f( 1, k ) + 1, f( 2, k ) + 1 } ) ); return arr( a ); }
static RigidBodyTriangleMesh* mesh( const Matrix3Xsc& v, const Matrix3Xuc& f, const Vector3s& d, const Vector3u& dims, const Vector3s& o, const VectorXs& sdf, const double vol = 1.0, const Vector3s& I = Vector3s( 1, 2, 3 ), const Vector3s& cm = Vector3s( 0, 0, 0 ), const Matrix3s& R = Matrix3s::Identity() )
{
  std::stringstream s( std::ios::in | std::ios::out | std::ios::binary ); const Vector3s e = o + Vector3s( d.x() * ( dims.x() - 1 ), d.y() * ( dims.y() - 1 ), d.z() * ( dims.z() - 1 ) );
  StringUtilities::serialize( "m.h5", s ); MathUtilities::serialize( v, s ); MathUtilities::serialize( f, s ); Utilities::serialize( vol, s ); MathUtilities::serialize( I, s ); MathUtilities::serialize( cm, s ); MathUtilities::serialize( R, s );
  MathUtilities::serialize( v, s ); MathUtilities::serialize( v, s ); MathUtilities::serialize( d, s ); MathUtilities::serialize( dims, s ); MathUtilities::serialize( o, s ); MathUtilities::serialize( sdf, s ); MathUtilities::serialize( e, s );
  return new RigidBodyTriangleMesh( s );
}
// a closed surface: a tetrahedron, or a sheared box, or two apart
static void surface( Rng& g, Matrix3Xsc& v, Matrix3Xuc& f )
{
  const bool lat = g.b( 0.4 ); auto r = [&]( double a, double b ) { return lat ? double( g.i( int( a * 2 ), int( b * 2 ) ) ) : g.d( a, b ); };
  for( ;; )
  {
    if( g.b() )
    {
      v.resize( 3, 4 ); for( int k = 0; k < 12; ++k ) v.data()[k] = r( -2, 2 );
      const double det = ( v.col( 1 ) - v.col( 0 ) ).dot( Vector3s( v.col( 2 ) - v.col( 0 ) ).cross( Vector3s( v.col( 3 ) - v.col( 0 ) ) ) ); if( std::fabs( det ) < 0.2 ) continue;
      if( det < 0.0 ) { const Vector3s t = v.col( 1 ); v.col( 1 ) = v.col( 2 ); v.col( 2 ) = t; }
      f.resize( 3, 4 ); f << 0, 0, 0, 1,   2, 1, 3, 2,   1, 3, 2, 3; return;
    }
    Matrix3s A; for( int k = 0; k < 9; ++k ) A.data()[k] = r( -1, 1 ); if( g.b( 0.3 ) ) A = Matrix3s( Vector3s( r( 1, 2 ), r( 1, 2 ), r( 1, 2 ) ).asDiagonal() ); if( A.determinant() < 0.1 ) continue;
    const Vector3s c( r( -3, 3 ), r( -3, 3 ), r( -3, 3 ) ); v.resize( 3, 8 ); for( int k = 0; k < 8; ++k ) v.col( k ) = c + A * Vector3s( k & 1 ? 1 : -1, k & 2 ? 1 : -1, k & 4 ? 1 : -1 );
    f.resize( 3, 12 ); f << 0, 3, 4, 7, 0, 5, 2, 7, 0, 6, 1, 7,   2, 1, 5, 6, 1, 4, 6, 3, 4, 2, 3, 5,   3, 0, 7, 4, 5, 0, 7, 2, 6, 0, 7, 1; return;
  }
}
static void solid( Out& out, Rng& g )
{
  std::unique_ptr<RigidBodyGeometry> s; SubObj d; const int kind = g.i( 0, 3 );
  if( kind == 0 ) { const double r = pos( g ); s.reset( new RigidBodySphere( r ) ); d.t( "kind", "sphere" ).n( "r", r ); }
  else if( kind == 1 ) { const Vector3s w( pos( g ), pos( g ), pos( g ) ); s.reset( new RigidBodyBox( w ) ); d.t( "kind", "box" ).v( "w", w ); }
  else if( kind == 2 ) { const double D = 0.125 * g.i( 1, 8 ), w = D + 0.125 * g.i( 1, 24 ), l = D + 0.125 * g.i( 1, 24 ); s.reset( new RigidBodyStaple( w, l, D ) ); d.t( "kind", "staple" ).n( "w", w - D ).n( "l", l - D ).n( "r", 0.5 * D ); }
  else
  {
    Matrix3Xsc v; Matrix3Xuc f; surface( g, v, f ); const Vector3u dims( 2, 2, 2 ); s.reset( mesh( v, f, Vector3s( 1, 1, 1 ), dims, Vector3s( 0, 0, 0 ), VectorXs::Constant( 8, 1.0 ) ) ); d.t( "kind", "mesh" ).raw( "verts", cols( v ) );
  }
  const std::string sh = d.done(); const double rho = g.d( 0.1, 5 ); scalar m; Vector3s cm, I; Matrix33sr R0; s->computeMassAndInertia( rho, m, cm, I, R0 );
  if( kind < 3 )
  {
    Obj e( "mass" ); e.raw( "s", sh ).n( "rho", rho ).n( "m", m ).v( "I", I ).v( "cm", cm ).raw( "R0", mat( R0 ) ).n( "same", look( *s ) == look( *s->clone() ) ); if( kind != 2 ) e.n( "vol", s->volume() ); out.put( e );
  }
  const Matrix33sr R = g.b( 0.2 ) ? Matrix33sr( Matrix33sr::Identity() ) : r3::rotation( g ); const Vector3s x( g.d( -3, 3 ), g.d( -3, 3 ), g.d( -3, 3 ) ); Array3s lo, hi; s->computeAABB( x, R, lo, hi );
  out.put( Obj( "box" ).raw( "s", sh ).v( "x", x ).raw( "R", mat( R ) ).v( "lo", lo ).v( "hi", hi ) );
}
static void moments( Out& out, Rng& g )
{
  Matrix3Xsc v; Matrix3Xuc f; surface( g, v, f ); scalar m; Vector3s I, cm; Matrix3s R; MomentTools::computeMoments( v, f, m, I, cm, R );
  out.put( Obj( "moments" ).raw( "s", SubObj().raw( "verts", cols( v ) ).raw( "faces", tris( f ) ).done() ).n( "m", m ).v( "I", I ).v( "cm", cm ).raw( "R0", mat( Matrix33sr( R ) ) ) );
}
static void field( Out& out, Rng& g )
{
  const Vector3u dims( unsigned( g.i( 2, 4 ) ), unsigned( g.i( 2, 4 ) ), unsigned( g.i( 2, 4 ) ) ); const Vector3s h( 0.25 * g.i( 1, 6 ), 0.25 * g.i( 1, 6 ), 0.25 * g.i( 1, 6 ) ), o( 0.125 * g.i( -16, 8 ), 0.125 * g.i( -16, 8 ), 0.125 * g.i( -16, 8 ) );
  VectorXs d( dims.x() * dims.y() * dims.z() ); const double bias = g.d( -0.8, 0.8 ); for( int k = 0; k < d.size(); ++k ) d( k ) = g.d( -1, 1 ) + bias;
  Matrix3Xsc v( 3, 4 ); v << 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1; Matrix3Xuc f( 3, 4 ); f << 0, 0, 0, 1, 2, 1, 3, 2, 1, 3, 2, 3;
  const std::unique_ptr<RigidBodyTriangleMesh> m( mesh( v, f, h, dims, o, d ) ); std::vector<std::string> q;
  for( int k = 0; k < 12; ++k )
  {
    Vector3s x, n( 0, 0, 0 ); for( int a = 0; a < 3; ++a ) { const double len = h( a ) * ( dims( a ) - 1 ); const int w = g.i( 0, 9 ); x( a ) = w == 0 ? o( a ) : w == 1 ? o( a ) + len : w == 2 ? o( a ) + h( a ) * g.i( 0, int( dims( a ) ) - 1 ) : w == 3 && g.b( 0.4 ) ? o( a ) + g.d( -0.5, 1.5 ) * len : o( a ) + g.u() * len; }
    if( k == 0 ) x = o + Vector3s( h.x() * ( dims.x() - 1 ), h.y() * ( dims.y() - 1 ), h.z() * ( dims.z() - 1 ) );
    const bool in = m->detectCollision( x, n ); q.push_back( SubObj().v( "x", x ).n( "in", in ).v( "n", n ).done() );
  }
  out.put( Obj( "field" ).raw( "f", SubObj().raw( "dims", vecn( std::vector<unsigned>{ dims.x(), dims.y(), dims.z() } ) ).v( "h", h ).v( "o", o ).v( "d", d ).done() ).raw( "q", arr( q ) ) );
}
int main( int, char** argv )
{
  Rng g( std::strtoull( argv[1], nullptr, 10 ) ); const int n = std::atoi( argv[2] ); Out out( argv[3] );
  for( int k = 0; k < n; ++k ) { solid( out, g ); if( k % 2 ) moments( out, g ); else field( out, g ); }
  return 0;
}
