// Worlds written out as scene files.
//   drv_export <seed> <n> <out.ndjson>      (runs in its scratch folder)
#include "sim_adapt.h"
#include "view.h"
#include "rigidbody3dutils/XMLExporter.h"
#include <fstream>
#include <iterator>
using namespace vj;
static RigidBodyGeometry* mesh( Rng& g, const int k )
{
  std::stringstream s( std::ios::in | std::ios::out | std::ios::binary );
  Matrix3Xsc v( 3, 4 ); v << 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1; Matrix3Xuc f( 3, 4 ); f << 0, 0, 0, 1, 2, 1, 3, 2, 1, 3, 2, 3;
  const Vector3s I( g.d( 0.2, 2 ), g.d( 0.2, 2 ), g.d( 0.2, 2 ) ); Vector3s cm( 0, 0, 0 ); if( g.b() ) cm << g.d( -1, 1 ), g.d( -1, 1 ), g.d( -1, 1 );
  Matrix3s R = Matrix3s::Identity(); if( g.b( 0.7 ) ) R = Matrix3s( r3::rotation( g ) );
  StringUtilities::serialize( "shapes/m" + std::to_string( k ) + ".h5", s ); MathUtilities::serialize( v, s ); MathUtilities::serialize( f, s ); Utilities::serialize( g.d( 0.1, 3 ), s ); MathUtilities::serialize( I, s ); MathUtilities::serialize( cm, s ); MathUtilities::serialize( R, s );
  const Vector3s d( 1, 1, 1 ), o( 0, 0, 0 ), e( 1, 1, 1 ); const Vector3u dims( 2, 2, 2 ); const VectorXs sdf = VectorXs::Constant( 8, -1.0 );
  MathUtilities::serialize( v, s ); MathUtilities::serialize( v, s ); MathUtilities::serialize( d, s ); MathUtilities::serialize( dims, s ); MathUtilities::serialize( o, s ); MathUtilities::serialize( sdf, s ); MathUtilities::serialize( e, s );
  return new RigidBodyTriangleMesh( s );
}
// a rotation: any, none, a half turn, close to one of these, about an axis
static Matrix33sr turned( Rng& g )
{
  const int k = g.i( 0, 5 ); if( k == 0 ) return Matrix33sr::Identity(); if( k < 3 ) return r3::rotation( g );
  Vector3s a = k == 3 ? Vector3s( g.d( -1, 1 ), g.d( -1, 1 ), 1.0 ) : Vector3s( Vector3s::Unit( g.i( 0, 2 ) ) * ( g.b() ? 1 : -1 ) ); a.normalize();
  const double at[] = { 1e-7, 1e-3, 1.5707963267948966, 3.141592653589793, 3.14159, 2.0, 3.2, -1.0 };
  return Matrix33sr( Eigen::AngleAxisd( at[g.i( 0, 7 )], a ).toRotationMatrix() );
}
static double any( Rng& g ) { const int k = g.i( 0, 9 ); return k == 0 ? 0.0 : k == 1 ? 1.0 / 3.0 : k == 2 ? -0.0 : k == 3 ? g.d( -1e9, 1e9 ) : k == 4 ? g.d( -1e-9, 1e-9 ) : k < 7 ? 0.25 * g.i( -20, 20 ) : g.d( -10, 10 ); }
static Vector3s any3( Rng& g ) { return Vector3s( any( g ), any( g ), any( g ) ); }
static Vector3s pos3( Rng& g ) { auto p = [&]() { return g.b() ? g.d( -8, 8 ) : 0.25 * g.i( -20, 20 ); }; return Vector3s( p(), p(), p() ); }
int main( int, char** argv )
{
  Rng g( std::strtoull( argv[1], nullptr, 10 ) ); const int N = std::atoi( argv[2] ); Out out( argv[3] );
  for( int k = 0; k < N; ++k )
  {
    Sim sim; std::vector<std::unique_ptr<RigidBodyGeometry>> geos; const int ng = g.i( 1, 4 ), n = g.i( 0, 5 );
    for( int i = 0; i < ng; ++i ) geos.emplace_back( g.b( 0.6 ) ? static_cast<RigidBodyGeometry*>( new RigidBodySphere( g.b() ? g.d( 0.01, 3 ) : 0.25 * g.i( 1, 9 ) ) ) : mesh( g, i ) );
    std::vector<Vector3s> x, v, w, I0; std::vector<VectorXs> R; std::vector<scalar> m; std::vector<bool> fx; std::vector<unsigned> gi;
    for( int i = 0; i < n; ++i )
    {
      gi.push_back( unsigned( g.i( 0, ng - 1 ) ) ); const double rho = g.b( 0.3 ) ? 1.0 : g.d( 0.01, 20 ); scalar mass; Vector3s cm, I; Matrix33sr R0; geos[gi.back()]->computeMassAndInertia( rho, mass, cm, I, R0 );
      x.push_back( pos3( g ) ); v.push_back( any3( g ) ); w.push_back( any3( g ) ); I0.push_back( I ); const Matrix33sr T = turned( g ); R.push_back( VectorXs( Eigen::Map<const VectorXs>( T.data(), 9 ) ) ); m.push_back( mass ); fx.push_back( g.b( 0.3 ) );
    }
    sim.state().setState( x, v, m, R, w, I0, fx, gi, geos );
    if( g.b( 0.3 ) ) sim.state().addStaticPlane( StaticPlane( Vector3s( 0, -1, 0 ), Vector3s( 0, 1, 0 ) ) );
    const std::string before = sim_view( sim );
    const int where = g.i( 0, 11 ); const std::string name = where == 0 ? "/dev/full" : where == 1 ? "nowhere/world.xml" : "world.xml";
    if( where > 1 && g.b( 0.3 ) ) { std::ofstream old( name ); for( int i = 0; i < 200; ++i ) old << "something older that was longer\n"; }
    const bool ok = XMLExporter::saveToXMLFile( name, sim.state() );
    std::string text; if( where > 1 ) { std::ifstream f( name, std::ios::binary ); text.assign( std::istreambuf_iterator<char>( f ), std::istreambuf_iterator<char>() ); }
    out.put( Obj( "export" ).t( "to", where == 0 ? "full" : where == 1 ? "nowhere" : "disk" ).n( "ok", ok ).n( "kept", before == sim_view( sim ) ).raw( "w", before ).t( "text", text ) );
  }
  return 0;
}
