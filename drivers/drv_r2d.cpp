// The planar rigid body simulator.
//   drv_r2d contacts <enumerated.json> <seed> <n> <out.ndjson>
#include "r2d_scene.h"
using namespace r2;

static Traits traits( const std::string& name )
{
  Traits t;
  t.st = name == "static_plane_circle" || name == "static_plane_body";
  t.fric = name == "circle_circle";
  t.grad = t.kin = name != "body_body" && name != "static_plane_body";
  return t;
}
static void contacts( Out& out, const Scene& s, const bool exact, const double CoR )
{
  RigidBody2DSim sim; sim.state() = makeState( s );
  std::vector<std::unique_ptr<Constraint>> as;
  sim.computeActiveSet( s.q0, s.q1, s.v, as );
  const std::string cs = describeAll( as, (const FlowableSystem&) sim, (const ConstrainedSystem&) sim, s.q0, s.v, CoR, traits );
  out.put( Obj( "active" ).raw( "s", dump( s ) ).v( "v", s.v ).n( "exact", exact ).raw( "cs", cs ) );
  std::vector<std::unique_ptr<Constraint>> cur; sim.computeActiveSet( s.q0, s.q0, s.v, cur );
  std::vector<std::string> a, b;
  for( const auto& k : cur ) { VectorXs p, n; k->getWorldSpaceContactPoint( s.q0, p ); k->getWorldSpaceContactNormal( s.q0, n ); a.push_back( SubObj().v( "p", p ).v( "n", n ).done() ); }
  std::vector<Vector2s> points( 2, Vector2s( 9, 9 ) ), normals( 1, Vector2s( 9, 9 ) );
  sim.computeContactPoints( points, normals );
  if( points.size() == normals.size() ) for( std::size_t k = 0; k < points.size(); ++k ) b.push_back( SubObj().v( "p", points[k] ).v( "n", normals[k] ).done() );
  else b.push_back( "\"mismatch\"" );
  out.put( Obj( "points" ).raw( "cs", arr( a ) ).raw( "st", arr( b ) ) );
}
static int doContacts( const char* enumerated, Rng& g, const int n, Out& out )
{
  std::ifstream in( enumerated ); std::string line;
  while( std::getline( in, line ) )
  {
    // [x, y, first box?, second box?, quarter turns of the second, plane?, fixed second?]
    const std::vector<long> a = ints( line ); if( a.size() < 7 ) continue;
    Scene s; s.q0.resize( 6 ); s.v.resize( 6 );
    s.q0 << 0, 0, 0, a[0], a[1], 0; s.v << 1, 2, 3, -1, 0.5, 0.25; s.q1 = s.q0;
    // half widths in units: circle radius 1 / box 2 x 1, the second turned by swapping its widths
    s.geos.push_back( { bool( a[2] ), a[2] ? 2.0 : 1.0, a[2] ? 1.0 : 0.0 } );
    s.geos.push_back( { bool( a[3] ), a[3] ? ( a[4] ? 1.0 : 2.0 ) : 2.0, a[3] ? ( a[4] ? 2.0 : 1.0 ) : 0.0 } );
    s.gi = { 0, 1 }; s.fixed = { false, bool( a[6] ) }; s.rho = { 1.0, 2.0 };
    if( a[5] ) s.planes.push_back( { Vector2s( 0, -1 ), Vector2s( 0, 1 ), Vector2s( 0, 0 ), 0.0 } );
    contacts( out, s, true, 0.5 );
  }
  for( int i = 0; i < n; ++i ) for( int k = 0; k < 3; ++k ) { Scene s = randomScene( g, k ); calm( g, s.q0, s.v, 3 ); contacts( out, s, false, g.d( 0, 1 ) ); }
  return 0;
}
int main( int argc, char** argv )
{
  const std::string mode = argv[1];
  Out out( argv[argc - 1] );
  if( mode == "contacts" ) { Rng g( std::strtoull( argv[3], nullptr, 10 ) ); return doContacts( argv[2], g, std::atoi( argv[4] ), out ); }
  return 4;
}
