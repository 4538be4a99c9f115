// The spatial rigid body simulator.
//   drv_r3d contacts <enumerated.json> <seed> <n> <out.ndjson>
#include "r3d_scene.h"
using namespace r3;

static Traits traits( const std::string& name )
{
  Traits t;
  t.st = name.compare( 0, 7, "static_" ) == 0;
  t.kin = true;
  t.gap = name == "sphere_sphere" || name == "kinematic_sphere_sphere" || name == "static_plane_sphere" || name == "static_cylinder_sphere";
  t.disk = name.compare( 0, 9, "kinematic" ) == 0 ? 0 : 5;
  t.res = name == "sphere_sphere" || name == "static_plane_sphere";
  return t;
}
// contacts of mesh vertices with cylinders report no more than this
static std::string bare( const Constraint& con, const VectorXs& q, const VectorXs& v )
{
  SubObj o; std::pair<int,int> s; con.getSimulatedBodyIndices( s );
  MatrixXXsc basis, H0( 3, 6 ), H1( 3, 6 ); H0.setZero(); H1.setZero(); con.computeBasis( q, v, basis ); con.evalH( q, basis, H0, H1 );
  return o.t( "name", con.name() ).n( "s0", s.first ).n( "s1", s.second ).n( "b0", s.first ).n( "b1", s.second ).n( "obj", -1 ).raw( "basis", cols( basis ) ).n( "nv", con.evalNdotV( q, v ) ).v( "rel", con.computeRelativeVelocity( q, v ) ).raw( "H0", rows( H0 ) ).done();
}
static void contacts( Out& out, const Scene& s, const bool exact, const double CoR )
{
  RigidBody3DSim sim; load( s, sim.state() );
  std::vector<std::unique_ptr<Constraint>> as, full, rest;
  sim.computeActiveSet( s.q0, s.q1, s.v, as );
  for( auto& c : as ) ( c->name() == "static_cylinder_body" ? rest : full ).push_back( std::move( c ) );
  const std::string cs = describeAll( full, (const FlowableSystem&) sim, (const ConstrainedSystem&) sim, s.q0, s.v, CoR, traits );
  std::vector<std::string> bs; for( const auto& c : rest ) bs.push_back( bare( *c, s.q0, s.v ) );
  out.put( Obj( "active" ).raw( "s", dump( s ) ).v( "v", s.v ).n( "exact", exact ).raw( "cs", cs ).raw( "bs", arr( bs ) ) );
  bool balls = true; for( const unsigned g : s.gi ) balls = balls && s.geos[g].kind == 0;
  if( !balls || !s.portals.empty() ) return;
  // the collision statistics of the current state
  std::vector<std::unique_ptr<Constraint>> cur; sim.computeActiveSet( s.q0, s.q0, s.v, cur );
  std::vector<std::string> a, b;
  for( const auto& k : cur ) { std::pair<int,int> i; k->getBodyIndices( i ); a.push_back( SubObj().t( "name", k->name() ).n( "b0", i.first ).n( "b1", i.second ).n( "depth", k->penetrationDepth( s.q0 ) ).done() ); }
  std::map<std::string,unsigned> cnt; std::map<std::string,double> dep, vol; sim.computeNumberOfCollisions( cnt, dep, vol );
  for( const auto& k : cnt ) b.push_back( SubObj().t( "name", k.first ).n( "count", k.second ).n( "depth", dep[k.first] ).n( "vol", vol[k.first] ).done() );
  std::vector<double> r; for( const unsigned g : s.gi ) r.push_back( s.geos[g].w.x() );
  out.put( Obj( "stats" ).raw( "x", segs( s.q0, 0, 3, s.n() ) ).raw( "r", vecn( r ) ).raw( "cs", arr( a ) ).raw( "st", arr( b ) ) );
}
static int doContacts( const char* enumerated, Rng& g, const int n, Out& out )
{
  std::ifstream in( enumerated ); std::string line;
  while( std::getline( in, line ) )
  {
    // [x, y, z, box?, quarter turn of the second, plane?, fixed second?]
    const std::vector<long> a = ints( line ); if( a.size() < 7 ) continue;
    Scene s; s.resize( 2 );
    Matrix33sr R; R.setIdentity(); Matrix33sr T; T << 0, -1, 0, 1, 0, 0, 0, 0, 1;
    s.place( s.q0, 2, 0, Vector3s( 0, 0, 0 ), R ); s.place( s.q0, 2, 1, Vector3s( a[0], a[1], a[2] ), a[4] ? T : R ); s.q1 = s.q0;
    s.v << 1, 2, 3, -1, 0.5, 0.25, 0.5, -1, 2, 1, 0, -0.5;
    const bool box = a[3];
    s.geos = { { box, box ? Vector3s( 2, 1, 1 ) : Vector3s( 1, 1, 1 ) }, { box, box ? Vector3s( 1, 2, 1 ) : Vector3s( 2, 2, 2 ) } };
    s.gi = { 0, 1 }; s.fixed = { false, bool( a[6] ) }; s.rho = { 1.0, 2.0 };
    if( a[5] ) { s.planes.push_back( { Vector3s( 0, -1, 0 ), Vector3s( 0, 1, 0 ), Vector3s( 0, 0, 0 ), Vector3s( 0, 0, 0 ) } ); if( !box ) s.cyls.push_back( { Vector3s( 0, 0, 1 ), Vector3s( 0, 0, 1 ), 4.0, Vector3s( 0, 0, 0 ) } ); }
    contacts( out, s, true, 0.5 );
  }
  for( int i = 0; i < n; ++i ) for( int k = 0; k < 4; ++k ) { Scene s = randomScene( g, k ); calm( g, s.q0, s.v, 6 ); contacts( out, s, false, g.d( 0, 1 ) ); }
  return 0;
}
int main( int argc, char** argv )
{
  const std::string mode = argv[1];
  Out out( argv[argc - 1] );
  if( mode == "contacts" ) { Rng g( std::strtoull( argv[3], nullptr, 10 ) ); return doContacts( argv[2], g, std::atoi( argv[4] ), out ); }
  return 4;
}
