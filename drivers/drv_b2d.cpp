// The planar ball simulator.
//   drv_b2d contacts <enumerated.json> <seed> <n> <out.ndjson>
#include "b2d_scene.h"
using namespace b2;

static Traits traits( const std::string& name )
{
  Traits t; t.kin = true;
  t.st = name == "static_plane_constraint" || name == "static_drum_constraint";
  t.gap = name == "ball_ball" || name == "static_plane_constraint";
  t.disk = t.st ? 1 : 0;
  t.res = !t.st && name != "teleported_kinematic_kick_ball_ball";
  return t;
}
static void contacts( Out& out, const Scene& s, const bool exact, const double CoR, const bool stats )
{
  Ball2DSim sim; load( s, sim );
  std::vector<std::unique_ptr<Constraint>> as;
  sim.computeActiveSet( s.q0, s.q1, s.v, as );
  const FlowableSystem& f = (const FlowableSystem&) sim; const ConstrainedSystem& c = (const ConstrainedSystem&) sim;
  const std::string cs = describeAll( as, f, c, s.q0, s.v, CoR, traits );
  out.put( Obj( "active" ).raw( "s", dump( s, sim ) ).v( "v", s.v ).n( "exact", exact ).raw( "cs", cs ) );
  if( stats )
  {
    // contacts of the current state, then the simulator's own statistics of the same state
    std::vector<std::unique_ptr<Constraint>> cur; sim.computeActiveSet( s.q0, s.q0, s.v, cur );
    std::vector<std::string> a;
    for( const auto& k : cur ) a.push_back( SubObj().t( "name", k->name() ).n( "depth", k->penetrationDepth( s.q0 ) ).done() );
    std::map<std::string,unsigned> counts; std::map<std::string,scalar> depths;
    counts["left over"] = 3; depths["left over"] = 1.0;
    sim.computeNumberOfCollisions( counts, depths );
    std::vector<std::string> b;
    for( const auto& k : counts ) b.push_back( SubObj().t( "name", k.first ).n( "count", k.second ).n( "depth", depths.count( k.first ) ? depths[k.first] : 1.0e300 ).done() );
    if( counts.size() != depths.size() ) b.push_back( SubObj().t( "name", "mismatch" ).n( "count", 0 ).n( "depth", 0.0 ).done() );
    out.put( Obj( "stats" ).raw( "cs", arr( a ) ).raw( "st", arr( b ) ) );
  }
}

static int doContacts( const char* enumerated, Rng& g, const int n, Out& out )
{
  std::ifstream in( enumerated ); std::string line; int k = 0;
  while( std::getline( in, line ) )
  {
    // [x0a,y0a,x1a,y1a,x0b,y0b,x1b,y1b,ra,rb, plane?, drum?]
    const std::vector<long> a = ints( line ); if( a.size() < 12 ) continue;
    Scene s; s.q0.resize( 4 ); s.q1.resize( 4 ); s.v.resize( 4 );
    s.q0 << a[0], a[1], a[4], a[5]; s.q1 << a[2], a[3], a[6], a[7]; s.v = s.q1 - s.q0;
    s.r = { double( a[8] ), double( a[9] ) }; s.m = { 2.0, 1.0 };
    if( a[10] ) s.planes.push_back( { Vector2s( 0, -1 ), Vector2s( 0, 1 ), Vector2s( 0.5, 0.25 ) } );
    if( a[11] ) s.drums.push_back( { Vector2s( 1, -5 ), 6.0 } );
    contacts( out, s, true, 0.5, ( k++ % 16 ) == 0 );
  }
  for( int i = 0; i < n; ++i ) { Scene s = randomScene( g, false ); calm( g, s.q0, s.v, 2 ); contacts( out, s, false, g.d( 0, 1 ), true ); }
  for( int i = 0; i < n; ++i ) { Scene s = randomScene( g, true ); calm( g, s.q0, s.v, 2 ); contacts( out, s, false, g.d( 0, 1 ), true ); }
  return 0;
}

int main( int argc, char** argv )
{
  const std::string mode = argv[1];
  Out out( argv[argc - 1] );
  if( mode == "contacts" ) { Rng g( std::strtoull( argv[3], nullptr, 10 ) ); return doContacts( argv[2], g, std::atoi( argv[4] ), out ); }
  return 4;
}
