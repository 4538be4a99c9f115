// Histories of edits, copies and saves of a simulated world.
//   drv_state edit <behaviours.json|-> <seed> <n> <out> | save <seed> <n> <out>
#include "sim_adapt.h"
#include "view.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
#include <sstream>
#include <cstring>
#include <fstream>
#include <algorithm>
using namespace vj;
typedef std::unique_ptr<Sim> SimP;
static Out* out;
static void op( const std::string& name, const SubObj& a, Sim& sim ) { out->put( Obj( "op" ).t( "op", name ).raw( "a", a.done() ).raw( "w", sim_view( sim ) ) ); }

static S::Scene someScene( Rng& g )
{
#if WHICH == 1
  S::Scene s = S::randomScene( g, g.b( 0.4 ) ); s.fixed.resize( s.r.size() ); for( std::size_t i = 0; i < s.r.size(); ++i ) s.fixed[i] = g.b( 0.3 ); return s;
#elif WHICH == 2
  return S::randomScene( g, g.i( 0, 2 ) );
#else
  return S::randomScene( g, g.b( 0.15 ) ? 2 : g.b() ? 3 : g.i( 0, 1 ) );
#endif
}
static void someForces( Rng& g, Sim& sim )
{
  if( g.b( 0.6 ) ) gravity( sim, Vector3s( g.d( -3, 3 ), g.d( -10, 3 ), g.d( -3, 3 ) ) );
#if WHICH == 1
  if( g.b( 0.3 ) ) sim.state().forces().emplace_back( new PenaltyForce( g.d( 1, 50 ), 1.0 + 0.5 * g.i( 0, 4 ) ) );
#endif
#if WHICH == 3
  if( g.b( 0.2 ) ) gravity( sim, Vector3s( g.d( -3, 3 ), g.d( -10, 3 ), g.d( -3, 3 ) ) );
  if( g.b() ) { sim.state().setBoundaryBehavior( g.b() ? SimBoundaryBehavior::EXIT : SimBoundaryBehavior::NONE ); sim.state().setBoundaryMin( Vector3s( g.d( -9, -5 ), g.d( -9, -5 ), g.d( -9, -5 ) ) ); sim.state().setBoundaryMax( Vector3s( g.d( 5, 9 ), g.d( 5, 9 ), g.d( 5, 9 ) ) ); }
  for( unsigned k = 0; k < sim.state().numStaticCylinders(); ++k ) if( g.b() ) sim.state().staticCylinder( k ).setOrientation( S::unit( g ), g.d( -2, 2 ) );
#endif
}
static void scramble( Rng& g, Sim& sim )
{
  State& s = sim.state(); s.q().array() += 0.5; s.v().array() *= -2.0;
#if WHICH == 1
  s.pushBallBack( Vector2s( 1, 2 ), Vector2s( 3, 4 ), 0.3, 2.0, true ); if( g.b() ) s.forces().clear(); s.staticPlanes().emplace_back( Vector2s( 9, 9 ), Vector2s( 0, 1 ) ); s.fixed()[0] = !s.fixed()[0]; s.r()( 0 ) *= 2.0;
#elif WHICH == 2
  s.addCircleGeometry( 0.7 ); s.addBody( Vector2s( 1, 2 ), 0.4, Vector2s( 3, 4 ), 0.1, 2.0, unsigned( s.geometry().size() - 1 ), true ); s.planes().emplace_back( Vector2s( 9, 9 ), Vector2s( 0, 1 ) );
  if( g.b() ) { VectorXu d( 1 ); d << 0; s.removeBodies( d ); }
#else
  s.addStaticPlane( StaticPlane( Vector3s( 9, 9, 9 ), Vector3s( 0, 1, 0 ) ) ); s.addForce( NearEarthGravityForce( Vector3s( 1, 2, 3 ) ) ); s.setBoundaryMin( Vector3s( -77, -77, -77 ) ); s.M().coeffRef( 0, 0 ) *= 2.0;
  s.setBoundaryBehavior( SimBoundaryBehavior::EXIT );
#endif
}
static void copyOp( Rng& g, SimP& sim )
{
  SubObj a; const int how = g.i( 0, 3 );
  if( how == 0 ) { State c( sim->state() ); SimP t( new Sim ); t->state() = std::move( c ); a.raw( "copy", sim_view( *t ) ); scramble( g, *t ); }
  else if( how == 1 ) { SimP t( new Sim ); fill( someScene( g ), *t ); someForces( g, *t ); t->state() = sim->state(); a.raw( "copy", sim_view( *t ) ); scramble( g, *t ); }
  else if( how == 2 ) { State& self = sim->state(); self = sim->state(); a.raw( "copy", sim_view( *sim ) ); }
  else { SimP t( new Sim ); t->state() = sim->state(); scramble( g, *sim ); a.raw( "copy", sim_view( *t ) ); std::swap( sim, t ); t.reset(); }
  op( "copy", a.raw( "later", sim_view( *sim ) ), *sim );
}
static std::string bytes( Sim& sim ) { std::stringstream st( std::ios::in | std::ios::out | std::ios::binary ); sim.serialize( st ); return st.str(); }
static void saveOp( Rng& g, SimP& sim )
{
  std::stringstream st( std::ios::in | std::ios::out | std::ios::binary ); sim->serialize( st ); const std::string b = st.str(); st.write( "SENTINEL", 8 );
  SimP t( new Sim ); if( g.b() ) { fill( someScene( g ), *t ); someForces( g, *t ); }
  t->deserialize( st ); char e[9] = { 0 }; st.read( e, 8 ); const bool rest = st.gcount() == 8 && std::strcmp( e, "SENTINEL" ) == 0;
  sim = std::move( t );
  op( "save", SubObj().n( "rest", rest ).n( "again", bytes( *sim ) == b ), *sim );
}
static void moveOp( Rng& g, Sim& sim )
{
  State& s = sim.state();
#if WHICH == 3
  const int n = nb( sim ); for( int i = 0; i < n; ++i ) { const Matrix33sr R = S::rotation( g ); s.q().segment<3>( 3 * i ) = 2.0 * S::unit( g ); for( int k = 0; k < 9; ++k ) s.q()( 3 * n + 9 * i + k ) = R( k / 3, k % 3 ); }
#else
  for( int i = 0; i < s.q().size(); ++i ) s.q()( i ) = g.d( -3, 3 );
#endif
  for( int i = 0; i < s.v().size(); ++i ) s.v()( i ) = g.d( -3, 3 );
  SubObj a; a.v( "q", s.q() ).v( "v", s.v() );
#if WHICH == 3
  s.updateMandMinv();
#endif
  op( "move", a, sim );
}
#if WHICH == 1
static void editOp( Rng& g, SimP& sim )
{
  State& s = sim->state(); const int k = g.i( 0, 9 );
  if( k < 6 )
  {
    const Vector2s x( g.d( -3, 3 ), g.d( -3, 3 ) ), v( g.d( -3, 3 ), g.d( -3, 3 ) ); const double r = g.d( 0.1, 2 ), m = g.d( 0.1, 5 ); const bool f = g.b();
    s.pushBallBack( x, v, r, m, f ); op( "push", SubObj().v( "x", x ).v( "v", v ).n( "r", r ).n( "m", m ).n( "fixed", f ), *sim );
  }
  else if( k == 6 ) { VectorXs m( 2 * s.nballs() ); for( unsigned i = 0; i < s.nballs(); ++i ) m( 2 * i ) = m( 2 * i + 1 ) = g.d( 0.1, 5 ); s.setMass( m ); op( "mass", SubObj().v( "m", m ), *sim ); }
  else if( k == 7 ) moveOp( g, *sim );
  else copyOp( g, sim );
}
#elif WHICH == 2
static VectorXu indices( Rng& g, std::vector<unsigned> d ) { for( std::size_t i = 1; i < d.size(); ++i ) std::swap( d[i], d[std::size_t( g.i( 0, int( i ) ) )] ); VectorXu r( d.size() ); for( std::size_t i = 0; i < d.size(); ++i ) r( i ) = d[i]; return r; }
static std::string ones( const VectorXu& d ) { std::vector<unsigned> r; for( int i = 0; i < d.size(); ++i ) r.push_back( d( i ) + 1 ); return vecn( r ); }
static void step( Rng& g, SimP& sim, const int code, const unsigned arg )
{
  State& s = sim->state(); std::vector<unsigned> d; for( unsigned i = 0; i < 31; ++i ) if( arg & ( 1u << i ) ) d.push_back( i );
  if( code == 0 ) { const double r = g.d( 0.1, 2 ); s.addCircleGeometry( r ); op( "circle", SubObj().n( "r", r ), *sim ); }
  else if( code == 1 )
  {
    const Vector2s x( g.d( -3, 3 ), g.d( -3, 3 ) ), v( g.d( -3, 3 ), g.d( -3, 3 ) ); const double th = g.d( -3, 3 ), w = g.d( -3, 3 ), rho = g.d( 0.2, 5 ); const bool f = g.b();
    s.addBody( x, th, v, w, rho, arg - 1, f ); op( "body", SubObj().v( "x", Vector3s( x.x(), x.y(), th ) ).v( "v", Vector3s( v.x(), v.y(), w ) ).n( "rho", rho ).n( "geo", arg ).n( "fixed", f ), *sim );
  }
  else if( code == 2 ) { const VectorXu r = indices( g, d ); s.removeBodies( r ); op( "unbody", SubObj().raw( "which", ones( r ) ), *sim ); }
  else { const VectorXu r = indices( g, d ); s.removeGeometry( r ); op( "ungeo", SubObj().raw( "which", ones( r ) ), *sim ); }
}
static void editOp( Rng& g, SimP& sim )
{
  State& s = sim->state(); const int k = g.i( 0, 9 ); const unsigned n = s.nbodies(), ng = unsigned( s.geometry().size() );
  if( k == 0 ) step( g, sim, 0, 0 );
  else if( k < 4 && ng ) step( g, sim, 1, unsigned( g.i( 1, int( ng ) ) ) );
  else if( k < 6 && n ) { unsigned m = 0; for( unsigned i = 0; i < n && i < 30; ++i ) if( g.b( 0.35 ) ) m |= 1u << i; step( g, sim, 2, m ); }
  else if( k == 6 ) { unsigned m = 0; for( unsigned i = 0; i < ng && i < 30; ++i ) { bool used = false; for( unsigned b = 0; b < n; ++b ) used = used || s.geometryIndex( b ) == i; if( !used && g.b( 0.7 ) ) m |= 1u << i; } step( g, sim, 3, m ); }
  else if( k == 7 && !s.planes().empty() ) { const int p = g.i( 0, int( s.planes().size() ) - 1 ); s.planes().erase( s.planes().begin() + p ); op( "unplane", SubObj().n( "k", p + 1 ), *sim ); }
  else if( k == 8 ) moveOp( g, *sim );
  else copyOp( g, sim );
}
#else
static void editOp( Rng& g, SimP& sim )
{
  State& s = sim->state(); const int k = g.i( 0, 8 );
  if( k == 0 ) { StaticPlane p( S::unit( g ), S::unit( g ) ); p.v() = S::unit( g ); p.omega() = S::unit( g ); s.addStaticPlane( p ); op( "plane", SubObj().v( "x", p.x() ).v( "n", p.n() ).v( "v", p.v() ).v( "w", p.omega() ), *sim ); }
  else if( k < 3 && s.numStaticPlanes() ) { const int p = g.i( 0, int( s.numStaticPlanes() ) - 1 ); s.deleteStaticPlane( std::size_t( p ) ); op( "unplane", SubObj().n( "k", p + 1 ), *sim ); }
  else if( k == 3 ) { StaticCylinder c( S::unit( g ), S::unit( g ), g.d( 1, 5 ) ); c.omega() = S::unit( g ); s.addStaticCylinder( c ); op( "cyl", SubObj().v( "x", c.x() ).v( "a", c.axis() ).n( "r", c.r() ).v( "w", c.omega() ), *sim ); }
  else if( k == 4 ) { const Vector3s x = S::unit( g ), n = S::unit( g ), y = x + 4.0 * n; PlanarPortal p( StaticPlane( x, n ), StaticPlane( y, -n ), Array3i( g.i( -1, 1 ), g.i( -1, 1 ), g.i( -1, 1 ) ) ); s.addPlanarPortal( p ); op( "portal", SubObj().v( "xa", x ).v( "na", n ).v( "xb", y ).v( "nb", Vector3s( -n ) ), *sim ); }
  else if( k == 5 ) { const bool e = g.b(); const Vector3s lo = -5.0 * S::unit( g ), hi = lo + Vector3s( 9, 9, 9 ); s.setBoundaryBehavior( e ? SimBoundaryBehavior::EXIT : SimBoundaryBehavior::NONE ); s.setBoundaryMin( lo ); s.setBoundaryMax( hi ); op( "edge", SubObj().t( "edge", e ? "exit" : "none" ).v( "lo", lo ).v( "hi", hi ), *sim ); }
  else if( k == 6 ) { s.addForce( NearEarthGravityForce( S::unit( g ) ) ); op( "force", SubObj(), *sim ); }
  else if( k == 7 )
  {
    S::Scene c = someScene( g ); const int n = c.n(); std::vector<Vector3s> X, V, om, I0; std::vector<double> M; std::vector<VectorXs> R; std::vector<std::unique_ptr<RigidBodyGeometry>> geos; std::vector<std::string> Is, Ms; std::vector<unsigned> gi;
    for( const auto& q : c.geos ) geos.emplace_back( S::makeGeo( q ) );
    for( int i = 0; i < n; ++i ) { X.push_back( c.q0.segment<3>( 3 * i ) ); V.push_back( c.v.segment<3>( 3 * i ) ); om.push_back( c.v.segment<3>( 3 * n + 3 * i ) ); M.push_back( g.d( 0.2, 4 ) ); I0.push_back( Vector3s( g.d( 0.1, 3 ), g.d( 0.1, 3 ), g.d( 0.1, 3 ) ) ); R.push_back( c.q0.segment<9>( 3 * n + 9 * i ) ); Is.push_back( vec( I0.back() ) ); Ms.push_back( num( M.back() ) ); gi.push_back( c.gi[i] + 1 ); }
    s.setState( X, V, M, R, om, I0, c.fixed, c.gi, geos );
    op( "state", SubObj().v( "q", c.q0 ).v( "v", c.v ).raw( "fixed", flags( c.fixed ) ).raw( "gi", vecn( gi ) ).n( "ngeo", int( geos.size() ) ).raw( "m", arr( Ms ) ).raw( "I", arr( Is ) ), *sim );
  }
  else if( g.b() ) moveOp( g, *sim );
  else copyOp( g, sim );
}
#endif
int main( int argc, char** argv )
{
  const std::string mode = argv[1]; const bool edit = mode == "edit"; char** a = argv + ( edit ? 3 : 2 );
  Rng g( std::strtoull( a[0], nullptr, 10 ) ); const int N = std::atoi( a[1] ); Out o( a[2] ); out = &o;
#if WHICH == 2
  if( edit && std::string( argv[2] ) != "-" )
  {
    std::ifstream in( argv[2] ); std::string line; int count = 0;
    while( std::getline( in, line ) )
    {
      std::vector<int> x; for( std::size_t i = 0; i < line.size(); ) if( std::isdigit( (unsigned char) line[i] ) ) { x.push_back( std::atoi( line.c_str() + i ) ); while( std::isdigit( (unsigned char) line[i] ) ) ++i; } else ++i;
      S::Scene s; s.geos = { S::Geo{ true, g.d( 0.2, 1 ), g.d( 0.2, 1 ) }, S::Geo{ false, g.d( 0.2, 1 ), 0.0 } }; s.gi = { 1, 0 }; s.fixed = { g.b(), g.b() }; s.rho = { g.d( 0.5, 2 ), g.d( 0.5, 2 ) };
      s.q0.resize( 6 ); s.v.resize( 6 ); for( int k = 0; k < 6; ++k ) { s.q0( k ) = g.d( -2, 2 ); s.v( k ) = g.d( -2, 2 ); } s.q1 = s.q0;
      SimP sim( new Sim ); fill( s, *sim ); o.put( Obj( "new" ).raw( "w", sim_view( *sim ) ) );
      for( std::size_t k = 0; k + 1 < x.size(); k += 2 ) step( g, sim, x[k], unsigned( x[k + 1] ) );
      if( ++count % 7 == 0 ) saveOp( g, sim );
    }
  }
#endif
  for( int k = 0; k < N; ++k )
  {
    SimP sim( new Sim ); fill( someScene( g ), *sim ); someForces( g, *sim );
    o.put( Obj( "new" ).raw( "w", sim_view( *sim ) ) );
    if( edit ) { const int m = g.i( 2, 8 ); for( int t = 0; t < m; ++t ) editOp( g, sim ); }
    else { const int m = g.i( 1, 2 ); for( int t = 0; t < m; ++t ) { saveOp( g, sim ); if( t + 1 < m ) editOp( g, sim ); } }
  }
  return 0;
}
