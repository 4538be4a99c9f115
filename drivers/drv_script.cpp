// Python scripts: what they are told, what they change, and what is refused.
//   drv_script <dir of the script> <seed> <n> <out.ndjson>
#include <Python.h>
#include "sim_adapt.h"
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#if WHICH == 2
#include "rigidbody2d/CircleGeometry.h"
#include "rigidbody2d/BoxGeometry.h"
#endif
using namespace vj;
static Out* g_out; static std::string g_has; static std::string g_mode; static std::string g_where; static unsigned g_pick;
static const char* const MOD = WHICH == 1 ? "balls2d" : WHICH == 2 ? "rigidbody2d" : "rigidbody3d";
static void line( const std::string& s ) { std::fputs( s.c_str(), g_out->f ); std::fputc( '\n', g_out->f ); std::fflush( g_out->f ); }

// ---- what the script can ask the recorder ----
static PyObject* recFmt( PyObject*, PyObject* a ) { double d; if( !PyArg_ParseTuple( a, "d", &d ) ) return nullptr; char b[64]; std::snprintf( b, sizeof b, "%a", d ); return PyUnicode_FromString( b ); }
static PyObject* recLog( PyObject*, PyObject* a ) { const char* s; if( !PyArg_ParseTuple( a, "s", &s ) ) return nullptr; line( s ); return Py_BuildValue( "" ); }
static PyObject* recGet( PyObject*, PyObject* a )
{
  const char* s; if( !PyArg_ParseTuple( a, "s", &s ) ) return nullptr; const std::string k( s );
  if( k == "sim" ) return PyUnicode_FromString( MOD );
  if( k == "has" ) return PyUnicode_FromString( g_has.c_str() );
  if( k == "where" ) return PyUnicode_FromString( g_where.c_str() );
  if( k == "mode" ) return PyUnicode_FromString( g_mode.c_str() );
  return PyLong_FromUnsignedLong( g_pick );
}
static PyMethodDef RecFunctions[] = { { "fmt", recFmt, METH_VARARGS, "" }, { "log", recLog, METH_VARARGS, "" }, { "get", recGet, METH_VARARGS, "" }, { nullptr, nullptr, 0, nullptr } };

// ---- the world ----
static std::string worldBody( Sim& sim )
{
  State& s = sim.state(); const int n = nb( sim ); SubObj o; o.t( "lay", LAY ).n( "n", n ).v( "q", s.q() ).v( "v", s.v() );
  std::vector<std::string> a, b, c, d;
#if WHICH == 1
  o.v( "r", s.r() ); for( int i = 0; i < n; ++i ) { a.push_back( num( double( s.M().valuePtr()[2 * i] ) ) ); b.push_back( num( bool( s.fixed()[i] ) ) ); d.push_back( num( double( s.Minv().valuePtr()[2 * i + 1] ) ) ); }
  o.raw( "m", arr( a ) ).raw( "mi", arr( d ) ).raw( "fixed", arr( b ) );
  for( const StaticPlane& p : s.staticPlanes() ) c.push_back( SubObj().v( "x", p.x() ).v( "n", p.n() ).v( "t", p.t() ).v( "v", p.v() ).done() );
  o.raw( "planes", arr( c ) ).n( "drums", int( s.staticDrums().size() ) );
#elif WHICH == 2
  std::vector<std::string> e, f;
  for( int i = 0; i < n; ++i ) { a.push_back( num( double( s.m( i ) ) ) ); e.push_back( num( double( s.I( i ) ) ) ); b.push_back( num( bool( s.fixed( i ) ) ) ); d.push_back( num( int( s.geometryIndices()( i ) ) ) ); }
  o.raw( "m", arr( a ) ).raw( "I", arr( e ) ).raw( "fixed", arr( b ) ).raw( "geo", arr( d ) ); a.clear();
  for( int i = 0; i < 3 * n; ++i ) a.push_back( num( double( s.Minv().valuePtr()[i] ) ) ); o.raw( "mi", arr( a ) );
  for( const auto& g : s.geometry() )
  {
    const bool box = g->type() == RigidBody2DGeometryType::BOX; Vector2s r( 0, 0 );
    if( box ) r = static_cast<BoxGeometry&>( *g ).r().matrix(); else r << static_cast<CircleGeometry&>( *g ).r(), 0;
    f.push_back( SubObj().n( "box", box ).v( "r", r ).done() );
  }
  o.raw( "geos", arr( f ) );
  for( const RigidBody2DStaticPlane& p : s.planes() ) c.push_back( SubObj().v( "x", p.x() ).v( "n", p.n() ).v( "t", p.t() ).v( "v", p.v() ).n( "w", double( p.omega() ) ).done() );
  o.raw( "planes", arr( c ) );
#else
  for( const StaticPlane& p : s.staticPlanes() ) c.push_back( SubObj().v( "x", p.x() ).v( "n", p.n() ).v( "v", p.v() ).v( "w", p.omega() ).done() );
  o.raw( "planes", arr( c ) );
  for( const StaticCylinder& y : s.staticCylinders() ) { const Quaternions R = y.R(); a.push_back( SubObj().v( "x", y.x() ).v( "n", y.axis() ).v( "v", y.v() ).v( "w", y.omega() ).n( "r", double( y.r() ) ).v( "side", Vector3s( R * Vector3s::UnitX() ) ).done() ); }
  o.raw( "cyls", arr( a ) );
  SparseMatrixsc E( 6 * n, 6 * n ); E.setIdentity(); E.makeCompressed();
  for( const auto& f : s.forces() ) { VectorXs F = VectorXs::Zero( 6 * n ); f->computeForce( s.q(), s.v(), E, F ); d.push_back( SubObj().t( "s", f->name() ).v( "g", n ? Vector3s( F.segment<3>( 0 ) ) : Vector3s( 0, 0, 0 ) ).done() ); }
  o.raw( "pulls", arr( d ) );
  for( int i = 0; i < n; ++i ) b.push_back( num( bool( s.isKinematicallyScripted( i ) ) ) ); o.raw( "fixed", arr( b ) );
#endif
  return o.done();
}
struct IdleMap final : public UnconstrainedMap
{
  virtual void flow( const VectorXs& q0, const VectorXs& v0, FlowableSystem&, const unsigned, const scalar&, VectorXs& q1, VectorXs& v1 ) override { q1 = q0; v1 = v0; }
  virtual std::string name() const override { return "idle"; }
  virtual void serialize( std::ostream& ) const override {}
};
static void addPlanes( Rng& g, Sim& sim )
{
  const int k = g.i( 0, 3 );
#if WHICH == 1
  for( int i = 0; i < k; ++i ) sim.state().staticPlanes().emplace_back( Vector2s( g.d( -3, 3 ), g.d( -3, 3 ) ), b2::unit( g ) );
#elif WHICH == 2
  for( int i = 0; i < k; ++i ) sim.state().planes().emplace_back( Vector2s( g.d( -3, 3 ), g.d( -3, 3 ) ), Vector2s( g.d( -1, 1 ), g.d( 0.1, 1 ) ).normalized() );
#else
  for( int i = 0; i < k; ++i ) sim.state().addStaticPlane( StaticPlane( Vector3s( g.d( -3, 3 ), g.d( -3, 3 ), 0 ), Vector3s( g.d( -1, 1 ), 1, g.d( -1, 1 ) ).normalized() ) );
  const int c = g.i( 0, 2 );
  for( int i = 0; i < c; ++i ) sim.state().addStaticCylinder( StaticCylinder( Vector3s( g.d( -1, 1 ), 0, g.d( -1, 1 ) ), Vector3s( g.d( -1, 1 ), 1, g.d( -1, 1 ) ).normalized(), g.d( 1, 3 ) ) );
  const int f = g.i( 0, 2 );
  for( int i = 0; i < f; ++i ) gravity( sim, Vector3s( g.d( -9, 9 ), g.d( -9, 9 ), g.d( -9, 9 ) ) );
#endif
}
static S::Scene smallScene( Rng& g )
{
#if WHICH == 1
  for( ;; ) { S::Scene s = S::randomScene( g, false ); if( s.n() <= 6 ) return s; }
#elif WHICH == 2
  for( ;; ) { S::Scene s = S::randomScene( g, 0 ); if( s.n() <= 6 ) return s; }
#else
  for( ;; ) { S::Scene s = S::randomScene( g, 0 ); if( s.n() <= 6 ) return s; }
#endif
}
static const char* const CB[] = { "startOfSim", "endOfSim", "startOfStep", "endOfStep", "frictionCoefficient", "restitutionCoefficient" };
static std::string contacts( Sim& sim, std::vector<std::unique_ptr<Constraint>>& cs )
{
#if WHICH == 2
  bool fixed = false, box = false; for( int i = 0; i < nb( sim ); ++i ) { fixed |= sim.state().fixed( i ); box |= sim.state().bodyGeometry( i )->type() == RigidBody2DGeometryType::BOX; }
  if( fixed && box ) return arr( {} );   // not supported by the simulator
#endif
  const VectorXs q = sim.state().q(), v = sim.state().v(); csys( sim ).computeActiveSet( q, q, v, cs );
  std::vector<std::string> a;
  for( const auto& c : cs ) { std::pair<int,int> p; c->getBodyIndices( p ); a.push_back( SubObj().t( "s", c->name() ).n( "i", p.first ).n( "j", p.second ).done() ); }
  return arr( a );
}
static void end( Sim& sim, const unsigned it0 ) { line( "{\"e\":\"end\",\"it0\":" + num( it0 ) + ",\"w\":" + worldBody( sim ) + "}" ); }
int main( int argc, char** argv )
{
  if( argc < 5 ) return 2;
  const std::string dir = argv[1]; Rng g( std::strtoull( argv[2], nullptr, 10 ) * 4 + WHICH ); const int n = std::atoi( argv[3] ); Out out( argv[4] ); g_out = &out;
  Py_Initialize(); PyRun_SimpleString( "import sys\nsys.dont_write_bytecode = True\n" ); PythonScripting::initializeCallbacks(); Py_InitModule( "rec", RecFunctions );
  for( int c = 0; c < n; ++c )
  {
    Sim sim; S::Scene s = smallScene( g ); fill( s, sim ); addPlanes( g, sim );
    PyRun_SimpleString( "sys.modules.pop( 'script', None )\n" );
    g_has = ""; std::vector<std::string> has; const bool empty = g.b( 0.05 );
    if( !empty ) for( const char* k : CB ) if( g.b( 0.85 ) ) { g_has += std::string( k ) + " "; has.push_back( str( k ) ); }
    g_pick = unsigned( g.i( 1, 1000000000 ) ); g_mode = "run";
    line( "{\"e\":\"world\",\"has\":" + arr( has ) + ",\"w\":" + worldBody( sim ) + "}" );
    // a call at the edge of what is accepted, in a process of its own
    for( int k = 0; k < 3; ++k )
    {
      std::vector<std::unique_ptr<Constraint>> cs; contacts( sim, cs ); const std::string where = CB[cs.empty() ? g.i( 0, 3 ) : g.i( 0, 5 )];
      std::fflush( nullptr ); const unsigned pick = unsigned( g.i( 1, 1000000000 ) ); int fd[2]; if( pipe( fd ) ) return 3;
      const pid_t pid = fork();
      if( pid == 0 )
      {
        g_mode = "edge"; g_pick = pick; g_where = where;
        std::freopen( "/dev/null", "w", stderr ); std::freopen( "/dev/null", "w", stdout );
        out.f = fdopen( fd[1], "w" ); alarm( 60 );
        { PythonScripting py( dir, "script" ); unsigned it = 0; (void) it; const Rat dt( 1, 100 );
          const auto put = [&]() { py.setState( sim.state() );
#if WHICH == 3
            py.setInitialIterate( it );
#endif
          };
          put(); py.startOfSimCallback(); py.forgetState(); put(); py.startOfStepCallback( 1, dt ); py.forgetState();
          if( !cs.empty() ) { VectorXs x = VectorXs::Constant( cs.size(), 0.5 ); py.restitutionCoefficientCallback( cs, x ); py.frictionCoefficientCallback( cs, x ); }
          put(); py.endOfStepCallback( 1, dt ); py.forgetState(); put(); py.endOfSimCallback(); line( "went on" ); }
        std::fflush( out.f ); _exit( 0 );
      }
      close( fd[1] ); std::string got; char buf[4096]; ssize_t r; while( ( r = read( fd[0], buf, sizeof buf ) ) > 0 ) got.append( buf, std::size_t( r ) ); close( fd[0] );
      int st = 0; waitpid( pid, &st, 0 ); const std::size_t e = got.find( '\n' ); if( e == std::string::npos ) return 4;
      std::string call = got.substr( 0, e ); call.erase( call.size() - 1 );
      line( call + ",\"nc\":" + num( int( cs.size() ) ) + ",\"cb\":" + str( where ) + ",\"code\":" + num( WIFEXITED( st ) ? WEXITSTATUS( st ) : 100 + WTERMSIG( st ) ) + ",\"on\":" + num( got.find( "went on" ) != std::string::npos ) + "}" );
    }
    // a script that cannot be used
    {
      static const char* const BAD[] = { "plain", "missing", "broken", "not callable" }; const int how = g.i( 0, 3 ); g_where = CB[g.i( 0, 5 )];
      std::fflush( nullptr ); int fd[2]; if( pipe( fd ) ) return 3;
      const pid_t pid = fork();
      if( pid == 0 )
      {
        g_mode = how == 0 ? "edge" : how == 2 ? "broken" : "not callable"; g_pick = 1; alarm( 60 );
        std::freopen( "/dev/null", "w", stderr ); std::freopen( "/dev/null", "w", stdout );
        { PythonScripting py( dir, how == 1 ? "no_such_script" : "script" ); if( write( fd[1], "x", 1 ) != 1 ) _exit( 9 ); }
        _exit( 0 );
      }
      close( fd[1] ); char ch; const bool on = read( fd[0], &ch, 1 ) == 1; close( fd[0] ); int st = 0; waitpid( pid, &st, 0 );
      line( Obj( "edge" ).t( "f", "load" ).t( "how", BAD[how] ).raw( "k", "[]" ).raw( "x", "[]" ).n( "nc", 0 ).t( "cb", g_where ).n( "code", WIFEXITED( st ) ? WEXITSTATUS( st ) : 100 + WTERMSIG( st ) ).n( "on", on ).done() );
    }
    PythonScripting none, first( empty ? "" : dir, empty ? "" : "script" ); std::stringstream kept; const int how = g.i( 0, 2 ); first.serialize( kept ); PythonScripting again( kept );
    if( how == 1 ) swap( none, first );
    PythonScripting& py = how == 0 ? first : how == 1 ? none : again;
    unsigned it0 = unsigned( g.i( 0, 9 ) ); IdleMap idle; const int steps = g.i( 1, 4 ); const Rat dt( g.i( 1, 3 ), g.i( 60, 400 ) );
    for( int k = -1; k <= steps; ++k )
    {
      if( k == -1 || k == steps )
      {
        line( std::string( "{\"e\":\"ask\",\"cbs\":[\"" ) + ( k < 0 ? CB[0] : CB[1] ) + "\"],\"it\":0,\"dt\":\"0x0p+0\",\"it0\":" + num( it0 ) + "}" );
        py.setState( sim.state() );
#if WHICH == 3
        py.setInitialIterate( it0 );
#endif
        if( k < 0 ) py.startOfSimCallback(); else py.endOfSimCallback();
        py.forgetState(); end( sim, it0 ); continue;
      }
      if( g.b() )
      {
        const bool rest = g.b(); std::vector<std::unique_ptr<Constraint>> cs; const std::string con = contacts( sim, cs ); VectorXs x( cs.size() ); for( int i = 0; i < x.size(); ++i ) x( i ) = g.u();
        if( !cs.empty() )
        {
          line( Obj( "coef" ).t( "cb", rest ? CB[5] : CB[4] ).raw( "con", con ).v( "x", x ).done() );
          if( rest ) py.restitutionCoefficientCallback( cs, x ); else py.frictionCoefficientCallback( cs, x );
          line( Obj( "after" ).v( "x", x ).done() );
        }
      }
      const unsigned it = it0 + 1 + unsigned( k ); const bool whole = g.b( 0.7 );
      Obj o( "ask" ); o.raw( "cbs", whole ? "[\"startOfStep\",\"endOfStep\"]" : k % 2 ? "[\"startOfStep\"]" : "[\"endOfStep\"]" ).n( "it", it ).n( "dt", double( scalar( dt ) ) ).n( "it0", it0 ); line( o.done() );
      if( whole ) sim.flow( py, it, dt, idle );
      else { py.setState( sim.state() ); if( k % 2 ) py.startOfStepCallback( it, dt ); else py.endOfStepCallback( it, dt ); py.forgetState(); }
      end( sim, it0 );
    }
  }
  return 0;
}
