// Whole time steps of a simulator, and its portals.
//   drv_step steps <seed> <n> <out.ndjson> | portals <enumerated.json> <seed> <n> <out.ndjson>
#define SCRIPT_DEFS
#include "sim_adapt.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace vj;

struct StubOp final : public ImpactOperator
{
  virtual void flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  { for( int i = 0; i < alpha.size(); ++i ) alpha( i ) = 0.01 * ( i + 1 ); }
  virtual std::string name() const override { return "stub"; }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new StubOp ); }
  virtual void serialize( std::ostream& ) const override {}
};
struct NoSolver final : public FrictionSolver
{
  virtual void solve( const unsigned, const scalar&, const FlowableSystem&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, const VectorXs&, std::vector<std::unique_ptr<Constraint>>&, const MatrixXXsc&, const VectorXs&, const VectorXs&, const unsigned, const scalar&, VectorXs&, VectorXs&, VectorXs&, VectorXs&, bool&, scalar& ) override { std::exit( 9 ); }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return d - 1; }
  virtual void serialize( std::ostream& ) const override {}
  virtual std::string name() const override { return "none"; }
};
// An impact and friction map that moves the bodies by its own rule, and records what it was asked
struct RecIF final : public ImpactFrictionMap
{
  std::vector<std::string> calls; const UnconstrainedMap* um; const FrictionSolver* so; const void *fs, *cs, *cb; bool prescribed = false; VectorXs pq, pv;
  virtual void flow( ScriptingCallback& call_back, FlowableSystem& f, ConstrainedSystem& c, UnconstrainedMap& umap, FrictionSolver& s, const unsigned it, const scalar& dt, const scalar& CoR, const scalar& mu, const VectorXs& q0, const VectorXs& v0, VectorXs& q1, VectorXs& v1 ) override
  {
    SubObj o; o.v( "q", q0 ).v( "v", v0 ).n( "it", it ).n( "dt", double( dt ) ).n( "cor", double( CoR ) ).n( "mu", double( mu ) );
    o.n( "args", um == &umap && so == &s && fs == &f && cs == &c && cb == &call_back );
    if( prescribed ) { q1 = pq; v1 = pv; }
    else { v1 = 0.75 * v0; f.linearInertialConfigurationUpdate( q0, v1, dt, q1 ); }
    calls.push_back( o.v( "q1", q1 ).v( "v1", v1 ).done() );
  }
  virtual void resetCachedData() override {}
  virtual void serialize( std::ostream& ) const override {}
  virtual std::string name() const override { return "rec"; }
};
static std::string portals( const S::Scene& s )
{
#if WHICH == 1
  Sim sim; std::string d = S::dump( s, sim );
#else
  std::string d = S::dump( s );
#endif
  const std::size_t p = d.find( "\"portals\":" ); return d.substr( p + 10, d.size() - p - 11 );
}
static std::string rat( const Rat& r ) { return "[\"" + std::to_string( r.numerator() ) + "\",\"" + std::to_string( r.denominator() ) + "\"]"; }

struct Runner
{
  Out& out; Sim& sim; PythonScripting& py; bool scripted; Rng& g; RecMap umap; RecIF ifm; StubOp op; NoSolver so; ImpactMap imap;
  std::vector<std::string> starts, ends; bool meddle = true;
  Runner( Out& o, Sim& s, PythonScripting& p, const bool sc, Rng& r ) : out( o ), sim( s ), py( p ), scripted( sc ), g( r )
  {
    ifm.um = &umap; ifm.so = &so; ifm.fs = &fsys( s ); ifm.cs = &csys( s ); ifm.cb = (ScriptingCallback*) &p;
    script().start = [this]( State& st, unsigned it, const Rat& dt ) { cb( starts, st, it, dt ); };
    script().end = [this]( State& st, unsigned it, const Rat& dt ) { cb( ends, st, it, dt ); };
    script().cor = nullptr; script().mu = nullptr;
  }
  void cb( std::vector<std::string>& to, State& st, const unsigned it, const Rat& dt )
  {
    SubObj o; o.n( "it", it ).raw( "dt", rat( dt ) ).v( "q", st.q() ).v( "v", st.v() ).n( "same", &st == &sim.state() );
    const int n = nb( sim );
    if( meddle && n > 0 && g.b( 0.6 ) )
    {
      const int i = g.i( 0, n - 1 ); const int w = WHICH == 1 ? 2 : 3;
      if( g.b() ) st.v()( w * i + g.i( 0, DIM - 1 ) ) += g.d( -0.2, 0.2 );
      else st.q()( w * i + g.i( 0, DIM - 1 ) ) += g.d( -0.02, 0.02 );
    }
    to.push_back( o.v( "q2", st.q() ).v( "v2", st.v() ).done() );
  }
  void step( const int flow, const unsigned it, const Rat& dt, const double cor, const double mu )
  {
    umap.calls.clear(); ifm.calls.clear(); starts.clear(); ends.clear();
    if( flow == 0 ) sim.flow( py, it, dt, umap );
#if WHICH == 3
    else if( flow == 1 ) sim.flow( py, it, dt, umap, op, cor );
#else
    else if( flow == 1 ) sim.flow( py, it, dt, umap, op, cor, imap );
#endif
    else sim.flow( py, it, dt, umap, cor, mu, so, ifm );
    Obj o( "step" ); o.n( "flow", flow ).n( "it", it ).raw( "dt", rat( dt ) ).n( "dtv", double( scalar( dt ) ) ).n( "cor", cor ).n( "mu", mu ).n( "scripted", scripted );
    o.raw( "start", arr( starts ) ).raw( "end", arr( ends ) ).raw( "umap", arr( umap.calls ) ).raw( "ifmap", arr( ifm.calls ) ).v( "q", sim.state().q() ).v( "v", sim.state().v() );
    std::vector<std::string> a;
#if WHICH != 3
    for( const PlanarPortal& p : sim.state().planarPortals() ) a.push_back( SubObj().v( "a", p.transformedAx() ).v( "b", p.transformedBx() ).done() );
    o.raw( "at", arr( a ) );
#else
    const State& st = sim.state(); const int n = nb( sim );
    o.v( "I0", VectorXs( Eigen::Map<const VectorXs>( st.M0().valuePtr() + 3 * n, 3 * n ) ) ).v( "I", VectorXs( Eigen::Map<const VectorXs>( st.M().valuePtr() + 3 * n, 9 * n ) ) ).v( "Iinv", VectorXs( Eigen::Map<const VectorXs>( st.Minv().valuePtr() + 3 * n, 9 * n ) ) );
#endif
    out.put( o );
  }
};
static void sceneEvent( Out& out, const S::Scene& s, const Sim& sim, const bool exact, const int flow )
{
  out.put( Obj( "scene" ).t( "lay", LAY ).n( "n", nb( sim ) ).raw( "portals", portals( s ) ).n( "exact", exact ).v( "q", sim.state().q() ).v( "v", sim.state().v() ).n( "flow", flow ) );
}
static S::Scene pickScene( Rng& g, const bool port )
{
#if WHICH == 1
  return S::randomScene( g, port );
#elif WHICH == 2
  return S::randomScene( g, port ? 2 : 1 );
#else
  S::Scene s = S::randomScene( g, port ? 3 : g.i( 0, 1 ) );
  for( int i = 0; i < s.n(); ++i ) if( s.fixed[i] ) { s.v.segment<3>( 3 * i ).setZero(); s.v.segment<3>( 3 * s.n() + 3 * i ).setZero(); }
  return s;
#endif
}
static int doSteps( Out& out, Rng& g, const int n )
{
  for( int c = 0; c < n; ++c )
  {
    const bool port = g.b( 0.4 ); S::Scene s = pickScene( g, port ); if( s.n() > 12 ) continue;
    Sim sim; fill( s, sim ); if( g.b( 0.7 ) ) gravity( sim, Vector3s( g.d( -1, 1 ), g.d( -9, 1 ), g.d( -1, 1 ) ) );
    const bool scripted = g.b( 0.7 ); PythonScripting none, some( "dir", "mod" ); PythonScripting& py = scripted ? some : none;
    Runner r( out, sim, py, scripted, g );
    bool anyfixed = false;
#if WHICH != 1
    for( bool f : s.fixed ) anyfixed = anyfixed || f;
#endif
#if WHICH == 3
    r.meddle = !anyfixed;
#endif
    std::unique_ptr<UnconstrainedMap> in( makeMap( WHICH == 3 && anyfixed ? g.i( 0, 1 ) : g.i( 0, 5 ) ) ); r.umap.in = in.get();
    const int flow = g.i( 0, 2 ); const unsigned it0 = unsigned( g.b() ? 1 : g.i( 1, 4000 ) ); const Rat dt( g.i( 1, 3 ), g.i( 60, 400 ) );
    sceneEvent( out, s, sim, false, flow );
    const int k = g.i( 1, 5 ); const double cor = g.u(), mu = g.d( 0, 2 );
    for( int j = 0; j < k; ++j ) r.step( flow, it0 + j, dt, cor, mu );
  }
  return 0;
}

// ---- portals: every function of a portal at one point, and the wrapping of prescribed positions at the end of a step ----
#if WHICH != 3
typedef Vector2s Vec;
#else
typedef Vector3s Vec;
#endif
static void tele( Out& out, const S::Scene& s, const int k, const Vec& x, const double r, const bool exact )
{
  Sim sim; fill( s, sim );
#if WHICH != 3
  const PlanarPortal& p = sim.state().planarPortals()[k];
#else
  const PlanarPortal& p = sim.state().planarPortal( k );
#endif
  Obj o( "tele" ); o.t( "lay", LAY ).raw( "portals", portals( s ) ).n( "k", k ).v( "x", x ).n( "r", r ).n( "exact", exact );
  const bool in = p.pointInsidePortal( x ); Vec y; y.setZero();
  Vec a, b; p.teleportPointThroughPlaneA( x, a ); p.teleportPointThroughPlaneB( x, b );
  if( in ) p.teleportPointInsidePortal( x, y );
  o.n( "in", in ).v( "y", y ).v( "ta", a ).v( "tb", b );
  bool side = true; bool touch = false;
#if WHICH == 1
  touch = p.ballTouchesPortal( x, r, side ); if( touch ) { Vec z; p.teleportBall( x, r, z ); o.v( "z", z ).v( "kz", p.getKinematicVelocityOfBall( x, r ) ); }
#elif WHICH == 2
  const Array2s lo = x.array() - r, hi = x.array() + r;
  touch = p.aabbTouchesPortal( lo, hi, side ); if( touch ) { Vec z; p.teleportPoint( x, side, z ); o.v( "z", z ).v( "kz", p.getKinematicVelocityOfAABB( lo, hi ) ); }
#else
  const Array3s lo = x.array() - r, hi = x.array() + r;
  touch = p.aabbTouchesPortal( lo, hi, side ); if( touch ) { Vec z; p.teleportPoint( x, side, z ); o.v( "z", z ); }
#endif
  o.n( "touch", touch ).n( "side", int( touch ? side : 0 ) );
#if WHICH != 3
  o.n( "le", p.isLeesEdwards() ).v( "ax", p.transformedAx() ).v( "bx", p.transformedBx() ).v( "kin", in ? p.getKinematicVelocityOfPoint( x ) : Vec( 0, 0 ) );
#endif
  out.put( o );
}
static void put( Out& out, Rng& g, const S::Scene& s, const VectorXs& q1, const VectorXs& v1, const bool exact, const unsigned it, const Rat& dt )
{
  for( int flow = 0; flow < 3; flow += 2 )
  {
    Sim sim; fill( s, sim ); PythonScripting none; Runner r( out, sim, none, false, g );
    r.umap.q1 = q1; r.umap.v1 = v1; r.ifm.prescribed = true; r.ifm.pq = q1; r.ifm.pv = v1;
    sceneEvent( out, s, sim, exact, flow ); r.step( flow, it, dt, 0.5, 0.25 );
  }
}
static void latticePortal( S::Scene& s, const int axis, const bool swap, const double L, const double v, const double b )
{
  S::Portal p; Vec e; e.setZero(); e( axis ) = 1.0; p.xa = -L * e; p.na = e; p.xb = L * e; p.nb = -e; if( swap ) { std::swap( p.xa, p.xb ); std::swap( p.na, p.nb ); }
#if WHICH != 3
  p.v = v; p.b = b;
#else
  p.m0 = 1; const StaticPlane a( p.xa, p.na ), c( p.xb, p.nb ); p.m1 = a.t0().dot( c.t0() ) > 0.0 ? -1 : 1; p.m2 = a.t1().dot( c.t1() ) > 0.0 ? -1 : 1;
#endif
  s.portals.push_back( p );
}
static S::Scene oneBody( const double* x, const double* v )
{
  S::Scene s;
#if WHICH == 1
  s.q0.resize( 2 ); s.q0 << x[0], x[1]; s.q1 = s.q0; s.v.resize( 2 ); s.v << v[0], v[1]; s.r = { 0.125 }; s.m = { 2.0 };
#elif WHICH == 2
  s.q0.resize( 3 ); s.q0 << x[0], x[1], 0.5; s.q1 = s.q0; s.v.resize( 3 ); s.v << v[0], v[1], 0.75; s.geos = { S::Geo{ false, 0.125, 0.0 } }; s.gi = { 0u }; s.fixed = { false }; s.rho = { 1.0 };
#else
  s.resize( 1 ); s.place( s.q0, 1, 0, Vector3s( x[0], x[1], x[2] ), Matrix33sr( Matrix33sr::Identity() ) ); s.q1 = s.q0; s.v << v[0], v[1], 0.5, 0.25, 0.5, 0.125;
  s.geos = { S::Geo{ 0, Vector3s::Constant( 0.125 ) } }; s.gi = { 0u }; s.fixed = { false }; s.rho = { 1.0 };
#endif
  return s;
}
static int doPortals( const char* enumerated, Out& out, Rng& g, const int n )
{
  std::ifstream in( enumerated ); std::string line; int cnt = 0;
  while( std::getline( in, line ) )
  {
    // [px, py, portals: 1 x, 2 y, 3 both (x first), 4 both (y first), shear velocity (second portal), iteration]
    const std::vector<long> a = ints( line ); if( a.size() < 5 ) continue; ++cnt;
    const double x0[3] = { 0.5, 0.25, 0.125 }, v0[3] = { 0.5, -0.25, 0.125 }; S::Scene s = oneBody( x0, v0 );
    const int ps = int( a[2] ); const double sh = double( a[3] );
    const bool swap = cnt % 3 == 0;
    if( ps == 1 || ps == 3 ) latticePortal( s, 0, swap, 2.0, ps == 1 ? sh : 0.0, ps == 1 && sh != 0.0 ? 2.0 : 0.0 );
    if( ps >= 2 ) latticePortal( s, 1, !swap, 2.0, sh, sh != 0.0 ? 2.0 : 0.0 );
    if( ps == 4 ) latticePortal( s, 0, swap, 2.0, 0.0, 0.0 );
    VectorXs q1 = s.q0, v1 = s.v; q1( 0 ) = a[0]; q1( 1 ) = a[1];
#if WHICH == 3
    if( cnt % 2 ) { const double t = q1( 2 ); q1( 2 ) = q1( 0 ); q1( 0 ) = t; for( S::Portal& p : s.portals ) for( Vec* w : { &p.xa, &p.xb, &p.na, &p.nb } ) std::swap( w->x(), w->z() );
      for( S::Portal& p : s.portals ) { const StaticPlane a( p.xa, p.na ), c( p.xb, p.nb ); p.m1 = a.t0().dot( c.t0() ) > 0.0 ? -1 : 1; p.m2 = a.t1().dot( c.t1() ) > 0.0 ? -1 : 1; } }
#endif
    put( out, g, s, q1, v1, true, unsigned( a[4] ), Rat( 1, 4 ) );
#if WHICH != 3
    s.t = 0.25 * double( a[4] );
#endif
    const Vec x = q1.segment<DIM>( 0 ); for( std::size_t k = 0; k < s.portals.size(); ++k ) tele( out, s, int( k ), x, 0.5, true );
  }
  for( int c = 0; c < n; ++c )
  {
    S::Scene s = pickScene( g, true ); const int w = WHICH == 1 ? 2 : 3;
    VectorXs q1 = s.q0, v1 = s.v;
    // most bodies come to lie beyond some plane, up to a fraction of the cell
    for( int i = 0; i < s.n(); ++i ) if( g.b( 0.6 ) )
    {
      const S::Portal& p = s.portals[g.i( 0, int( s.portals.size() ) - 1 )]; const bool sd = g.b(); const Vec nn = sd ? p.na : p.nb, xx = sd ? p.xa : p.xb;
      Vec y = q1.segment<DIM>( w * i ); y += ( -g.d( -0.3, 1.5 ) - nn.dot( y - xx ) ) * nn; q1.segment<DIM>( w * i ) = y;
    }
    put( out, g, s, q1, v1, false, unsigned( g.i( 1, 9000 ) ), Rat( g.i( 1, 5 ), g.i( 7, 500 ) ) );
    for( std::size_t k = 0; k < s.portals.size(); ++k ) for( int i = 0; i < std::min( s.n(), 3 ); ++i ) tele( out, s, int( k ), q1.segment<DIM>( w * i ), g.d( 0.1, 0.8 ), false );
  }
#if WHICH == 3
  // the box the simulation may not leave
  for( int c = 0; c < std::min( n, 60 ); ++c )
  {
    S::Scene s = S::randomScene( g, g.i( 0, 1 ) ); if( s.n() > 6 ) continue; Sim sim; fill( s, sim );
    const Vec lo( g.d( -5, -1.5 ), g.d( -5, -1.5 ), g.d( -5, -1.5 ) ), hi( g.d( 1.5, 5 ), g.d( 1.5, 5 ), g.d( 1.5, 5 ) ); const bool on = g.b( 0.8 );
    sim.state().setBoundaryMin( lo ); sim.state().setBoundaryMax( hi ); if( on ) sim.state().setBoundaryBehavior( SimBoundaryBehavior::EXIT );
    std::fflush( out.f ); const int flow = g.i( 0, 1 ) * 2;
    const pid_t pid = fork();
    if( pid == 0 )
    {
      std::freopen( "/dev/null", "w", stderr ); PythonScripting none; Out null( "/dev/null" ); Runner r( null, sim, none, false, g );
      r.umap.q1 = s.q1; r.umap.v1 = s.v; r.ifm.prescribed = true; r.ifm.pq = s.q1; r.ifm.pv = s.v; r.step( flow, 1, Rat( 1, 10 ), 0.0, 0.0 ); _exit( 0 );
    }
    int status = 0; waitpid( pid, &status, 0 );
    std::vector<std::string> bs; for( int i = 0; i < s.n(); ++i ) bs.push_back( SubObj().t( "kind", s.geos[s.gi[i]].kind == 0 ? "sphere" : "box" ).raw( "r", vec( s.geos[s.gi[i]].w ) ).v( "x", VectorXs( s.q1.segment<3>( 3 * i ) ) ).v( "R", VectorXs( s.q1.segment<9>( 3 * s.n() + 9 * i ) ) ).done() );
    out.put( Obj( "leave" ).v( "lo", lo ).v( "hi", hi ).n( "on", on ).raw( "bs", arr( bs ) ).n( "code", WIFEXITED( status ) ? WEXITSTATUS( status ) : 99 ) );
  }
#endif
  return 0;
}
int main( int argc, char** argv )
{
  const std::string mode = argv[1]; Out out( argv[argc - 1] );
  if( mode == "steps" ) { Rng g( std::strtoull( argv[2], nullptr, 10 ) * 5 + WHICH ); return doSteps( out, g, std::atoi( argv[3] ) ); }
  if( mode == "portals" ) { Rng g( std::strtoull( argv[3], nullptr, 10 ) * 7 + WHICH ); return doPortals( argv[2], out, g, std::atoi( argv[4] ) ); }
  return 4;
}
