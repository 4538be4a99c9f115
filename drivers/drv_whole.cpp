// Whole runs with the real detection, maps and solvers: the state before and after every step.
//   drv_whole <seed> <n> <out.ndjson>
#define SCRIPT_DEFS
#include "sim_adapt.h"
#include "rec_ops.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
using namespace vj;
typedef std::vector<std::unique_ptr<Constraint>> Cons;
struct Seen { std::vector<std::string> cs; double res = 0.0; bool ok = true, hit = false; };
static void look( const Cons& as, Seen& s )
{
  s.hit = true;
  for( const auto& c : as )
  {
    std::pair<int,int> b; c->getSimulatedBodyIndices( b );
    s.cs.push_back( SubObj().n( "i", b.first + 1 ).n( "j", b.second + 1 ).n( "ct", c->conservesTranslationalMomentum() ).n( "ca", c->conservesAngularMomentumUnderImpact() ).n( "cf", c->conservesAngularMomentumUnderImpactAndFriction() ).done() );
  }
}
struct Op final : public ImpactOperator
{
  std::unique_ptr<ImpactOperator> in; Seen& s;
  Op( std::unique_ptr<ImpactOperator> o, Seen& se ) : in( std::move( o ) ), s( se ) {}
  virtual void flow( const Cons& as, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  {
    in->flow( as, M, Minv, q0, v0, v0F, N, Q, nrel, CoR, alpha ); look( as, s );
    const VectorXs w = N.transpose() * ( v0F + Minv * ( N * alpha ) ) + ( N.transpose() * v0 ).cwiseProduct( CoR ) + ( nrel.array() * ( 1.0 + CoR.array() ) ).matrix();
    for( int k = 0; k < alpha.size(); ++k ) s.res = std::max( s.res, std::fabs( std::min( double( w( k ) ), double( alpha( k ) ) ) ) );
  }
  virtual std::string name() const override { return in->name(); }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new Op( in->clone(), s ) ); }
  virtual void serialize( std::ostream& ) const override {}
};
struct Solver final : public FrictionSolver
{
  Sobogus in; Seen& s;
  Solver( Seen& se ) : in( WHICH == 1 ? SobogusSolverType::Balls2D : WHICH == 2 ? SobogusSolverType::RigidBody2D : SobogusSolverType::RigidBodies3D, 1 ), s( se ) {}
  virtual void solve( const unsigned it, const scalar& dt, const FlowableSystem& fs, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& CoR, const VectorXs& mu, const VectorXs& q0, const VectorXs& v0, Cons& as, const MatrixXXsc& B, const VectorXs& nx, const VectorXs& dx, const unsigned max, const scalar& tol, VectorXs& force, VectorXs& alpha, VectorXs& beta, VectorXs& vo, bool& ok, scalar& err ) override
  { in.solve( it, dt, fs, M, Minv, CoR, mu, q0, v0, as, B, nx, dx, max, tol, force, alpha, beta, vo, ok, err ); look( as, s ); s.ok = s.ok && ok; }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return in.numFrictionImpulsesPerNormal( d ); }
  virtual void serialize( std::ostream& ) const override {}
  virtual std::string name() const override { return in.name(); }
};
static std::unique_ptr<ImpactOperator> lcp() { return std::unique_ptr<ImpactOperator>( new LCPOperatorAPGD( 1.0e-10, 100000 ) ); }
static S::Scene pickScene( Rng& g, const bool plain )
{
  const bool port = g.b( 0.25 );
#if WHICH == 1
  S::Scene s = S::randomScene( g, port ); if( plain ) s.drums.clear();
#elif WHICH == 2
  S::Scene s = S::randomScene( g, port ? 2 : plain || g.b( 0.4 ) ? 1 : 0 ); if( g.b( 0.4 ) ) for( int i = 0; i < s.n(); ++i ) if( !s.geos[s.gi[i]].box ) s.fixed[i] = false;
#else
  S::Scene s = S::randomScene( g, port ? 3 : plain ? 0 : g.i( 0, 2 ) ); if( g.b( 0.5 ) ) for( int i = 0; i < s.n(); ++i ) s.fixed[i] = false;
  if( g.b() ) s.cyls.clear();
#endif
  // often nothing but bodies, or nothing that moves by itself
  if( g.b( 0.5 ) ) { s.planes.clear();
#if WHICH == 1
    s.drums.clear();
#elif WHICH == 3
    s.cyls.clear();
#endif
  }
  else if( g.b( 0.7 ) )
  {
#if WHICH == 1
    for( auto& p : s.planes ) p.v.setZero();
#elif WHICH == 2
    for( auto& p : s.planes ) { p.v.setZero(); p.w = 0.0; }
#else
    for( auto& p : s.planes ) { p.v.setZero(); p.om.setZero(); } for( auto& c : s.cyls ) c.om.setZero();
#endif
  }
  if( g.b( 0.3 ) ) calm( g, s.q0, s.v, WHICH == 1 ? 2 : WHICH == 2 ? 3 : 6 );
#if WHICH == 2
  for( int i = 0; i < s.n(); ++i ) if( s.fixed[i] && g.b( 0.8 ) ) s.v.segment<3>( 3 * i ).setZero();
#elif WHICH == 3
  for( int i = 0; i < s.n(); ++i ) if( s.fixed[i] ) { s.v.segment<3>( 3 * i ).setZero(); s.v.segment<3>( 3 * s.n() + 3 * i ).setZero(); }
#endif
  return s;
}
int main( int, char** argv )
{
  Out out( argv[3] ); Rng g( std::strtoull( argv[1], nullptr, 10 ) * 23 + WHICH ); const int n = std::atoi( argv[2] );
  if( !std::getenv( "SHOWERR" ) ) std::freopen( "/dev/null", "w", stderr );
  for( int c = 0; c < n; )
  {
    // impact: lcp, gr, grr, gauss seidel; impact and friction: geometric, stabilized, symplectic; or free motion
    const int kind = g.i( 0, 7 ), which = WHICH == 2 && kind == 6 ? 4 : kind;
    S::Scene s = pickScene( g, WHICH == 2 ? which < 4 : which == 6 || which == 3 || ( WHICH == 3 && which < 4 ) ); if( s.n() > 7 ) continue;
#if WHICH == 2
    if( which == 3 ) continue;
#elif WHICH == 3
    if( which == 3 ) { s.cyls.clear(); s.portals.clear(); for( int i = 0; i < s.n(); ++i ) s.fixed[i] = false; } if( which < 4 ) s.cyls.clear();
#else
    if( which == 3 ) { s.planes.clear(); s.drums.clear(); }
    if( which == 6 ) s.portals.clear();
#endif
#if WHICH == 3
    if( which == 6 ) s.portals.clear();
#endif
    bool anyfixed = false;
#if WHICH != 1
    for( bool f : s.fixed ) anyfixed = anyfixed || f;
#endif
    // repeated reflections need not end between walls
    if( which == 1 || which == 2 )
    {
      if( s.n() > 4 || anyfixed || !s.portals.empty() ) continue;
      s.planes.clear();
#if WHICH == 1
      s.drums.clear();
#elif WHICH == 3
      s.cyls.clear();
#endif
    }
    Sim sim; fill( s, sim ); Vector3s acc( 0, 0, 0 ); if( g.b( 0.5 ) ) { acc = Vector3s( g.d( -1, 1 ), g.d( -9, 1 ), WHICH == 3 ? g.d( -1, 1 ) : 0.0 ); gravity( sim, acc ); }
    bool pushy = false;
#if WHICH == 1
    if( g.b( 0.2 ) ) { pushy = true; sim.state().forces().emplace_back( new PenaltyForce( g.d( 1, 50 ), 2.0 ) ); }
#endif
    const Rat dt( g.i( 1, 3 ), g.i( 60, 400 ) ); const double cor0 = which == 6 || g.b( 0.4 ) ? 0.0 : g.b( 0.3 ) ? 1.0 : g.u(), mu = which < 4 || which == 7 || g.b( 0.2 ) ? 0.0 : g.d( 0, 1.5 );
    const double cor = which == 3 ? 0.7 * cor0 : cor0; const bool stab = which == 6 && g.b( 0.4 );
    std::unique_ptr<UnconstrainedMap> um( makeMap( WHICH == 3 && anyfixed ? g.i( 0, 1 ) : g.i( 0, 5 ) ) ); PythonScripting none; Seen seen;
    std::unique_ptr<ImpactOperator> raw; std::unique_ptr<ImpactOperator> l = lcp();
    if( which == 1 ) raw.reset( new GROperator( 1.0e-9, *l ) ); else if( which == 2 ) { GROperator gr( 1.0e-9, *l ); raw.reset( new GRROperator( *l, gr ) ); } else if( which == 3 ) raw.reset( new GaussSeidelOperator( 1.0e-8 ) ); else raw = lcp();
    Op op( std::move( raw ), seen ); ImpactMap im( false ); Solver so( seen ); std::unique_ptr<ImpactFrictionMap> ifm;
    if( which == 4 ) ifm.reset( new GeometricImpactFrictionMap( 1.0e-8, 5000, ImpulsesToCache::NONE ) ); else if( which == 5 ) ifm.reset( new StabilizedImpactFrictionMap( 1.0e-8, 5000, g.b(), g.b() ) ); else if( which == 6 ) ifm.reset( new SymplecticEulerImpactFrictionMap( 1.0e-8, 5000, ImpulsesToCache::NONE, stab, 0.0 ) );
    static const char* const NAMES[] = { "lcp", "gr", "grr", "gs", "geometric", "stabilized", "symplectic", "free" };
    Obj o( "world" ); o.t( "lay", LAY ).n( "n", nb( sim ) ).v( "g", VectorXs( acc.head( DIM ) ) ).n( "pushy", pushy ).t( "map", NAMES[which] ).t( "umap", um->name() ).n( "cor", cor ).n( "mu", mu ).n( "dt", double( scalar( dt ) ) ).n( "stab", stab );
    std::vector<std::string> m, I, fx; bool round = true, still = true; int walls = int( s.planes.size() );
    for( int i = 0; i < s.n(); ++i )
    {
#if WHICH == 1
      m.push_back( num( double( sim.state().M().coeff( 2 * i, 2 * i ) ) ) ); fx.push_back( num( false ) );
#elif WHICH == 2
      m.push_back( num( double( sim.state().m( i ) ) ) ); I.push_back( num( double( sim.state().I( i ) ) ) ); fx.push_back( num( bool( s.fixed[i] ) ) ); round = round && !s.geos[s.gi[i]].box;
      if( s.fixed[i] && s.v.segment<3>( 3 * i ).norm() > 0.0 ) still = false;
#else
      m.push_back( num( double( sim.state().M0().coeff( 3 * i, 3 * i ) ) ) ); std::vector<std::string> d; for( int a = 0; a < 3; ++a ) d.push_back( num( double( sim.state().M0().coeff( 3 * s.n() + 3 * i + a, 3 * s.n() + 3 * i + a ) ) ) ); I.push_back( arr( d ) );
      fx.push_back( num( bool( s.fixed[i] ) ) ); round = round && s.geos[s.gi[i]].kind == 0;
#endif
    }
    bool shear = false;
#if WHICH == 1
    walls += int( s.drums.size() ); for( const auto& p : s.planes ) still = still && p.v.norm() == 0.0; for( const auto& p : s.portals ) shear = shear || p.v != 0.0;
#elif WHICH == 2
    for( const auto& p : s.planes ) still = still && p.v.norm() == 0.0 && p.w == 0.0; for( const auto& p : s.portals ) shear = shear || p.v != 0.0;
#else
    walls += int( s.cyls.size() ); for( const auto& p : s.planes ) still = still && p.v.norm() == 0.0 && p.om.norm() == 0.0; for( const auto& p : s.cyls ) still = still && p.om.norm() == 0.0;
#endif
    o.raw( "m", arr( m ) ).raw( "I", arr( I ) ).raw( "fixed", arr( fx ) ).n( "round", round ).n( "still", still ).n( "walls", walls ).n( "portals", int( s.portals.size() ) ).n( "shear", shear ).v( "q", sim.state().q() ).v( "v", sim.state().v() );
    out.put( o ); ++c;
    const int steps = g.i( 2, 6 ); const unsigned it0 = unsigned( g.i( 1, 500 ) );
    for( int k = 0; k < steps; ++k )
    {
#if WHICH == 3
      // the discrete Moser-Veselov update has no answer for bodies that turn by more than about a radian per step
      bool whirl = false; for( int i = 0; i < s.n(); ++i ) whirl = whirl || double( scalar( dt ) ) * sim.state().v().segment<3>( 3 * s.n() + 3 * i ).norm() > 0.5;
      if( whirl && um->name() == "dmv" ) break;
#endif
      seen.cs.clear(); seen.res = 0.0; seen.ok = true; seen.hit = false;
      if( which == 7 ) sim.flow( none, it0 + k, dt, *um );
      else if( which < 4 )
#if WHICH == 3
        sim.flow( none, it0 + k, dt, *um, op, cor );
#else
        sim.flow( none, it0 + k, dt, *um, op, cor, im );
#endif
      else sim.flow( none, it0 + k, dt, *um, cor, mu, so, *ifm );
      out.put( Obj( "step" ).raw( "cs", arr( seen.cs ) ).n( "res", seen.res ).n( "ok", seen.ok ).v( "q", sim.state().q() ).v( "v", sim.state().v() ) );
    }
  }
  return 0;
}
