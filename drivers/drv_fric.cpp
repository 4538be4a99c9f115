// Friction solvers on the contacts of real scenes.
//   drv_fric <seed> <n> <out.ndjson>
#include "sim_adapt.h"
#include "rec_ops.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/GRRFriction.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.h"
using namespace vj;
// A friction operator for the driver: projected gradient on maximal dissipation inside |beta_i| <= mu_i alpha_i
struct StubFriction final : public FrictionOperator
{
  Log log; int iters;
  StubFriction( const Log& l, const int n ) : log( l ), iters( n ) {}
  virtual void flow( const scalar& t, const SparseMatrixsc& Minv, const VectorXs& v0, const SparseMatrixsc& D, const SparseMatrixsc& Q, const VectorXs& gdotD, const VectorXs& mu, const VectorXs& alpha, VectorXs& beta, VectorXs& ) override
  {
    SubObj o; o.t( "k", "f" ).n( "t", double( t ) ).raw( "D", spcols( D ) ).raw( "Q", spcols( Q ) ).v( "v0", v0 ).v( "drel", gdotD ).v( "mu", mu ).v( "al", alpha ).v( "b0", beta );
    const int nc = int( mu.size() ), k = int( beta.size() ) / nc; const MatrixXXsc QD( Q );
    const double L = std::max( 1.0e-6, double( QD.trace() ) ); const VectorXs g0 = D.transpose() * v0 + gdotD;
    for( int it = 0; it < iters; ++it )
    {
      beta -= ( QD * beta + g0 ) / L;
      for( int c = 0; c < nc; ++c ) { const double s = beta.segment( k * c, k ).norm(), m = mu( c ) * std::max( 0.0, double( alpha( c ) ) ); if( s > m ) beta.segment( k * c, k ) *= s > 0.0 ? m / s : 0.0; }
    }
    log->push_back( o.v( "b", beta ).done() );
  }
  virtual int numFrictionImpulsesPerNormal() const override { return DIM - 1; }
  virtual std::string name() const override { return "stub"; }
  virtual std::unique_ptr<FrictionOperator> clone() const override { return std::unique_ptr<FrictionOperator>( new StubFriction( log, iters ) ); }
  virtual void serialize( std::ostream& ) const override {}
  virtual bool isLinearized() const override { return false; }
};
struct P
{
  std::vector<std::unique_ptr<Constraint>> cons; VectorXs q0, v0, cor, mu, alpha, beta, f; MatrixXXsc bases; SparseMatrixsc M, Minv; std::string cs;
};
static std::string indices( const std::vector<std::unique_ptr<Constraint>>& c )
{
  std::vector<std::string> r; for( const auto& k : c ) { std::pair<int,int> s; k->getSimulatedBodyIndices( s ); r.push_back( num( s.first ) ); r.push_back( num( s.second ) ); }
  return arr( r );
}
static bool has( const Constraint& c )
{
#if WHICH == 2
  return c.name() == "circle_circle";
#else
  return c.name() != "static_cylinder_body";
#endif
}
static bool make( P& p, Sim& sim, const S::Scene& s, Rng& g )
{
  fill( s, sim ); sim.computeActiveSet( s.q0, s.q1, s.v, p.cons ); const int nc = int( p.cons.size() ); if( nc == 0 || nc > 7 ) return false;
  FlowableSystem& fs = fsys( sim ); p.q0 = s.q0; p.v0 = s.v; p.M = fs.M(); p.Minv = fs.Minv();
  csys( sim ).computeContactBases( p.q0, p.v0, p.cons, p.bases );
  p.cor.resize( nc ); p.mu.resize( nc ); p.alpha.setZero( nc ); p.beta.setZero( ( DIM - 1 ) * nc ); p.f.setZero( p.v0.size() );
  const bool el = g.b( 0.3 ), slick = g.b( 0.15 );
  for( int c = 0; c < nc; ++c ) { p.cor( c ) = el ? g.d( 0, 1 ) : g.i( 0, 1 ) * 0.5; p.mu( c ) = slick || g.b( 0.1 ) ? 0.0 : g.d( 0, 1.5 ); }
  if( g.b() ) for( int c = 0; c < nc; ++c ) { p.alpha( c ) = g.d( 0, 1 ); for( int k = 0; k < DIM - 1; ++k ) p.beta( ( DIM - 1 ) * c + k ) = p.mu( c ) * p.alpha( c ) * g.d( -0.7, 0.7 ); }
  std::vector<std::string> cs; const int dof = int( fs.numVelDoFsPerBody() );
  for( int c = 0; c < nc; ++c )
  {
    std::pair<int,int> b; p.cons[c]->getSimulatedBodyIndices( b );
    const MatrixXXsc E = p.bases.block( 0, DIM * c, DIM, DIM ); MatrixXXsc H0( DIM, dof ), H1( DIM, dof ); H0.setZero(); H1.setZero(); p.cons[c]->evalH( p.q0, E, H0, H1 );
    const VectorXs rel = p.cons[c]->computeRelativeVelocity( p.q0, p.v0 );
    cs.push_back( SubObj().t( "name", p.cons[c]->name() ).n( "i", b.first + 1 ).n( "j", b.second + 1 ).raw( "b", cols( E ) ).raw( "H0", rows( H0 ) ).raw( "H1", rows( H1 ) ).v( "rel", rel ).done() );
  }
  p.cs = arr( cs ); return true;
}
static Obj head( const char* e, const P& p, Sim& sim )
{
  return Obj( e ).t( "lay", LAY ).n( "n", int( fsys( sim ).numBodies() ) ).raw( "Minv", spcols( p.Minv ) ).v( "v0", p.v0 ).v( "cor", p.cor ).v( "mu", p.mu ).raw( "cs", p.cs ).v( "a0", p.alpha ).v( "b0", p.beta ).v( "f0", p.f );
}
static SobogusSolverType type() { return WHICH == 1 ? SobogusSolverType::Balls2D : WHICH == 2 ? SobogusSolverType::RigidBody2D : SobogusSolverType::RigidBodies3D; }
static void sb( Out& out, P& p, Sim& sim, Rng& g )
{
  const int nc = int( p.cons.size() ); VectorXs xn, xd; if( g.b( 0.4 ) ) { xn.resize( nc ); xd.resize( p.beta.size() ); for( int i = 0; i < nc; ++i ) xn( i ) = g.d( -1, 1 ); for( int i = 0; i < xd.size(); ++i ) xd( i ) = g.d( -1, 1 ); }
  const double tol = 1.0e-8; const unsigned max = g.b( 0.2 ) ? unsigned( g.i( 1, 3 ) ) : 2000;
  VectorXs a = p.alpha, b = p.beta, f = VectorXs::Constant( p.v0.size(), 7.0 ), v = VectorXs::Zero( p.v0.size() ); bool ok = false; double err = -1;
  Sobogus sol( type(), unsigned( g.i( 1, 3 ) ) ); const std::string before = indices( p.cons );
  sol.solve( 3, 0.25, fsys( sim ), p.M, p.Minv, p.cor, p.mu, p.q0, p.v0, p.cons, p.bases, xn, xd, max, tol, f, a, b, v, ok, err );
  VectorXs a2 = a, b2 = b, f2 = f, v2 = v; bool ok2 = false; double err2 = -1;
  if( ok ) sol.solve( 3, 0.25, fsys( sim ), p.M, p.Minv, p.cor, p.mu, p.q0, p.v0, p.cons, p.bases, xn, xd, 2000, 100 * tol, f2, a2, b2, v2, ok2, err2 );
  VectorXs zn = xn.size() ? xn : VectorXs( VectorXs::Zero( nc ) ), zd = xd.size() ? xd : VectorXs( VectorXs::Zero( p.beta.size() ) );
  out.put( head( "sb", p, sim ).v( "xn", zn ).v( "xd", zd ).v( "a", a ).v( "b", b ).v( "f", f ).v( "v", v ).n( "ok", ok ).n( "err", err ).n( "tol", tol ).n( "max", max ).v( "a2", a2 ).v( "b2", b2 ).v( "v2", v2 ).raw( "ix", before ).raw( "ix2", indices( p.cons ) ).n( "per", sol.numFrictionImpulsesPerNormal( DIM ) ) );
}
static void staggered( Out& out, P& p, Sim& sim, Rng& g, const bool grr )
{
  Log log = std::make_shared<std::vector<std::string>>(); RecImpact rec( log, std::unique_ptr<ImpactOperator>( new LCPOperatorAPGD( 1.0e-9, 4000 ) ) ); StubFriction fr( log, g.i( 3, 60 ) );
  const bool wa = g.b(), wb = g.b(); const unsigned max = unsigned( g.i( 1, 12 ) ); const double tol = g.b( 0.3 ) ? 0.05 : 1.0e-7;
  P r; if( g.b() ) for( int i = 0; i < p.f.size(); ++i ) p.f( i ) = g.d( -0.3, 0.3 );
  VectorXs a = p.alpha, b = p.beta, f = p.f, v = VectorXs::Zero( p.v0.size() ); bool ok = false; double err = -1; const VectorXs none; const unsigned it = unsigned( g.i( 0, 9 ) );
  const std::string before = indices( p.cons );
  if( grr ) { GRRFriction sol( rec, fr ); sol.solve( it, 0.25, fsys( sim ), p.M, p.Minv, p.cor, p.mu, p.q0, p.v0, p.cons, p.bases, none, none, max, tol, f, a, b, v, ok, err ); }
  else { StaggeredProjections sol( wa, wb, rec, fr ); sol.solve( it, 0.25, fsys( sim ), p.M, p.Minv, p.cor, p.mu, p.q0, p.v0, p.cons, p.bases, none, none, max, tol, f, a, b, v, ok, err ); }
  out.put( head( grr ? "gf" : "sp", p, sim ).n( "wa", wa ).n( "wb", wb ).n( "t", it * 0.25 ).v( "a", a ).v( "b", b ).v( "f", f ).v( "v", v ).n( "ok", ok ).n( "err", err ).n( "tol", tol ).n( "max", max ).raw( "calls", arr( *log ) ).raw( "ix", before ).raw( "ix2", indices( p.cons ) ) );
}
static S::Scene pickScene( Rng& g )
{
#if WHICH == 1
  return S::randomScene( g, g.b( 0.3 ) );
#elif WHICH == 2
  return S::randomScene( g, g.i( 0, 2 ) );
#else
  return S::randomScene( g, g.i( 0, 3 ) );
#endif
}
int main( int argc, char** argv )
{
  Out out( argv[argc - 1] ); Rng g( std::strtoull( argv[1], nullptr, 10 ) * 13 + WHICH ); const int n = std::atoi( argv[2] );
  if( !std::getenv( "SHOWERR" ) ) std::freopen( "/dev/null", "w", stderr );
  for( int c = 0; c < n; )
  {
    const S::Scene s = pickScene( g ); if( s.n() > 5 ) continue;
    Sim sim; P p; if( !make( p, sim, s, g ) ) continue;
    ++c; sb( out, p, sim, g );
    bool full = true; for( const auto& k : p.cons ) full = full && has( *k );
    if( full && c % 2 == 0 ) staggered( out, p, sim, g, WHICH == 3 && g.b( 0.3 ) );
  }
  return 0;
}
