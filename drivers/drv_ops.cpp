// Impact operators of the real code on synthetic contact problems and on the contacts of real scenes.
//   drv_ops <chain.json> <seed> <synthetic> <scenes> <out.ndjson>
#define SCRIPT_DEFS
#include "sim_adapt.h"
#include "rec_ops.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperatorUtilities.h"
#include "scisim/ConstrainedMaps/ImpactMaps/MinMapImpact.h"
#include "scisim/ConstrainedMaps/ImpactMaps/FischerBurmeisterImpact.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterSmooth.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FischerBurmeisterBoundConstrained.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace vj;
typedef std::vector<std::unique_ptr<Constraint>> Cons;
struct Problem { SparseMatrixsc N, M, Minv; VectorXs q0, v0, v0F, nrel, cor, a0; std::shared_ptr<Cons> own = std::make_shared<Cons>(); Cons& cons = *own; bool posed = false; Problem() {} Problem( const Problem& o ) : N( o.N ), M( o.M ), Minv( o.Minv ), q0( o.q0 ), v0( o.v0 ), v0F( o.v0F ), nrel( o.nrel ), cor( o.cor ), a0( o.a0 ), own( o.own ), cons( *own ), posed( o.posed ) {} };
static Obj head( const char* e, const Problem& p )
{
  return Obj( e ).raw( "N", spcols( p.N ) ).raw( "Minv", spcols( p.Minv ) ).v( "v0", p.v0 ).v( "v0F", p.v0F ).v( "nrel", p.nrel ).v( "cor", p.cor ).v( "a0", p.a0 ).n( "posed", p.posed );
}
static SparseMatrixsc quad( const Problem& p ) { return p.N.transpose() * p.Minv * p.N; }
static bool uniform( const VectorXs& c ) { for( int i = 0; i < c.size(); ++i ) if( c( i ) != c( 0 ) ) return false; return true; }
static bool independent( const Problem& p )
{
  const MatrixXXsc Q( quad( p ) ); Eigen::SelfAdjointEigenSolver<MatrixXXsc> e( Q, Eigen::EigenvaluesOnly );
  return e.eigenvalues()( 0 ) > 1.0e-3 * e.eigenvalues()( Q.rows() - 1 );
}
static void posed( Problem& p )
{
  // the complementarity problem certainly has a solution
  p.posed = independent( p ) || ( p.nrel.squaredNorm() == 0.0 && uniform( p.cor ) && p.v0 == p.v0F );
}
static void lcp( Out& out, const Problem& p, const double tol, const unsigned max )
{
  LCPOperatorAPGD op( tol, max ); VectorXs a = p.a0; const SparseMatrixsc Q = quad( p );
  op.flow( p.cons, p.M, p.Minv, p.q0, p.v0, p.v0F, p.N, Q, p.nrel, p.cor, a );
  out.put( head( "lcp", p ).n( "tol", tol ).n( "max", max ).v( "a", a ) );
}
static std::unique_ptr<ImpactOperator> apgd() { return std::unique_ptr<ImpactOperator>( new LCPOperatorAPGD( 1.0e-9, 400000 ) ); }
// runs an operator that refuses some inputs: the answer, or the exit code
static void refused( Out& out, const char* e, const Problem& p, ImpactOperator& op )
{
  std::fflush( out.f ); const pid_t pid = fork();
  if( pid == 0 ) { std::freopen( "/dev/null", "w", stderr ); VectorXs a = p.a0; op.flow( p.cons, p.M, p.Minv, p.q0, p.v0, p.v0F, p.N, quad( p ), p.nrel, p.cor, a ); _exit( 0 ); }
  int st = 0; waitpid( pid, &st, 0 );
  out.put( Obj( e ).v( "cor", p.cor ).n( "code", WIFEXITED( st ) ? WEXITSTATUS( st ) : 99 ) );
}
static void gr( Out& out, const Problem& p )
{
  const double vtol = 1.0e-6; Log log = std::make_shared<std::vector<std::string>>();
  RecImpact rec( log, apgd() ); GROperator op( vtol, rec ); std::unique_ptr<ImpactOperator> cl = op.clone(); VectorXs a = p.a0;
  cl->flow( p.cons, p.M, p.Minv, p.q0, p.v0, p.v0F, p.N, quad( p ), p.nrel, p.cor, a );
  out.put( head( log->size() > 60 ? "grlong" : "gr", p ).n( "vtol", vtol ).raw( "inner", log->size() > 60 ? "[]" : arr( *log ) ).v( "a", a ) );
}
static void grr( Out& out, const Problem& p, const bool nested )
{
  Log log = std::make_shared<std::vector<std::string>>();
  std::unique_ptr<ImpactOperator> lc = apgd(); std::unique_ptr<ImpactOperator> g( new GROperator( 1.0e-6, *lc ) );
  RecImpact el( log, nested ? g->clone() : lc->clone(), "e" ), in( log, lc->clone(), "i" ); GRROperator op( el, in ); std::unique_ptr<ImpactOperator> cl = op.clone(); VectorXs a = p.a0;
  cl->flow( p.cons, p.M, p.Minv, p.q0, p.v0, p.v0F, p.N, quad( p ), p.nrel, p.cor, a );
  out.put( head( "grr", p ).raw( "inner", arr( *log ) ).v( "a", a ) );
}
static double pick( Rng& g ) { const int k = g.i( 0, 5 ); return k == 0 ? 0.0 : k == 1 ? 1.0 : k == 2 ? 0.5 : g.u(); }
static Problem synthetic( Rng& g, const bool lattice )
{
  Problem p; const int nd = g.i( 1, lattice ? 3 : 6 ), nc = g.i( 1, lattice ? 4 : 6 );
  MatrixXXsc N( nd, nc ), Mi = MatrixXXsc::Zero( nd, nd ); p.v0.resize( nd ); p.nrel.setZero( nc ); p.cor.resize( nc ); p.a0.setZero( nc );
  for( int j = 0; j < nc; ++j )
  {
    do { for( int i = 0; i < nd; ++i ) N( i, j ) = lattice ? double( g.i( -1, 1 ) ) : g.b( 0.3 ) ? 0.0 : g.d( -1, 1 ); } while( N.col( j ).squaredNorm() < 0.05 );
    if( j > 0 && g.b( 0.15 ) ) N.col( j ) = ( g.b() ? 1.0 : -1.0 ) * N.col( g.i( 0, j - 1 ) );
  }
  // masses, with an off-diagonal block now and then (world inertia)
  for( int i = 0; i < nd; ++i ) Mi( i, i ) = lattice ? double( 1 << g.i( 0, 1 ) ) : g.d( 0.2, 3.0 );
  if( nd >= 2 && !lattice && g.b() ) { const double c = 0.5 * std::sqrt( Mi( 0, 0 ) * Mi( 1, 1 ) ) * g.d( -1, 1 ); Mi( 0, 1 ) = Mi( 1, 0 ) = c; }
  for( int i = 0; i < nd; ++i ) p.v0( i ) = lattice ? double( g.i( -2, 2 ) ) : g.d( -3, 3 );
  p.v0F = p.v0; const bool one = g.b( 0.7 ); const double c0 = pick( g );
  for( int j = 0; j < nc; ++j ) p.cor( j ) = one ? c0 : pick( g );
  const int ws = g.i( 0, 3 ); for( int j = 0; j < nc; ++j ) p.a0( j ) = ws == 0 ? 0.0 : ws == 1 ? 1.0 : ws == 2 ? g.d( 0, 2 ) : g.d( -1, 1 );
  if( g.b( 0.3 ) ) for( int j = 0; j < nc; ++j ) p.nrel( j ) = lattice ? double( g.i( -1, 1 ) ) : g.d( -1, 1 );
  p.N = N.sparseView(); p.Minv = Mi.sparseView(); p.M = MatrixXXsc( Mi.inverse() ).sparseView(); p.q0.setZero( nd );
  posed( p ); return p;
}
static bool opposing( const Problem& p )
{
  // some non-negative combination of the normals vanishes: elastic sequences need not end
  const MatrixXXsc N( p.N ); return !independent( p ) && ( N.transpose() * N ).minCoeff() < 0.0;
}
static void term( Out& out, Rng& g )
{
  const int n = g.i( 1, 4 ); VectorXs x( n ), y( n ), c( n ); const bool lat = g.b();
  for( int i = 0; i < n; ++i ) { x( i ) = lat ? g.i( -2, 2 ) : g.d( -2, 2 ); y( i ) = lat ? g.i( -2, 2 ) : g.d( -2, 2 ); c( i ) = lat ? g.i( 0, 2 ) : g.b( 0.2 ) ? 0.0 : g.d( 0, 2 ); }
  out.put( Obj( "term" ).t( "k", "min" ).v( "x", x ).v( "y", y ).v( "c", c ).n( "out", double( MinMapImpact{}( x, y ) ) ) );
  out.put( Obj( "term" ).t( "k", "fb" ).v( "x", x ).v( "y", y ).v( "c", c ).n( "out", double( FischerBurmeisterImpact{ 1.0e-3 }( x, y ) ) ) );
  out.put( Obj( "term" ).t( "k", "bound" ).v( "x", x ).v( "y", y ).v( "c", c ).n( "out", double( FischerBurmeisterBoundConstrained( 1.0e-3, c )( x, y ) ) ) );
  VectorXs x2( 2 * n ), y2( 2 * n ); for( int i = 0; i < 2 * n; ++i ) { x2( i ) = lat ? g.i( -1, 1 ) : g.d( -1, 1 ); y2( i ) = lat ? g.i( -2, 2 ) : g.d( -2, 2 ); }
  out.put( Obj( "term" ).t( "k", "smooth" ).v( "x", x2 ).v( "y", y2 ).v( "c", c ).n( "out", double( FischerBurmeisterSmooth( 1.0e-3, c )( x2, y2 ) ) ) );
}
// ---- contacts of real scenes ----
static S::Scene pickScene( Rng& g )
{
#if WHICH == 1
  return S::randomScene( g, g.b( 0.3 ) );
#elif WHICH == 2
  return S::randomScene( g, g.i( 1, 2 ) );
#else
  return S::randomScene( g, g.i( 0, 1 ) );
#endif
}
static bool resolves( const Constraint& c )
{
#if WHICH == 1
  return c.name() == "ball_ball" || c.name() == "teleported_ball_ball";
#elif WHICH == 3
  return c.name() == "sphere_sphere" || c.name() == "static_plane_sphere";
#else
  return false;
#endif
}
static void gs( Out& out, const Problem& p, const double vtol )
{
  GaussSeidelOperator op( vtol ); VectorXs a = p.a0;
  op.flow( p.cons, p.M, p.Minv, p.q0, p.v0, p.v0, p.N, quad( p ), p.nrel, p.cor, a );
  out.put( head( "gs", p ).n( "vtol", vtol ).v( "a", a ) );
}
static Problem fromScene( const S::Scene& s, Sim& sim, Rng& g )
{
  Problem p; fill( s, sim ); sim.computeActiveSet( s.q0, s.q1, s.v, p.cons ); const int nc = int( p.cons.size() );
  p.N.resize( fsys( sim ).nvdofs(), nc ); ImpactOperatorUtilities::computeN( fsys( sim ), p.cons, s.q0, p.N );
  p.M = fsys( sim ).M(); p.Minv = fsys( sim ).Minv(); p.q0 = s.q0; p.v0 = p.v0F = s.v;
  ImpactOperatorUtilities::evalKinematicRelativeVelocityN( s.q0, p.cons, p.nrel );
  p.cor.resize( nc ); const bool one = g.b( 0.7 ); const double c0 = pick( g ); for( int j = 0; j < nc; ++j ) p.cor( j ) = one ? c0 : pick( g );
  p.a0.setZero( nc ); if( g.b() ) for( int j = 0; j < nc; ++j ) p.a0( j ) = g.d( 0, 1 );
  return p;
}
int main( int argc, char** argv )
{
  Out out( argv[argc - 1] ); Rng g( std::strtoull( argv[2], nullptr, 10 ) * 11 + WHICH ); const int nsyn = std::atoi( argv[3] ), nscene = std::atoi( argv[4] );
  std::freopen( "/dev/null", "w", stderr );
#if WHICH == 1
  std::ifstream in( argv[1] ); std::string line;
  while( std::getline( in, line ) )
  {
    // equal balls touching in a row, elastic: the sweeping operator sorts the velocities
    const std::vector<long> a = ints( line ); const int n = int( a.size() ); if( n < 2 ) continue;
    S::Scene s; s.q0.setZero( 2 * n ); s.v.setZero( 2 * n ); for( int i = 0; i < n; ++i ) { s.q0( 2 * i ) = i; s.v( 2 * i ) = a[i] - 1; s.r.push_back( 0.5 ); s.m.push_back( 2.0 ); } s.q1 = s.q0;
    Sim sim; Problem p = fromScene( s, sim, g ); p.cor.setConstant( 1.0 ); p.a0.setZero();
    GaussSeidelOperator op( 0.0 ); VectorXs al = p.a0; op.flow( p.cons, p.M, p.Minv, p.q0, p.v0, p.v0, p.N, quad( p ), p.nrel, p.cor, al );
    const VectorXs v1 = p.v0 + p.Minv * p.N * al; out.put( Obj( "chain" ).v( "v0", p.v0 ).v( "v1", v1 ) );
  }
  for( int c = 0; c < nsyn; ++c )
  {
    Problem p = synthetic( g, c % 3 == 0 );
    if( g.b( 0.3 ) ) { Problem r = p; posed( r ); lcp( out, r, 1.0e-12, unsigned( g.i( 1, 12 ) ) ); }
    { Problem r = p; if( g.b( 0.3 ) ) for( int i = 0; i < r.v0F.size(); ++i ) r.v0F( i ) += g.d( -1, 1 ); posed( r ); lcp( out, r, 1.0e-8, r.posed ? 400000 : 2000 ); }
    if( p.posed && uniform( p.cor ) && !( opposing( p ) && p.cor( 0 ) > 0.75 ) ) gr( out, p );
    if( p.posed && uniform( p.cor ) && !opposing( p ) ) { grr( out, p, g.b() ); }
    else if( p.posed && uniform( p.cor ) ) grr( out, p, false );
    if( c % 20 == 0 && p.posed )
    {
      std::unique_ptr<ImpactOperator> lc = apgd(); GROperator a( 1.0e-6, *lc ); GRROperator b( *lc, *lc );
      if( !opposing( p ) ) { refused( out, "one", p, a ); refused( out, "one", p, b ); }
    }
    if( c % 3 == 0 ) term( out, g );
  }
#endif
  for( int c = 0; c < nscene; ++c )
  {
    const S::Scene s = pickScene( g ); if( s.n() > 6 ) continue;
    Sim sim; Problem p = fromScene( s, sim, g ); const int nc = int( p.cons.size() ); if( nc == 0 || nc > 10 ) continue;
    posed( p ); bool res = true; for( const auto& k : p.cons ) res = res && resolves( *k );
    if( res && !( opposing( p ) && p.cor.maxCoeff() > 0.75 ) ) gs( out, p, 1.0e-7 );
    lcp( out, p, 1.0e-8, p.posed ? 400000 : 2000 );
    if( p.posed && uniform( p.cor ) && !opposing( p ) ) { gr( out, p ); grr( out, p, g.b() ); }
  }
  return 0;
}
