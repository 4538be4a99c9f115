// Saving and loading of solvers, maps and integrators.
//   drv_parts <seed> <n> <out.ndjson>
#include "sim_adapt.h"
#include "rec_ops.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/StaggeredProjections.h"
#include "scisim/ConstrainedMaps/GRRFriction.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/ImpulsesToCache.h"
#include "scisim/ConstrainedMaps/ConstrainedMapUtilities.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
#if WHICH == 1
#include "ball2d/Ball2DUtilities.h"
#include "ball2d/VerletMap.h"
#include "ball2d/SymplecticEulerMap.h"
#define UTIL Ball2DUtilities
#elif WHICH == 2
#include "rigidbody2d/RigidBody2DUtilities.h"
#include "rigidbody2d/VerletMap.h"
#include "rigidbody2d/SymplecticEulerMap.h"
#define UTIL RigidBody2DUtilities
#else
#include "rigidbody3d/RigidBody3DUtilities.h"
#include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
#include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
#define UTIL RigidBody3DUtilities
#endif
#include <sstream>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
using namespace vj;
namespace CMU = ConstrainedMapUtilities;
// the only friction operator that can be loaded without third party solvers is none at all
struct NoFriction final : public FrictionOperator
{
  virtual void flow( const scalar&, const SparseMatrixsc&, const VectorXs&, const SparseMatrixsc&, const SparseMatrixsc&, const VectorXs&, const VectorXs&, const VectorXs&, VectorXs&, VectorXs& ) override {}
  virtual int numFrictionImpulsesPerNormal() const override { return DIM - 1; }
  virtual std::string name() const override { return "NULL"; }
  virtual std::unique_ptr<FrictionOperator> clone() const override { return std::unique_ptr<FrictionOperator>( new NoFriction ); }
  virtual void serialize( std::ostream& ) const override {}
  virtual bool isLinearized() const override { return false; }
};
typedef std::unique_ptr<ImpactOperator> Op; typedef std::unique_ptr<FrictionSolver> Fs; typedef std::unique_ptr<ImpactMap> Im; typedef std::unique_ptr<ImpactFrictionMap> Fm; typedef std::unique_ptr<UnconstrainedMap> Um;
static std::string nm( const Op& x ) { return x ? x->name() : "NULL"; }
static std::string nm( const Fs& x ) { return x ? x->name() : "NULL"; }
static std::string nm( const Im& x ) { return x ? "impact_map" : "NULL"; }
static std::string nm( const Fm& x ) { return x ? x->name() : "NULL"; }
static std::string nm( const Um& x ) { return x ? x->name() : "NULL"; }
template<typename T> void put( const T& x, std::ostream& o ) { CMU::serialize( x, o ); }
static void put( const Um& x, std::ostream& o ) { UTIL::serialize( x, o ); }
static void get( Op& x, std::istream& i ) { x = CMU::deserializeImpactOperator( i ); }
static void get( Fs& x, std::istream& i ) { x = CMU::deserializeFrictionSolver( i ); }
static void get( Im& x, std::istream& i ) { x = CMU::deserializeImpactMap( i ); }
static void get( Fm& x, std::istream& i ) { x = CMU::deserializeImpactFrictionMap( i ); }
static void get( Um& x, std::istream& i ) { x = UTIL::deserializeUnconstrainedMap( i ); }
// the draws a part is made from, kept so that another part can be made that differs in one of them
struct Draws
{
  Rng& g; std::vector<std::uint64_t> tape; std::size_t at = 0;
  explicit Draws( Rng& r ) : g( r ) {}
  std::uint64_t next() { if( at == tape.size() ) tape.push_back( g.next() ); return tape[at++]; }
  int i( int lo, int hi ) { return lo + int( next() % std::uint64_t( hi - lo + 1 ) ); }
  double u() { return double( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
  double d( double lo, double hi ) { return lo + ( hi - lo ) * u(); }
  bool b( double p = 0.5 ) { return u() < p; }
};
// a part together with the description it was made from
template<typename T> struct Made { T x; std::string p; };
// neighbours in these lists are told apart by a last digit or by a high byte only
static double coarse( Draws& g ) { const double t[] = { 1.0e-1, 0.1 + 1.0e-15, 1.0e-3, 1.0e-3 + 1.0e-17, 0.25, 0.25 + 1.0e-9, 1.0e-6, 1.0e-6 + 1.0e-20 }; const int k = g.i( 0, 9 ); return k < 8 ? t[k] : g.d( 1.0e-8, 0.5 ); }
static unsigned many( Draws& g ) { const unsigned t[] = { 44u, 300u, 65580u, 16777260u, 2147483692u, 7u, 1u }; const int k = g.i( 0, 13 ); return k < 7 ? t[k] : unsigned( g.i( 1, 60 ) ); }
static std::string N( const double x ) { return num( x ); }
static Made<Op> lcp( Draws& g ) { const double t = coarse( g ); const unsigned n = many( g ); return { Op( new LCPOperatorAPGD( t, n ) ), "lcp(" + N( t ) + "," + N( n ) + ")" }; }
static Made<Op> makeOp( Draws& g, const int k )
{
  if( k == 0 ) return { Op(), "none" };
  if( k == 1 ) return lcp( g );
  if( k == 2 ) { const double t = coarse( g ); return { Op( new GaussSeidelOperator( t ) ), "gs(" + N( t ) + ")" }; }
  if( k == 3 ) { Made<Op> i = lcp( g ); const double t = coarse( g ); return { Op( new GROperator( t, *i.x ) ), "gr(" + N( t ) + "," + i.p + ")" }; }
  Made<Op> e = makeOp( g, g.i( 1, 3 ) ), i = lcp( g ); return { Op( new GRROperator( *e.x, *i.x ) ), "grr(" + e.p + "," + i.p + ")" };
}
static Made<Fs> makeFs( Draws& g, const int k )
{
  if( k == 0 ) return { Fs(), "none" };
  if( k == 1 ) { const SobogusSolverType t[] = { SobogusSolverType::Balls2D, SobogusSolverType::RigidBody2D, SobogusSolverType::RigidBodies3D }; const int i = g.i( 0, 2 ); const unsigned e = many( g ); return { Fs( new Sobogus( t[i], e ) ), "sobogus(" + N( i ) + "," + N( e ) + ")" }; }
  Made<Op> o = makeOp( g, g.i( 1, 4 ) );
  if( k == 2 ) { const bool a = g.b(), b = g.b(); return { Fs( new StaggeredProjections( a, b, *o.x, NoFriction() ) ), "sp(" + N( a ) + "," + N( b ) + "," + o.p + ")" }; }
  return { Fs( new GRRFriction( *o.x, NoFriction() ) ), "grrf(" + o.p + ")" };
}
static Made<Im> makeIm( Draws& g, const int k ) { if( k == 0 ) return { Im(), "none" }; const bool w = g.b(); return { Im( new ImpactMap( w ) ), "imap(" + N( w ) + ")" }; }
static Made<Fm> makeFm( Draws& g, const int k )
{
  if( k == 0 ) return { Fm(), "none" };
  const double t = coarse( g ); const unsigned n = many( g ); const ImpulsesToCache c[] = { ImpulsesToCache::NONE, ImpulsesToCache::NORMAL, ImpulsesToCache::NORMAL_AND_FRICTION }; const int ci = g.i( 0, 2 );
  const bool a = g.b(), b = g.b(); const double p = g.b( 0.2 ) ? 0.0 : coarse( g ); const std::string h = "(" + N( t ) + "," + N( n ) + ",";
  if( k == 1 ) return { Fm( new GeometricImpactFrictionMap( t, n, c[ci] ) ), "geo" + h + N( ci ) + ")" };
  if( k == 2 ) return { Fm( new StabilizedImpactFrictionMap( t, n, a, b ) ), "stab" + h + N( a ) + "," + N( b ) + ")" };
  return { Fm( new SymplecticEulerImpactFrictionMap( t, n, c[ci], a, p ) ), "se" + h + N( ci ) + "," + N( a ) + "," + N( p ) + ")" };
}
static Made<Um> makeUm( Draws&, const int k )
{
#if WHICH == 3
  if( k == 0 ) return { Um(), "none" };
  if( k == 1 ) return { Um( new DMVMap ), "dmv" };
  if( k == 2 ) return { Um( new SplitHamMap ), "ham" };
  return { Um( new ExponentialEulerMap ), "exp" };
#else
  if( k % 2 ) return { Um( new VerletMap ), "verlet" };
  return { Um( new SymplecticEulerMap ), "se" };
#endif
}
template<typename T> std::string bytes( const T& x ) { std::ostringstream o( std::ios::binary ); put( x, o ); return o.str(); }
// what the operator answers for a given contact problem; operators that resolve contacts themselves or do not end are left out
static std::string answer( const Op& op, const std::uint64_t seed )
{
  Rng g( seed ); const int nd = g.i( 2, 5 ), nc = g.i( 1, 4 ); MatrixXXsc Nn( nd, nc ), Mi = MatrixXXsc::Zero( nd, nd ); VectorXs v( nd ), q = VectorXs::Zero( nd ), nrel = VectorXs::Zero( nc ), a( nc );
  for( int j = 0; j < nc; ++j ) { for( int i = 0; i < nd; ++i ) Nn( i, j ) = g.d( 0, 1 ); a( j ) = g.d( 0, 1 ); }
  for( int i = 0; i < nd; ++i ) { Mi( i, i ) = g.d( 0.5, 2 ); v( i ) = g.d( -2, 1 ); }
  const VectorXs cor = VectorXs::Constant( nc, g.u() ); const SparseMatrixsc Ns = Nn.sparseView(), Ms = Mi.sparseView(), M = MatrixXXsc( Mi.inverse() ).sparseView(), Q = Ns.transpose() * Ms * Ns; std::vector<std::unique_ptr<Constraint>> none;
  op->flow( none, M, Ms, q, v, v, Ns, Q, nrel, cor, a ); return vec( a );
}
static void behave( SubObj& o, const Op& a, const Op& b, const std::string& p, const std::uint64_t seed )
{
  const bool ask = p.compare( 0, 3, "lcp" ) == 0 || p.compare( 0, 7, "grr(lcp" ) == 0;
  if( ask ) { const Op c = a->clone(); o.raw( "was", answer( a, seed ) ).raw( "now", answer( b, seed ) ).raw( "copy", answer( c, seed ) ).n( "asbytes", bytes( c ) == bytes( a ) ); }
  else if( a ) { const Op c = a->clone(); o.n( "asbytes", bytes( c ) == bytes( a ) ); }
}
template<typename T> void behave( SubObj&, const T&, const T&, const std::string&, std::uint64_t ) {}
template<typename T, typename F> void round( Out& out, Rng& g, const char* kind, F make, const int kinds )
{
  const int k = g.i( 0, kinds ); Draws da( g ); Made<T> a = make( da, k ); Draws db( g );
  // the other parts: one made independently, and those that differ in one draw only
  Made<T> b = make( db, g.b( 0.7 ) ? k : g.i( 0, kinds ) ); std::vector<Made<T>> twins;
  for( std::size_t i = 0; i < da.tape.size(); ++i ) { for( const std::uint64_t by : { std::uint64_t( 1 ), ~std::uint64_t( 0 ), std::uint64_t( 1 ) << 62 } ) { Draws dt( g ); dt.tape = da.tape; dt.tape[i] += by; twins.push_back( make( dt, k ) ); } } const std::uint64_t seed = std::uint64_t( g.i( 1, 1 << 30 ) );
  std::fflush( out.f ); int fd[2]; if( pipe( fd ) ) std::abort();
  const pid_t pid = fork();
  if( pid == 0 )
  {
    if( std::getenv( "SHOWERR" ) == nullptr && std::freopen( "/dev/null", "w", stderr ) == nullptr ) _exit( 98 );
    std::stringstream st( std::ios::in | std::ios::out | std::ios::binary ); put( a.x, st ); const std::string was = st.str(); st.write( "SENTINEL", 8 );
    T x; get( x, st ); char e[9] = { 0 }; st.read( e, 8 );
    SubObj o; o.t( "name", nm( a.x ) ).t( "back", nm( x ) ).n( "rest", st.gcount() == 8 && std::strcmp( e, "SENTINEL" ) == 0 ).n( "again", bytes( x ) == was ).n( "alike", bytes( b.x ) == was );
    std::vector<std::string> tw; for( const Made<T>& m : twins ) { tw.push_back( SubObj().t( "p", m.p ).n( "alike", bytes( m.x ) == was ).done() ); } o.raw( "twins", arr( tw ) );
    behave( o, a.x, x, a.p, seed );
    const std::string s = o.done(); std::size_t done = 0; while( done < s.size() ) { const ssize_t w = write( fd[1], s.data() + done, s.size() - done ); if( w <= 0 ) _exit( 97 ); done += std::size_t( w ); }
    _exit( 0 );
  }
  close( fd[1] ); std::string got; char buf[4096]; ssize_t r; while( ( r = read( fd[0], buf, sizeof buf ) ) > 0 ) got.append( buf, std::size_t( r ) ); close( fd[0] );
  int st = 0; waitpid( pid, &st, 0 ); const int code = WIFEXITED( st ) ? WEXITSTATUS( st ) : 99;
  Obj ev( "part" ); ev.t( "kind", kind ).t( "p", a.p ).t( "p2", b.p ).n( "code", code ); if( code == 0 ) ev.raw( "r", got ); out.put( ev );
}
int main( int, char** argv )
{
  Rng g( std::strtoull( argv[1], nullptr, 10 ) ); const int n = std::atoi( argv[2] ); Out out( argv[3] );
  for( int i = 0; i < n; ++i )
  {
    round<Op>( out, g, "impact_operator", makeOp, 4 ); round<Fs>( out, g, "friction_solver", makeFs, 3 ); round<Im>( out, g, "impact_map", makeIm, 1 ); round<Fm>( out, g, "friction_map", makeFm, 3 ); round<Um>( out, g, "integrator", makeUm, 3 );
  }
  return 0;
}
