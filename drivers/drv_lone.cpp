// Runs of round bodies that mostly have a single contact each, with the real detection, maps and solvers.
//   drv_lone <seed> <n> <out.ndjson>
#define SCRIPT_DEFS
#include "sim_adapt.h"
#include "rec_ops.h"
#include "scisim/ConstrainedMaps/Sobogus.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GRROperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.h"
using namespace vj;
typedef std::vector<std::unique_ptr<Constraint>> Cons;
struct Seen { std::vector<std::string> cs; bool ok = true; };
static void look( const Cons& as, Seen& s )
{
  for( const auto& c : as )
  {
    std::pair<int,int> b, a; c->getSimulatedBodyIndices( b ); c->getBodyIndices( a );
    s.cs.push_back( SubObj().n( "i", b.first + 1 ).n( "j", b.second + 1 ).n( "o", b.second < 0 ? a.second + 1 : 0 ).done() );
  }
}
struct Op final : public ImpactOperator
{
  std::unique_ptr<ImpactOperator> in; Seen& s; const bool check;
  Op( std::unique_ptr<ImpactOperator> o, Seen& se, const bool ch ) : in( std::move( o ) ), s( se ), check( ch ) {}
  virtual void flow( const Cons& as, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  {
    in->flow( as, M, Minv, q0, v0, v0F, N, Q, nrel, CoR, alpha ); look( as, s );
    if( !check ) return;
    const VectorXs w = N.transpose() * ( v0F + Minv * ( N * alpha ) ) + ( N.transpose() * v0 ).cwiseProduct( CoR ) + ( nrel.array() * ( 1.0 + CoR.array() ) ).matrix();
    for( int k = 0; k < alpha.size(); ++k ) s.ok = s.ok && std::fabs( std::min( double( w( k ) ), double( alpha( k ) ) ) ) < 1.0e-8;
  }
  virtual std::string name() const override { return in->name(); }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new Op( in->clone(), s, check ) ); }
  virtual void serialize( std::ostream& ) const override {}
};
struct Solver final : public FrictionSolver
{
  Sobogus in; Seen& s;
  Solver( Seen& se ) : in( WHICH == 1 ? SobogusSolverType::Balls2D : WHICH == 2 ? SobogusSolverType::RigidBody2D : SobogusSolverType::RigidBodies3D, 1 ), s( se ) {}
  virtual void solve( const unsigned it, const scalar& dt, const FlowableSystem& fs, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& CoR, const VectorXs& mu, const VectorXs& q0, const VectorXs& v0, Cons& as, const MatrixXXsc& B, const VectorXs& nx, const VectorXs& dx, const unsigned max, const scalar& tol, VectorXs& force, VectorXs& alpha, VectorXs& beta, VectorXs& vo, bool& ok, scalar& err ) override
  { in.solve( it, dt, fs, M, Minv, CoR, mu, q0, v0, as, B, nx, dx, max, tol, force, alpha, beta, vo, ok, err ); look( as, s ); s.ok = s.ok && ok; }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return in.numFrictionImpulsesPerNormal( d ); }
  virtual void serialize( std::ostream& ) const override {}
  virtual std::string name() const override { return in.name(); }
};
#if WHICH == 3
typedef Vector3s V;
#else
typedef Vector2s V;
#endif
static V dir( Rng& g ) { V x; do for( int a = 0; a < DIM; ++a ) x( a ) = g.d( -1, 1 ); while( x.norm() < 0.2 || x.norm() > 1.0 ); return x.normalized(); }
static V across( Rng& g, const V& n ) { V t; do { t = dir( g ); t -= t.dot( n ) * n; } while( t.norm() < 0.1 ); return t.normalized(); }
static V some( Rng& g, const double s ) { V x; for( int a = 0; a < DIM; ++a ) x( a ) = g.d( -s, s ); return x; }
struct Body { V x, v; double r, rho; bool fixed; bool box = false; double ry = 0.0, turn = 0.0; };
int main( int, char** argv )
{
  Out out( argv[3] ); Rng g( std::strtoull( argv[1], nullptr, 10 ) * 29 + WHICH ); const int n = std::atoi( argv[2] );
  if( !std::getenv( "SHOWERR" ) ) std::freopen( "/dev/null", "w", stderr );
  for( int c = 0; c < n; ++c )
  {
    // impact: lcp, gr, grr, gauss seidel; impact and friction: geometric, stabilized, symplectic
    int which = g.i( 0, 6 ); if( which < 4 && g.b() ) which = g.i( 4, 6 ); if( WHICH == 2 && ( which == 6 || which == 3 ) ) which = g.i( 4, 5 );
    // gauss seidel between loose bodies only; in space it takes planes too
    int kind = which == 3 && WHICH == 1 ? 0 : g.b( 0.25 ) ? 0 : WHICH == 2 ? 1 : which == 3 ? 1 : g.b( 0.7 ) ? 1 : 2; const bool moving = g.b( 0.3 ) && kind == 1 && which != 3;
    const V nw = dir( g ), t = across( g, nw ), xw = some( g, 3.0 ); const double R = g.d( 6, 9 );
    const bool rest = g.b( 0.4 ); std::vector<Body> bs; const int islands = g.i( 1, 3 ); const double first = g.d( 0, 6.28 );
    for( int k = 0; k < islands; ++k )
    {
      // the place of this island on the wall, and the wall's normal there
      V nk = nw, at = xw + 5.0 * k * t;
      if( kind == 2 )
      {
        const double a = first + 1.6 * k; 
#if WHICH == 3
        const V u = nw.cross( t ); nk = -( std::cos( a ) * t + std::sin( a ) * u ); at = xw - R * nk + g.d( -3, 3 ) * nw;
#else
        nk = -V( std::cos( a ), std::sin( a ) ); at = xw - R * nk;
#endif
      }
      const double sp = rest ? 0.0 : g.d( 0.1, 4 ); Body b; b.fixed = false; b.r = g.d( 0.2, 0.8 ); b.rho = g.d( 0.3, 4.0 ); b.v = sp * dir( g );
      int what = g.i( 0, 4 ); if( kind == 0 && what < 3 ) what = 3; if( WHICH == 1 && what == 4 ) what = 3; if( what == 4 && which == 3 ) what = 3;
      const double gap = g.b( 0.3 ) ? 0.0 : g.d( -0.02, 0.02 );
#if WHICH == 2
      // a box that reaches the wall with a corner
      if( what < 2 && which >= 4 && !moving ) { b.box = true; b.ry = g.d( 0.2, 0.8 ); b.turn = g.d( -3, 3 ); const double c = std::cos( b.turn ), s = std::sin( b.turn ), low = std::fabs( b.r * ( c * nk.x() + s * nk.y() ) ) + std::fabs( b.ry * ( -s * nk.x() + c * nk.y() ) ); b.x = at + ( low + gap ) * nk; bs.push_back( b ); continue; }
#endif
      if( what < 3 ) { b.x = at + ( b.r + gap ) * nk; bs.push_back( b ); }
      else
      {
        b.x = at + 2.6 * nk; const V d = dir( g ); Body o; o.fixed = what == 4; o.r = g.d( 0.2, 0.8 ); o.rho = g.d( 0.3, 4.0 ); o.x = b.x + ( b.r + o.r + gap ) * d; o.v = g.b() ? V( some( g, 2.0 ) ) : V( b.v - g.d( 0, 3 ) * d );
#if WHICH == 3
        if( o.fixed ) o.v.setZero();
#endif
        if( g.b() ) { bs.push_back( b ); bs.push_back( o ); } else { bs.push_back( o ); bs.push_back( b ); }
      }
    }
    if( WHICH == 3 && which == 3 ) { bool f = false; for( const Body& b : bs ) f = f || b.fixed; if( f ) { --c; continue; } }
    S::Scene s; const int N = int( bs.size() ); VectorXs spin = VectorXs::Zero( N * ( WHICH == 3 ? 3 : 1 ) ); if( !rest || g.b( 0.2 ) ) for( int k = 0; k < spin.size(); ++k ) spin( k ) = g.d( -3, 3 );
    SubObj wl; wl.t( "kind", kind == 0 ? "none" : kind == 1 ? "plane" : WHICH == 3 ? "cyl" : "drum" ).v( "x", VectorXs( xw ) ).v( "n", VectorXs( nw ) ).n( "r", R );
    V vw = V::Zero(); if( moving ) vw = some( g, 1.5 );
#if WHICH == 1
    s.q0.resize( 2 * N ); s.v.resize( 2 * N ); for( int i = 0; i < N; ++i ) { s.q0.segment<2>( 2 * i ) = bs[i].x; s.v.segment<2>( 2 * i ) = bs[i].v; s.r.push_back( bs[i].r ); s.m.push_back( bs[i].rho ); s.fixed.push_back( false ); }
    if( kind == 1 ) s.planes.push_back( S::Scene::P{ xw, nw, vw } ); if( kind == 2 ) s.drums.push_back( S::Scene::D{ xw, R } );
    wl.v( "v", VectorXs( vw ) );
#elif WHICH == 2
    s.q0.resize( 3 * N ); s.v.resize( 3 * N );
    for( int i = 0; i < N; ++i ) { s.q0.segment<3>( 3 * i ) << bs[i].x, bs[i].box ? bs[i].turn : g.d( -3, 3 ); s.v.segment<3>( 3 * i ) << bs[i].v, spin( i ); s.geos.push_back( S::Geo{ bs[i].box, bs[i].r, bs[i].ry } ); s.gi.push_back( unsigned( i ) ); s.rho.push_back( bs[i].rho ); s.fixed.push_back( bs[i].fixed ); }
    const double ww = moving && g.b() ? g.d( -0.3, 0.3 ) : 0.0; if( kind == 1 ) s.planes.push_back( S::Scene::P{ xw, nw, vw, ww } );
    wl.v( "v", VectorXs( vw ) ).n( "w", ww );
#else
    s.resize( N );
    for( int i = 0; i < N; ++i )
    {
      s.place( s.q0, N, i, bs[i].x, Eigen::AngleAxis<scalar>( g.d( -3, 3 ), dir( g ) ).toRotationMatrix() ); s.v.segment<3>( 3 * i ) = bs[i].v; s.v.segment<3>( 3 * N + 3 * i ) = bs[i].fixed ? Vector3s( 0, 0, 0 ) : Vector3s( spin.segment<3>( 3 * i ) );
      s.geos.push_back( S::Geo{ 0, Vector3s::Constant( bs[i].r ) } ); s.gi.push_back( unsigned( i ) ); s.rho.push_back( bs[i].rho ); s.fixed.push_back( bs[i].fixed );
    }
    V ww = V::Zero(); if( moving && g.b() ) ww = some( g, 0.3 );
    if( kind == 1 ) s.planes.push_back( S::Plane{ xw, nw, vw, ww } ); if( kind == 2 ) { if( g.b( 0.3 ) ) ww = some( g, 0.3 ); s.cyls.push_back( S::Cyl{ xw, nw, R, ww } ); }
    wl.v( "v", VectorXs( vw ) ).v( "w", VectorXs( ww ) );
#endif
    s.q1 = s.q0; Sim sim; fill( s, sim );
    // a field that presses towards the wall, at every slope
    Vector3s acc( 0, 0, 0 ); if( g.b( 0.75 ) ) { V a = 9.0 * ( g.b( 0.8 ) ? V( -nw + g.d( 0, 1.2 ) * t ) : dir( g ) ); acc.head( DIM ) = a; gravity( sim, acc ); }
    const Rat dt( g.i( 1, 3 ), g.i( 60, 400 ) ); const double cor0 = which == 6 || g.b( 0.4 ) ? 0.0 : g.b( 0.3 ) ? 1.0 : g.u(), mu = which < 4 || g.b( 0.15 ) ? 0.0 : g.b( 0.1 ) ? g.d( 2, 40 ) : g.d( 0, 1.2 ), cor = which == 3 ? 0.7 * cor0 : cor0;
    bool anyfixed = false; for( const Body& b : bs ) anyfixed = anyfixed || b.fixed;
    std::unique_ptr<UnconstrainedMap> um( makeMap( WHICH == 3 && anyfixed ? g.i( 0, 1 ) : g.i( 0, 5 ) ) ); PythonScripting none; Seen seen;
    std::unique_ptr<ImpactOperator> raw; std::unique_ptr<ImpactOperator> l( new LCPOperatorAPGD( 1.0e-12, 100000 ) );
    if( which == 1 ) raw.reset( new GROperator( 1.0e-9, *l ) ); else if( which == 2 ) { GROperator gr( 1.0e-9, *l ); raw.reset( new GRROperator( *l, gr ) ); } else if( which == 3 ) raw.reset( new GaussSeidelOperator( 1.0e-10 ) ); else raw = l->clone();
    Op op( std::move( raw ), seen, which == 0 ); ImpactMap im( false ); Solver so( seen ); std::unique_ptr<ImpactFrictionMap> ifm;
    if( which == 4 ) ifm.reset( new GeometricImpactFrictionMap( 1.0e-14, 5000, ImpulsesToCache::NONE ) ); else if( which == 5 ) ifm.reset( new StabilizedImpactFrictionMap( 1.0e-14, 5000, g.b(), g.b() ) ); else if( which == 6 ) ifm.reset( new SymplecticEulerImpactFrictionMap( 1.0e-14, 5000, ImpulsesToCache::NONE, false, 0.0 ) );
    static const char* const NAMES[] = { "lcp", "gr", "grr", "gs", "geometric", "stabilized", "symplectic" };
    Obj o( "world" ); o.t( "lay", LAY ).n( "n", N ).v( "g", VectorXs( acc.head( DIM ) ) ).t( "map", NAMES[which] ).t( "umap", um->name() ).n( "cor", cor ).n( "mu", mu ).n( "dt", double( scalar( dt ) ) );
    std::vector<std::string> m, I, fx, rr, bx;
    for( int i = 0; i < N; ++i )
    {
      rr.push_back( num( bs[i].r ) ); bx.push_back( SubObj().n( "is", bs[i].box ).raw( "h", "[" + num( bs[i].r ) + "," + num( bs[i].ry ) + "]" ).done() ); fx.push_back( num( bs[i].fixed ) );
#if WHICH == 1
      m.push_back( num( double( sim.state().M().coeff( 2 * i, 2 * i ) ) ) );
#elif WHICH == 2
      m.push_back( num( double( sim.state().m( i ) ) ) ); I.push_back( num( double( sim.state().I( i ) ) ) );
#else
      m.push_back( num( double( sim.state().M0().coeff( 3 * i, 3 * i ) ) ) ); std::vector<std::string> d; for( int a = 0; a < 3; ++a ) d.push_back( num( double( sim.state().M0().coeff( 3 * N + 3 * i + a, 3 * N + 3 * i + a ) ) ) ); I.push_back( arr( d ) );
#endif
    }
    o.raw( "m", arr( m ) ).raw( "I", arr( I ) ).raw( "r", arr( rr ) ).raw( "box", arr( bx ) ).raw( "fixed", arr( fx ) ).raw( "wall", wl.done() ).v( "q", sim.state().q() ).v( "v", sim.state().v() );
    out.put( o );
    const int steps = g.b( 0.2 ) ? g.i( 15, 40 ) : g.i( 2, 6 ); const unsigned it0 = unsigned( g.i( 1, 500 ) );
    for( int k = 0; k < steps; ++k )
    {
#if WHICH == 3
      bool whirl = false; for( int i = 0; i < N; ++i ) whirl = whirl || double( scalar( dt ) ) * sim.state().v().segment<3>( 3 * N + 3 * i ).norm() > 0.5;
      if( whirl && um->name() == "dmv" ) break;
#endif
      seen.cs.clear(); seen.ok = true;
      if( which < 4 )
#if WHICH == 3
        sim.flow( none, it0 + k, dt, *um, op, cor );
#else
        sim.flow( none, it0 + k, dt, *um, op, cor, im );
#endif
      else sim.flow( none, it0 + k, dt, *um, cor, mu, so, *ifm );
      out.put( Obj( "step" ).raw( "cs", arr( seen.cs ) ).n( "ok", seen.ok ).v( "q", sim.state().q() ).v( "v", sim.state().v() ) );
    }
  }
  return 0;
}
