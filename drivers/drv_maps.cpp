// Histories of the impact maps, and of the warm start cache, on real scenes.
//   drv_maps flows <seed> <n> <out.ndjson> | cache <behaviours.json> <seed> <n> <out.ndjson>
#include "sim_adapt.h"
#include "rec_ops.h"
#include "scisim/ConstrainedMaps/GeometricImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/StabilizedImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/SymplecticEulerImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/ImpulsesToCache.h"
#include "scisim/ConstrainedMaps/ConstrainedMapUtilities.h"
#include "scisim/ScriptingCallback.h"
#include <sstream>
using namespace vj;
typedef std::vector<std::unique_ptr<Constraint>> Cons;
static bool isStatic( const Constraint& c ) { return c.name().compare( 0, 7, "static_" ) == 0 && c.name() != "static_cylinder_body"; }
static bool hasGrad( const Constraint& c ) { return c.name() != "static_cylinder_body" && ( WHICH != 2 || ( c.name() != "body_body" && c.name() != "static_plane_body" ) ); }
static std::string key( const Constraint& c )
{
  std::pair<int,int> b; if( c.name() == "static_cylinder_body" ) c.getSimulatedBodyIndices( b ); else c.getBodyIndices( b );
  return c.name() + ":" + std::to_string( std::min( b.first, b.second ) ) + ":" + std::to_string( std::max( b.first, b.second ) ) + ":" + ( isStatic( c ) ? std::to_string( c.getStaticObjectIndex() ) : "" );
}
static std::string keys( const Cons& c ) { std::vector<std::string> r; for( const auto& k : c ) r.push_back( str( key( *k ) ) ); return arr( r ); }
static bool hasGap( const Constraint& c )
{
  const std::string n = c.name();
#if WHICH == 1
  return n == "ball_ball" || n == "static_plane_constraint";
#elif WHICH == 2
  return false;
#else
  return n == "sphere_sphere" || n == "static_plane_sphere" || n == "static_cylinder_sphere" || n == "kinematic_sphere_sphere";
#endif
}
static bool hasTangent( const Constraint& c )
{
#if WHICH == 2
  return c.name() == "circle_circle";
#else
  return c.name() != "static_cylinder_body";
#endif
}
// What a contact is, at q and v: direction of its normal and tangents in the generalised velocities, prescribed normal velocity, gap
static std::string contacts( const Cons& cs, const FlowableSystem& f, const VectorXs& q, const VectorXs& v )
{
  std::vector<std::string> r; const int nd = int( v.size() );
  for( const auto& c : cs )
  {
    MatrixXXsc B; c->computeBasis( q, v, B );
    SparseMatrixsc N( nd, 1 ); Eigen::VectorXi nz( 1 ); if( hasGrad( *c ) ) { nz( 0 ) = c->impactStencilSize(); N.reserve( nz ); c->evalgradg( q, 0, N, f ); }
    const VectorXs n = N.col( 0 ); std::vector<std::string> D;
    if( hasTangent( *c ) )
      for( int k = 1; k < DIM; ++k ) { SparseMatrixsc T( nd, 1 ); nz( 0 ) = c->frictionStencilSize(); T.reserve( nz ); const VectorXs t = B.col( k ); c->computeGeneralizedFrictionGivenTangentSample( q, t, 0, T ); D.push_back( vec( VectorXs( T.col( 0 ) ) ) ); }
    const VectorXs rel = c->computeRelativeVelocity( q, v );
    r.push_back( SubObj().t( "key", key( *c ) ).raw( "b", cols( B ) ).v( "n", n ).raw( "d", arr( D ) ).n( "kn", double( rel.dot( B.col( 0 ) ) - n.dot( v ) ) ).n( "gap", hasGap( *c ) ? double( c->evaluateGapFunction( q ) ) : 0.0 ).done() );
  }
  return arr( r );
}
struct RecFlow final : public FlowableSystem
{
  Sim& sim; VectorXs F; mutable std::vector<std::string> lin; std::vector<std::string> forces;
  RecFlow( Sim& s ) : sim( s ) {}
  virtual int nqdofs() const override { return fs().nqdofs(); }
  virtual int nvdofs() const override { return fs().nvdofs(); }
  virtual unsigned numVelDoFsPerBody() const override { return fs().numVelDoFsPerBody(); }
  virtual unsigned ambientSpaceDimensions() const override { return fs().ambientSpaceDimensions(); }
  virtual bool isKinematicallyScripted( const int i ) const override { return fs().isKinematicallyScripted( i ); }
  virtual void computeForce( const VectorXs& q, const VectorXs& v, const scalar&, VectorXs& f ) override { forces.push_back( SubObj().v( "q", q ).v( "v", v ).done() ); f = F; }
  virtual void zeroOutForcesOnFixedBodies( VectorXs& f ) const override { fs().zeroOutForcesOnFixedBodies( f ); }
  virtual void linearInertialConfigurationUpdate( const VectorXs& q0, const VectorXs& v0, const scalar& dt, VectorXs& q1 ) const override
  { SubObj o; o.v( "q", q0 ).v( "v", v0 ).n( "dt", double( dt ) ); fs().linearInertialConfigurationUpdate( q0, v0, dt, q1 ); lin.push_back( o.v( "q1", q1 ).done() ); }
  virtual const SparseMatrixsc& M() const override { return fs().M(); }
  virtual const SparseMatrixsc& Minv() const override { return fs().Minv(); }
  virtual const SparseMatrixsc& M0() const override { return fs().M0(); }
  virtual const SparseMatrixsc& Minv0() const override { return fs().Minv0(); }
  virtual void computeMomentum( const VectorXs& v, VectorXs& p ) const override { fs().computeMomentum( v, p ); }
  virtual void computeAngularMomentum( const VectorXs& v, VectorXs& L ) const override { fs().computeAngularMomentum( v, L ); }
  virtual std::string name() const override { return fs().name(); }
  FlowableSystem& fs() const { return fsys( sim ); }
};
struct RecCon final : public ConstrainedSystem
{
  Sim& sim; std::vector<std::string> active; std::vector<Cons> kept; std::string ks;
  RecCon( Sim& s ) : sim( s ) {}
  ConstrainedSystem& cs() const { return csys( sim ); }
  virtual void computeActiveSet( const VectorXs& q0, const VectorXs& q1, const VectorXs& v, Cons& a ) override
  {
    cs().computeActiveSet( q0, q1, v, a ); ks = keys( a );
    active.push_back( SubObj().v( "q", q0 ).v( "q1", q1 ).v( "v", v ).raw( "keys", ks ).done() );
    kept.emplace_back(); cs().computeActiveSet( q0, q1, v, kept.back() );
  }
  virtual void computeImpactBases( const VectorXs& q, const Cons& a, MatrixXXsc& b ) const override { cs().computeImpactBases( q, a, b ); }
  virtual void computeContactBases( const VectorXs& q, const VectorXs& v, const Cons& a, MatrixXXsc& b ) const override { cs().computeContactBases( q, v, a, b ); }
  virtual void clearConstraintCache() override { cs().clearConstraintCache(); }
  virtual void cacheConstraint( const Constraint& c, const VectorXs& r ) override { cs().cacheConstraint( c, r ); }
  virtual void getCachedConstraintImpulse( const Constraint& c, VectorXs& r ) const override { cs().getCachedConstraintImpulse( c, r ); }
  virtual bool constraintCacheEmpty() const override { return cs().constraintCacheEmpty(); }
  // every contact there ever was, asked for again
  std::string all( const int size ) const
  {
    std::map<std::string,std::string> m;
    if( size > 0 ) for( const auto& s : kept ) for( const auto& c : s ) { VectorXs r = VectorXs::Constant( size, 3.5 ); cs().getCachedConstraintImpulse( *c, r ); m[key( *c )] = SubObj().t( "key", key( *c ) ).v( "r", r ).done(); }
    std::vector<std::string> v; for( const auto& k : m ) v.push_back( k.second ); return arr( v );
  }
};
struct TwoMap final : public UnconstrainedMap
{
  VectorXs q[2], v[2]; std::vector<std::string> calls; const FlowableSystem* f = nullptr; bool same = true;
  virtual void flow( const VectorXs& q0, const VectorXs& v0, FlowableSystem& fs, const unsigned it, const scalar& dt, VectorXs& qo, VectorXs& vo ) override
  {
    SubObj o; o.v( "q", q0 ).v( "v", v0 ).n( "it", it ).n( "dt", double( dt ) ); same = same && &fs == f; const int k = calls.empty() ? 0 : 1;
    qo = q[k]; vo = v[k]; calls.push_back( o.v( "q1", qo ).v( "v1", vo ).done() );
  }
  virtual std::string name() const override { return "two"; }
  virtual void serialize( std::ostream& ) const override {}
};
static bool same( const SparseMatrixsc& a, const SparseMatrixsc& b ) { return a.rows() == b.rows() && a.cols() == b.cols() && MatrixXXsc( a ) == MatrixXXsc( b ); }
struct RecSolver final : public FrictionSolver
{
  Rng& g; const FlowableSystem* f = nullptr; std::vector<std::string> calls;
  RecSolver( Rng& r ) : g( r ) {}
  virtual void solve( const unsigned it, const scalar& dt, const FlowableSystem& fs, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& CoR, const VectorXs& mu, const VectorXs& q0, const VectorXs& v0, Cons& as, const MatrixXXsc& B, const VectorXs& nx, const VectorXs& dx, const unsigned max, const scalar& tol, VectorXs& force, VectorXs& alpha, VectorXs& beta, VectorXs& vo, bool& ok, scalar& err ) override
  {
    SubObj o; o.n( "it", it ).n( "dt", double( dt ) ).n( "args", &fs == f && same( M, fs.M() ) && same( Minv, fs.Minv() ) ).v( "cor", CoR ).v( "mu", mu ).v( "q", q0 ).v( "v", v0 ).raw( "cs", contacts( as, fs, q0, v0 ) );
    std::vector<std::string> b; for( int c = 0; c < B.cols() / DIM; ++c ) b.push_back( cols( MatrixXXsc( B.block( 0, DIM * c, DIM, DIM ) ) ) );
    o.raw( "b", arr( b ) ).v( "nx", nx ).v( "dx", dx ).n( "max", max ).n( "tol", double( tol ) ).v( "f0", force ).v( "a0", alpha ).v( "b0", beta );
    for( int i = 0; i < alpha.size(); ++i ) alpha( i ) = g.b( 0.2 ) ? 0.0 : g.d( 0, 2 );
    for( int i = 0; i < beta.size(); ++i ) beta( i ) = g.b( 0.2 ) ? 0.0 : g.d( -1, 1 );
    force.resize( v0.size() ); vo.resize( v0.size() );
    for( int i = 0; i < v0.size(); ++i ) { force( i ) = g.d( -1, 1 ); vo( i ) = g.d( -2, 2 ); }
    ok = g.b( 0.8 ); err = ok ? 1.0e-9 : 0.25;
    calls.push_back( o.v( "a", alpha ).v( "bo", beta ).v( "f", force ).v( "vo", vo ).done() );
  }
  virtual unsigned numFrictionImpulsesPerNormal( const unsigned d ) const override { return d - 1; }
  virtual void serialize( std::ostream& ) const override {}
  virtual std::string name() const override { return "rec"; }
};
struct RandomOp final : public ImpactOperator
{
  Rng& g; const FlowableSystem* f = nullptr; std::vector<std::string> calls;
  RandomOp( Rng& r ) : g( r ) {}
  virtual void flow( const Cons& as, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  {
    SubObj o; o.n( "args", same( M, f->M() ) && same( Minv, f->Minv() ) ).v( "q", q0 ).v( "v", v0 ).v( "vF", v0F ).raw( "N", spcols( N ) ).raw( "Q", spcols( Q ) ).v( "nx", nrel ).v( "cor", CoR ).v( "a0", alpha ).raw( "cs", contacts( as, *f, q0, v0 ) );
    for( int i = 0; i < alpha.size(); ++i ) alpha( i ) = g.b( 0.2 ) ? 0.0 : g.d( 0, 2 );
    calls.push_back( o.v( "a", alpha ).done() );
  }
  virtual std::string name() const override { return "random"; }
  virtual std::unique_ptr<ImpactOperator> clone() const override { std::unique_ptr<RandomOp> r( new RandomOp( g ) ); r->f = f; return std::unique_ptr<ImpactOperator>( r.release() ); }
  virtual void serialize( std::ostream& ) const override {}
};
struct Coefs final : public ScriptingCallback
{
  Rng& g; bool on; std::vector<std::string> cor, mu;
  Coefs( Rng& r, const bool o ) : g( r ), on( o ) {}
  void doit( std::vector<std::string>& log, const Cons& a, VectorXs& c, const double hi ) { SubObj o; o.raw( "keys", keys( a ) ).v( "in", c ); for( int i = 0; i < c.size(); ++i ) if( g.b( 0.7 ) ) c( i ) = g.d( 0, hi ); log.push_back( o.v( "out", c ).done() ); }
  virtual void restitutionCoefficient( const Cons& a, VectorXs& c ) override { doit( cor, a, c, 1.0 ); }
  virtual void frictionCoefficient( const Cons& a, VectorXs& c ) override { doit( mu, a, c, 2.0 ); }
  virtual void startOfSim() override {}
  virtual void endOfSim() override {}
  virtual void startOfStep( const unsigned, const Rat& ) override {}
  virtual void endOfStep( const unsigned, const Rat& ) override {}
  virtual std::string name() const override { return on ? "on" : ""; }
};
// spheres, balls and circles only when impulses are to be remembered: the other contact kinds refuse
static bool pickScene( Rng& g, const bool plain, const bool gaps, const bool impact, S::Scene& s )
{
#if WHICH == 1
  s = S::randomScene( g, !plain && g.b( 0.3 ) ); if( gaps ) { s.drums.clear(); s.portals.clear(); }
#elif WHICH == 2
  s = S::randomScene( g, plain ? 1 : g.i( 0, 2 ) ); (void) gaps;
#else
  s = S::randomScene( g, plain || gaps ? 0 : g.i( 0, 3 ) ); if( impact && !plain ) s.cyls.clear();
#endif
  (void) impact; return s.n() <= 6;
}
static void move( const S::Scene& s, Rng& g, VectorXs& q0, VectorXs& q1, VectorXs& v )
{
  q0 = s.q0; q1 = s.q1; v = s.v; const int n = s.n();
  const int w = WHICH == 1 ? 2 : 3; const double far = g.b( 0.12 ) ? 40.0 : 0.0;
  for( int i = 0; i < n; ++i )
  {
    bool still = false;
#if WHICH != 1
    still = s.fixed[i];
#endif
    if( still ) continue;
    for( int k = 0; k < DIM; ++k ) { const double e = g.d( -0.15, 0.15 ) + ( k == 0 ? far * i : 0.0 ); q0( w * i + k ) += e; q1( w * i + k ) += e; }
  }
  for( int i = 0; i < v.size(); ++i ) if( g.b( 0.3 ) && v( i ) != 0.0 ) v( i ) = -v( i );
}
enum { IMPACT, GEOMETRIC, STABILIZED, SYMPLECTIC };
struct Map
{
  int kind, mode, size; double tol, thr; unsigned max; bool stab; std::unique_ptr<ImpactMap> im; std::unique_ptr<ImpactFrictionMap> ifm;
  Map( Rng& g )
  {
    kind = g.i( 0, WHICH == 2 ? 2 : 3 ); mode = g.i( 0, 2 ); tol = g.d( 1.0e-9, 1.0e-3 ); max = unsigned( g.i( 1, 1000 ) ); stab = g.b(); thr = g.b() ? 0.0 : g.d( 0.0, 0.2 );
    if( kind == IMPACT ) mode %= 2;
    if( kind == GEOMETRIC && WHICH == 3 ) mode %= 2;
    if( kind == STABILIZED ) mode = 0;
    size = mode == 0 ? 0 : mode == 1 ? 1 : WHICH == 3 ? 6 : 2;
    const ImpulsesToCache c = mode == 0 ? ImpulsesToCache::NONE : mode == 1 ? ImpulsesToCache::NORMAL : ImpulsesToCache::NORMAL_AND_FRICTION;
    if( kind == IMPACT ) im.reset( new ImpactMap( mode == 1 ) );
    else if( kind == GEOMETRIC ) ifm.reset( new GeometricImpactFrictionMap( tol, max, c ) );
    else if( kind == STABILIZED ) ifm.reset( new StabilizedImpactFrictionMap( tol, max, g.b(), g.b() ) );
    else ifm.reset( new SymplecticEulerImpactFrictionMap( tol, max, c, stab, thr ) );
  }
};
static void flows( Out& out, Rng& g, const int n )
{
  for( int c = 0; c < n; )
  {
    Map m( g ); S::Scene s; if( !pickScene( g, m.mode != 0 || ( WHICH == 2 && m.kind == IMPACT ), m.kind == SYMPLECTIC, m.kind == IMPACT, s ) ) continue;
    static const char* const NAMES[] = { "impact", "geometric", "stabilized", "symplectic" };
    out.put( Obj( "map" ).t( "kind", NAMES[m.kind] ).n( "mode", m.mode ).n( "tol", m.tol ).n( "max", m.max ).n( "stab", m.stab ).n( "thr", m.thr ).n( "dim", DIM ) );
    const int scenes = g.i( 1, 2 );
    for( int sc = 0; sc < scenes; ++sc )
    {
      if( sc && !pickScene( g, m.mode != 0 || ( WHICH == 2 && m.kind == IMPACT ), m.kind == SYMPLECTIC, m.kind == IMPACT, s ) ) continue;
      std::unique_ptr<Sim> sim( new Sim ); fill( s, *sim ); out.put( Obj( "scene" ).n( "n", s.n() ) );
      std::vector<Cons> kept; const int steps = g.i( 2, 5 );
      for( int k = 0; k < steps; ++k )
      {
        RecFlow rf( *sim ); RecCon rc( *sim ); rc.kept.swap( kept ); TwoMap um; um.f = &rf; RecSolver so( g ); so.f = &rf; RandomOp op( g ); op.f = &rf; Coefs cb( g, g.b() );
        VectorXs q0, q1, v0, v1; move( s, g, q0, q1, v0 ); const int nv = int( v0.size() );
        um.q[0] = q1; um.v[0].resize( nv ); um.q[1].resize( q0.size() ); um.v[1].resize( nv ); rf.F.resize( nv );
        for( int i = 0; i < nv; ++i ) { um.v[0]( i ) = v0( i ) + g.d( -0.5, 0.5 ); um.v[1]( i ) = g.d( -2, 2 ); rf.F( i ) = g.d( -3, 3 ); }
        for( int i = 0; i < q0.size(); ++i ) um.q[1]( i ) = g.d( -2, 2 );
        VectorXs Fz = rf.F; if( m.kind == SYMPLECTIC ) fsys( *sim ).zeroOutForcesOnFixedBodies( Fz );
        const unsigned it = unsigned( g.i( 1, 50 ) ); const double dt = g.d( 0.001, 0.2 ), cor = m.kind == SYMPLECTIC ? 0.0 : g.d( 0, 1 ), mu = g.d( 0, 2 );
        const std::string Minv = spcols( fsys( *sim ).Minv() );
        VectorXs qo = VectorXs::Constant( q0.size(), 9.0 ), vo = VectorXs::Constant( nv, 9.0 );
        if( m.im ) m.im->flow( cb, rf, rc, um, op, it, dt, cor, q0, v0, qo, vo );
        else m.ifm->flow( cb, rf, rc, um, so, it, dt, cor, mu, q0, v0, qo, vo );
        out.put( Obj( "flow" ).n( "it", it ).n( "dt", dt ).n( "cor", cor ).n( "mu", mu ).v( "q", q0 ).v( "v", v0 ).raw( "Minv", Minv ).v( "F", rf.F ).v( "Fz", Fz ).raw( "umap", arr( um.calls ) ).n( "uf", um.same )
          .raw( "active", arr( rc.active ) ).raw( "lin", arr( rf.lin ) ).raw( "forces", arr( rf.forces ) ).raw( "solves", arr( so.calls ) ).raw( "ops", arr( op.calls ) ).raw( "cbc", arr( cb.cor ) ).raw( "cbm", arr( cb.mu ) ).n( "on", cb.on )
          .v( "q1", qo ).v( "v1", vo ).raw( "after", rc.all( m.size ) ).n( "empty", csys( *sim ).constraintCacheEmpty() ) ); ++c;
        kept.swap( rc.kept );
        const int what = g.i( 0, 9 );
        if( what == 0 && m.ifm ) { m.ifm->resetCachedData(); out.put( Obj( "reset" ) ); }
        else if( what <= 2 )
        {
          std::stringstream st; sim->serialize( st ); sim.reset( new Sim ); sim->deserialize( st );
          std::stringstream ms;
          if( m.im ) { m.im->serialize( ms ); m.im.reset( new ImpactMap( ms ) ); }
          else { ConstrainedMapUtilities::serialize( m.ifm, ms ); m.ifm = ConstrainedMapUtilities::deserializeImpactFrictionMap( ms ); }
          // what is left over would be read by the next in line
          out.put( Obj( "save" ).n( "whole", ms.peek() == std::char_traits<char>::eof() && st.peek() == std::char_traits<char>::eof() && ( m.im || m.ifm ) ) );
          if( !m.im && !m.ifm ) break;
        }
      }
    }
  }
}
// one history of the cache: the keys of the behaviour stand for different contacts of a scene
static bool replay( Out& out, Rng& g, const std::vector<long>& h )
{
  S::Scene s; if( !pickScene( g, true, false, false, s ) ) return false;
  std::unique_ptr<Sim> sim( new Sim ); fill( s, *sim ); std::vector<Cons> sets( 4 ); std::map<std::string,const Constraint*> byKey;
  for( auto& a : sets ) { VectorXs q0, q1, v; move( s, g, q0, q1, v ); csys( *sim ).computeActiveSet( q0, q1, v, a ); for( const auto& c : a ) byKey[key( *c )] = c.get(); }
  if( byKey.size() < 3 ) return false;
  std::vector<const Constraint*> all; for( const auto& p : byKey ) all.push_back( p.second );
  for( std::size_t i = all.size() - 1; i > 0; --i ) std::swap( all[i], all[std::size_t( g.i( 0, int( i ) ) )] );
  const int size = g.b() ? 1 : WHICH == 3 ? 6 : 2; std::vector<std::string> ks; for( int k = 0; k < 3; ++k ) ks.push_back( str( key( *all[std::size_t( k )] ) ) );
  out.put( Obj( "new" ).raw( "keys", arr( ks ) ).n( "size", size ) );
  auto ask = [&]() { std::vector<std::string> r; for( int k = 0; k < 3; ++k ) { VectorXs x = VectorXs::Constant( size, 3.5 ); csys( *sim ).getCachedConstraintImpulse( *all[std::size_t( k )], x ); r.push_back( vec( x ) ); } return arr( r ); };
  for( std::size_t i = 0; i + 1 < h.size(); i += 2 )
  {
    const int op = int( h[i] ), k = int( h[i + 1] ); VectorXs r( size ); for( int j = 0; j < size; ++j ) r( j ) = g.b( 0.1 ) ? 0.0 : g.d( -2, 2 );
    static const char* const OPS[] = { "put", "clear", "save" };
    if( op == 0 ) csys( *sim ).cacheConstraint( *all[std::size_t( k - 1 )], r );
    else if( op == 1 ) csys( *sim ).clearConstraintCache();
    else { std::stringstream st; sim->serialize( st ); sim.reset( new Sim ); if( g.b() ) { fill( s, *sim ); csys( *sim ).cacheConstraint( *all[0], r ); } sim->deserialize( st ); }
    out.put( Obj( "op" ).t( "op", OPS[op] ).n( "k", k ).v( "r", r ).raw( "got", ask() ).n( "empty", csys( *sim ).constraintCacheEmpty() ) );
  }
  return true;
}
int main( int argc, char** argv )
{
  Out out( argv[argc - 1] ); if( !std::getenv( "SHOWERR" ) ) std::freopen( "/dev/null", "w", stderr );
  if( std::string( argv[1] ) == "flows" ) { Rng g( std::strtoull( argv[2], nullptr, 10 ) * 17 + WHICH ); flows( out, g, std::atoi( argv[3] ) ); return 0; }
  Rng g( std::strtoull( argv[3], nullptr, 10 ) * 19 + WHICH ); const int n = std::atoi( argv[4] ); int c = 0;
  std::ifstream f( argv[2] ); std::string line; std::vector<std::vector<long>> hs;
  while( std::getline( f, line ) ) { const std::vector<long> h = ints( line ); if( h.size() > 1 ) hs.push_back( h ); }
  for( std::size_t i = 0; c < n && !hs.empty(); ++i ) if( replay( out, g, hs[i % hs.size()] ) ) ++c;
  return 0;
}
