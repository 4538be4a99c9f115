// Unconstrained steps: the integrators, and straight motion at given velocities, under a force field given by formula.
//   drv_motion <seed> <n> <out.ndjson>
#include "sim_adapt.h"
using namespace vj;
// force component i at q is a_i + b_i q_(3i+2 mod nq): smooth, not constant, and known to the specification
struct Field final : public FlowableSystem
{
  Sim& sim; VectorXs a, b;
  Field( Sim& s ) : sim( s ) {}
  FlowableSystem& fs() const { return fsys( sim ); }
  virtual int nqdofs() const override { return fs().nqdofs(); }
  virtual int nvdofs() const override { return fs().nvdofs(); }
  virtual unsigned numVelDoFsPerBody() const override { return fs().numVelDoFsPerBody(); }
  virtual unsigned ambientSpaceDimensions() const override { return fs().ambientSpaceDimensions(); }
  virtual bool isKinematicallyScripted( const int i ) const override { return fs().isKinematicallyScripted( i ); }
  virtual void computeForce( const VectorXs& q, const VectorXs& v, const scalar&, VectorXs& f ) override { VectorXs r( a.size() ); for( int i = 0; i < a.size(); ++i ) r( i ) = a( i ) + b( i ) * q( ( 3 * i + 2 ) % q.size() ); f = r; }
  virtual void zeroOutForcesOnFixedBodies( VectorXs& f ) const override { fs().zeroOutForcesOnFixedBodies( f ); }
  virtual void linearInertialConfigurationUpdate( const VectorXs& q0, const VectorXs& v0, const scalar& dt, VectorXs& q1 ) const override { fs().linearInertialConfigurationUpdate( q0, v0, dt, q1 ); }
  virtual const SparseMatrixsc& M() const override { return fs().M(); }
  virtual const SparseMatrixsc& Minv() const override { return fs().Minv(); }
  virtual const SparseMatrixsc& M0() const override { return fs().M0(); }
  virtual const SparseMatrixsc& Minv0() const override { return fs().Minv0(); }
  virtual void computeMomentum( const VectorXs& v, VectorXs& p ) const override { fs().computeMomentum( v, p ); }
  virtual void computeAngularMomentum( const VectorXs& v, VectorXs& L ) const override { fs().computeAngularMomentum( v, L ); }
  virtual std::string name() const override { return fs().name(); }
};
#if WHICH == 3
// whether the documented iteration for the rotation of the step settles well within its limit of 50 rounds
static bool settles( const Vector3s& I, const Matrix33sr& R, const Vector3s& w, const Vector3s& T, const double dt )
{
  const Vector3s a = 0.5 * dt * ( R.transpose() * w + 0.5 * dt * ( R.transpose() * T ).cwiseQuotient( I ) ); Vector3s c = a, o;
  for( int k = 0; k < 30; ++k )
  {
    o = c; const double s = 1 + c.squaredNorm();
    for( int j = 0; j < 3; ++j ) { const int y = ( j + 1 ) % 3, z = ( j + 2 ) % 3; c( j ) = s * a( j ) + ( I( y ) - I( z ) ) / I( j ) * c( y ) * c( z ); }
  }
  return ( c - o ).lpNorm<1>() < 1e-14 && c.norm() < 0.5;
}
static bool settle( const int n, Field& f, const VectorXs& mass, const VectorXs& q, const VectorXs& v, const double dt )
{
  VectorXs F( v.size() ); f.computeForce( q, v, 0.0, F );
  for( int i = 0; i < n; ++i ) { if( !settles( mass.segment<3>( 3 * n + 3 * i ), Eigen::Map<const Matrix33sr>( q.data() + 3 * n + 9 * i ), v.segment<3>( 3 * n + 3 * i ), F.segment<3>( 3 * n + 3 * i ), dt ) ) { return false; } }
  return true;
}
#endif
int main( int argc, char** argv )
{
  Rng g( std::strtoull( argv[1], nullptr, 10 ) ); const int N = std::atoi( argv[2] ); Out out( argv[3] );
  for( int k = 0; k < N; ++k )
  {
#if WHICH == 1
    S::Scene s = S::randomScene( g, false ); s.fixed.resize( s.r.size() ); for( std::size_t i = 0; i < s.r.size(); ++i ) s.fixed[i] = g.b( 0.2 );
#else
    S::Scene s = S::randomScene( g, WHICH == 2 ? k % 2 : k % 5 == 0 ? 2 : k % 2 );
#endif
    std::unique_ptr<UnconstrainedMap> m( makeMap( g.i( 0, 5 ) ) );
#if WHICH == 3
    const bool expo = m->name() == "exponential_euler"; const int n = s.n();
    for( int i = 0; i < n; ++i ) { if( expo ) s.fixed[i] = false; if( s.fixed[i] ) { s.v.segment<3>( 3 * i ).setZero(); s.v.segment<3>( 3 * n + 3 * i ).setZero(); } else if( g.b( 0.1 ) ) s.v.segment<3>( 3 * n + 3 * i ).setZero(); }
#endif
    Sim sim; fill( s, sim ); Field f( sim ); const int nv = f.nvdofs(); const bool none = g.b( 0.2 );
    // masses and inertias in the order of the velocities
    const MatrixXXsc M0 = WHICH == 3 ? MatrixXXsc( f.M0() ) : MatrixXXsc( f.M() ); f.a.resize( nv ); f.b.resize( nv );
    for( int i = 0; i < nv; ++i ) { f.a( i ) = none ? 0.0 : g.d( -4, 4 ) * M0( i, i ); f.b( i ) = none ? 0.0 : g.d( -0.4, 0.4 ) * M0( i, i ); }
    VectorXs mass( nv ); for( int i = 0; i < nv; ++i ) mass( i ) = M0( i, i );
    std::vector<std::string> fx; for( int i = 0; i < nb( sim ); ++i ) fx.push_back( num( bool( s.fixed[i] ) ) );
    VectorXs q0 = s.q0, v0 = s.v;
    double dt = g.b( 0.2 ) ? g.d( 0.0005, 0.002 ) : g.d( 0.005, 0.05 );
    if( g.b( 0.3 ) )
    {
      // a long step; where the update is the solution of an equation, one the documented iteration reaches
      dt = g.d( 0.05, 0.5 );
#if WHICH == 3
      while( !settle( n, f, mass, q0, v0, dt ) ) { dt *= 0.8; }
#endif
    }
    const int steps = g.i( 1, 3 );
    for( int t = 0; t < steps; ++t )
    {
#if WHICH == 3
      if( dt > 0.05 && !settle( n, f, mass, q0, v0, dt ) ) { break; }
#endif
      VectorXs q1 = VectorXs::Constant( q0.size(), 0.25 ), v1 = VectorXs::Constant( v0.size(), 0.25 ), q2 = q1;
      const VectorXs qi = q0, vi = v0;
      f.linearInertialConfigurationUpdate( q0, v0, dt, q2 );
      m->flow( q0, v0, f, unsigned( g.i( 1, 50 ) ), dt, q1, v1 );
      out.put( Obj( "move" ).t( "lay", LAY ).t( "map", m->name() ).n( "n", nb( sim ) ).raw( "fixed", arr( fx ) ).v( "m", mass ).v( "a", f.a ).v( "b", f.b ).n( "dt", dt )
        .v( "q", q0 ).v( "v", v0 ).v( "q1", q1 ).v( "v1", v1 ).v( "ahead", q2 ).n( "kept", q0 == qi && v0 == vi ) );
      q0 = q1; v0 = v1;
      sim.state().q() = q0; sim.state().v() = v0;
#if WHICH == 3
      sim.state().updateMandMinv();
#endif
    }
  }
  return 0;
}
