// One face for the three simulators: -DWHICH=1 (ball2d), 2 (rigidbody2d), 3 (rigidbody3d).
#ifndef SIM_ADAPT_H
#define SIM_ADAPT_H
#include "scisim/Math/Rational.h"
#include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
#if WHICH == 1
#include "b2d_scene.h"
#include "ball2d/PythonScripting.h"
#include "ball2d/SymplecticEulerMap.h"
#include "ball2d/VerletMap.h"
#include "ball2d/Forces/Ball2DGravityForce.h"
#include "ball2d/Forces/PenaltyForce.h"
namespace S = b2; typedef Ball2DSim Sim; typedef Ball2DState State;
static const int DIM = 2, VDOF = 2; static const char* const LAY = "b2";
inline void fill( const S::Scene& s, Sim& sim ) { S::load( s, sim ); }
inline void gravity( Sim& sim, const Vector3s& g ) { sim.state().forces().emplace_back( new Ball2DGravityForce( Vector2s( g.x(), g.y() ) ) ); }
inline UnconstrainedMap* makeMap( const int k ) { return k % 2 ? (UnconstrainedMap*) new VerletMap : (UnconstrainedMap*) new SymplecticEulerMap; }
inline int nb( const Sim& sim ) { return int( sim.state().nballs() ); }
#elif WHICH == 2
#include "r2d_scene.h"
#include "rigidbody2d/PythonScripting.h"
#include "rigidbody2d/SymplecticEulerMap.h"
#include "rigidbody2d/VerletMap.h"
#include "rigidbody2d/NearEarthGravityForce.h"
namespace S = r2; typedef RigidBody2DSim Sim; typedef RigidBody2DState State;
static const int DIM = 2, VDOF = 3; static const char* const LAY = "r2";
inline void fill( const S::Scene& s, Sim& sim ) { sim.state() = S::makeState( s ); }
inline void gravity( Sim& sim, const Vector3s& g )
{
  const State& o = sim.state(); std::vector<std::unique_ptr<RigidBody2DForce>> f; f.emplace_back( new NearEarthGravityForce( Vector2s( g.x(), g.y() ) ) );
  std::vector<bool> fixed; VectorXs m( 3 * o.nbodies() );
  for( unsigned i = 0; i < o.nbodies(); ++i ) { fixed.push_back( o.fixed( i ) ); m.segment<3>( 3 * i ) << o.m( i ), o.m( i ), o.I( i ); }
  State n( o.q(), o.v(), m, fixed, o.geometryIndices(), o.geometry(), f, o.planes(), o.planarPortals() );
  sim.state() = n;
}
inline UnconstrainedMap* makeMap( const int k ) { return k % 2 ? (UnconstrainedMap*) new VerletMap : (UnconstrainedMap*) new SymplecticEulerMap; }
inline int nb( const Sim& sim ) { return int( sim.state().nbodies() ); }
#else
#include "r3d_scene.h"
#include "rigidbody3d/PythonScripting.h"
#include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
#include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
#include "rigidbody3d/Forces/NearEarthGravityForce.h"
namespace S = r3; typedef RigidBody3DSim Sim; typedef RigidBody3DState State;
static const int DIM = 3, VDOF = 6; static const char* const LAY = "r3";
inline void fill( const S::Scene& s, Sim& sim ) { S::load( s, sim.state() ); }
inline void gravity( Sim& sim, const Vector3s& g ) { sim.state().addForce( NearEarthGravityForce( g ) ); }
inline UnconstrainedMap* makeMap( const int k ) { return k % 3 == 0 ? (UnconstrainedMap*) new DMVMap : k % 3 == 1 ? (UnconstrainedMap*) new SplitHamMap : (UnconstrainedMap*) new ExponentialEulerMap; }
inline int nb( const Sim& sim ) { return int( sim.state().nbodies() ); }
#endif
inline FlowableSystem& fsys( Sim& s ) { return (FlowableSystem&) s; }
inline ConstrainedSystem& csys( Sim& s ) { return (ConstrainedSystem&) s; }
typedef Rational<std::intmax_t> Rat;

// ---- a scripting callback that the driver supplies: the Python back end is not available here ----
#include <functional>
struct Script
{
  std::function<void( State&, unsigned, const Rat& )> start, end;
  std::function<void( const std::vector<std::unique_ptr<Constraint>>&, VectorXs& )> cor, mu;
  std::function<void( State* )> startSim, endSim;
  State* state = nullptr; int forgets = 0, sets = 0;
};
inline Script& script() { static Script s; return s; }
#ifdef SCRIPT_DEFS
#include "scisim/StringUtilities.h"
PythonScripting::PythonScripting() {}
PythonScripting::PythonScripting( const std::string& path, const std::string& module_name ) : m_path( path ), m_module_name( module_name ) {}
PythonScripting::PythonScripting( std::istream& in ) : m_path( StringUtilities::deserialize( in ) ), m_module_name( StringUtilities::deserialize( in ) ) {}
void swap( PythonScripting& a, PythonScripting& b ) { std::swap( a.m_path, b.m_path ); std::swap( a.m_module_name, b.m_module_name ); }
void PythonScripting::setState( State& s ) { script().state = &s; ++script().sets; }
void PythonScripting::forgetState() { script().state = nullptr; ++script().forgets; }
#if WHICH == 3
void PythonScripting::setInitialIterate( unsigned& ) {}
#endif
void PythonScripting::serialize( std::ostream& o ) { StringUtilities::serialize( m_path, o ); StringUtilities::serialize( m_module_name, o ); }
void PythonScripting::intializePythonCallbacks() {}
void PythonScripting::restitutionCoefficient( const std::vector<std::unique_ptr<Constraint>>& a, VectorXs& c ) { if( script().cor ) script().cor( a, c ); }
void PythonScripting::frictionCoefficient( const std::vector<std::unique_ptr<Constraint>>& a, VectorXs& c ) { if( script().mu ) script().mu( a, c ); }
void PythonScripting::startOfSim() { if( script().startSim ) script().startSim( script().state ); }
void PythonScripting::endOfSim() { if( script().endSim ) script().endSim( script().state ); }
void PythonScripting::startOfStep( const unsigned it, const Rat& dt ) { if( script().start ) script().start( *script().state, it, dt ); }
void PythonScripting::endOfStep( const unsigned it, const Rat& dt ) { if( script().end ) script().end( *script().state, it, dt ); }
std::string PythonScripting::name() const { return m_module_name; }
#endif

// ---- maps that record or prescribe ----
#include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
#include "scisim/ConstrainedMaps/FrictionSolver.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactMap.h"
struct RecMap final : public UnconstrainedMap
{
  UnconstrainedMap* in = nullptr;       // when absent, (q1, v1) is prescribed
  VectorXs q1, v1; std::vector<std::string> calls;
  virtual void flow( const VectorXs& q0, const VectorXs& v0, FlowableSystem& f, const unsigned it, const scalar& dt, VectorXs& qo, VectorXs& vo ) override
  {
    vj::SubObj o; o.v( "q", q0 ).v( "v", v0 ).n( "it", it ).n( "dt", double( dt ) );
    if( in ) in->flow( q0, v0, f, it, dt, qo, vo ); else { qo = q1; vo = v1; }
    calls.push_back( o.v( "q1", qo ).v( "v1", vo ).done() );
  }
  virtual std::string name() const override { return "rec"; }
  virtual void serialize( std::ostream& ) const override {}
};
#endif
