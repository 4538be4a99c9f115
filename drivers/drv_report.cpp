// Quantities a simulation reports about itself, and its forces.
//   drv_report <seed> <n> <out.ndjson>
#include "sim_adapt.h"
#include "view.h"
using namespace vj;
typedef std::unique_ptr<Sim> SimP;
static S::Scene someScene( Rng& g )
{
#if WHICH == 1
  S::Scene s = S::randomScene( g, g.b( 0.3 ) ); s.fixed.resize( s.r.size() ); for( std::size_t i = 0; i < s.r.size(); ++i ) s.fixed[i] = g.b( 0.3 ); return s;
#elif WHICH == 2
  return S::randomScene( g, g.i( 0, 2 ) );
#else
  return S::randomScene( g, g.b( 0.15 ) ? 2 : g.b() ? 3 : g.i( 0, 1 ) );
#endif
}
int main( int, char** argv )
{
  Rng g( std::strtoull( argv[1], nullptr, 10 ) ); const int N = std::atoi( argv[2] ); Out out( argv[3] );
  for( int k = 0; k < N; ++k )
  {
    SimP sim( new Sim ); S::Scene s = someScene( g ); fill( s, *sim ); std::vector<std::string> forces; const int nf = g.i( 0, WHICH == 2 ? 1 : 3 );
    for( int f = 0; f < nf; ++f )
    {
#if WHICH == 1
      if( g.b( 0.6 ) ) { const double c = g.d( 1, 50 ); const int p2 = g.i( 2, 6 ); sim->state().forces().emplace_back( new PenaltyForce( c, 0.5 * p2 ) ); forces.push_back( SubObj().t( "kind", "penalty" ).n( "c", c ).n( "p2", p2 ).done() ); continue; }
#endif
      const Vector3s a( g.d( -3, 3 ), g.d( -10, 3 ), g.d( -3, 3 ) ); gravity( *sim, a ); forces.push_back( SubObj().t( "kind", "gravity" ).v( "g", VectorXs( a.head( DIM ) ) ).done() );
    }
    const State& st = sim->state(); const int n = nb( *sim ); VectorXs q2 = st.q(), v2 = st.v();
#if WHICH != 3
    for( int i = 0; i < q2.size(); ++i ) q2( i ) += g.d( -0.5, 0.5 );
#endif
    for( int i = 0; i < v2.size(); ++i ) v2( i ) = g.d( -3, 3 );
    VectorXs F = VectorXs::Constant( v2.size(), 7.0 ); fsys( *sim ).computeForce( q2, v2, 0.25, F );
    VectorXs p, L; fsys( *sim ).computeMomentum( v2, p ); fsys( *sim ).computeAngularMomentum( v2, L );
    Obj o( "report" ); std::vector<std::string> sh, fx; o.t( "lay", LAY ).n( "n", n ).v( "q", st.q() ).v( "v", st.v() ).v( "q2", q2 ).v( "v2", v2 ).raw( "forces", arr( forces ) ).v( "F", F ).v( "p2", p ).v( "L2", L );
#if WHICH == 1
    std::vector<std::string> m, dr; for( int i = 0; i < n; ++i ) { m.push_back( num( double( st.M().coeff( 2 * i, 2 * i ) ) ) ); sh.push_back( SubObj().t( "kind", "circle" ).n( "r", st.r()( i ) ).done() ); }
    for( const auto& d : st.staticDrums() ) dr.push_back( SubObj().v( "x", d.x() ).n( "r", d.r() ).done() );
    const Vector4s b = st.computeBoundingBox(); o.raw( "m", arr( m ) ).raw( "drums", arr( dr ) ).n( "K", st.computeKineticEnergy() ).n( "U", st.computePotentialEnergy() ).n( "E", st.computeTotalEnergy() ).v( "p", st.computeMomentum() ).raw( "L", "[" + num( st.computeAngularMomentum() ) + "]" )
      .v( "lo", Vector2s( b( 0 ), b( 2 ) ) ).v( "hi", Vector2s( b( 1 ), b( 3 ) ) );
#elif WHICH == 2
    std::vector<std::string> m, I; for( int i = 0; i < n; ++i ) { m.push_back( num( double( st.m( i ) ) ) ); I.push_back( num( double( st.I( i ) ) ) ); const RigidBody2DGeometry& e = *st.geometry()[st.geometryIndices()( i )]; if( e.type() == RigidBody2DGeometryType::CIRCLE ) sh.push_back( SubObj().t( "kind", "circle" ).n( "r", static_cast<const CircleGeometry&>( e ).r() ).done() ); else sh.push_back( SubObj().t( "kind", "box2" ).v( "w", static_cast<const BoxGeometry&>( e ).r() ).done() ); }
    const Array4s b = st.computeBoundingBox(); o.raw( "m", arr( m ) ).raw( "I", arr( I ) ).raw( "drums", "[]" ).n( "K", sim->computeKineticEnergy() ).n( "U", sim->computePotentialEnergy() ).n( "E", sim->computeTotalEnergy() ).v( "p", sim->computeTotalMomentum() ).raw( "L", "[" + num( sim->computeTotalAngularMomentum() ) + "]" )
      .v( "lo", VectorXs( b.head( 2 ) ) ).v( "hi", VectorXs( b.tail( 2 ) ) );
#else
    std::vector<std::string> m, I;
    for( int i = 0; i < n; ++i )
    {
      m.push_back( num( double( st.M0().coeff( 3 * i, 3 * i ) ) ) ); std::vector<std::string> d; for( int a = 0; a < 3; ++a ) d.push_back( num( double( st.M0().coeff( 3 * n + 3 * i + a, 3 * n + 3 * i + a ) ) ) ); I.push_back( arr( d ) );
      const r3::Geo& e = s.geos[s.gi[i]]; sh.push_back( e.kind == 0 ? SubObj().t( "kind", "sphere" ).n( "r", e.w.x() ).done() : e.kind == 1 ? SubObj().t( "kind", "box" ).v( "w", e.w ).done() : SubObj().t( "kind", "mesh" ).raw( "verts", cols( r3::meshData( e.w ).verts ) ).done() ); fx.push_back( num( bool( s.fixed[i] ) ) );
    }
    Vector3s lo, hi, c; scalar rad; sim->computeBoundingBox( lo.x(), hi.x(), lo.y(), hi.y(), lo.z(), hi.z() ); sim->computeBoundingSphere( rad, c ); VectorXs Z = VectorXs::Constant( v2.size(), 2.0 ) + v2; const VectorXs Z0 = Z; fsys( *sim ).zeroOutForcesOnFixedBodies( Z );
    o.raw( "m", arr( m ) ).raw( "I", arr( I ) ).raw( "drums", "[]" ).n( "K", sim->computeKineticEnergy() ).n( "U", sim->computePotentialEnergy() ).n( "E", sim->computeTotalEnergy() ).v( "p", sim->computeTotalMomentum() ).v( "L", sim->computeTotalAngularMomentum() )
      .v( "lo", lo ).v( "hi", hi ).n( "rad", rad ).v( "mid", c ).raw( "fixed", arr( fx ) ).v( "Z0", Z0 ).v( "Z", Z );
#endif
    out.put( o.raw( "shapes", arr( sh ) ) );
  }
  return 0;
}
