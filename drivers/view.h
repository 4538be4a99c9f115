// Everything observable about a simulated world, written out exactly.  Include after sim_adapt.h.
#ifndef VIEW_H
#define VIEW_H
namespace vj
{
inline std::string entries( const SparseMatrixsc& A )
{
  std::vector<std::string> e;
  for( int k = 0; k < A.outerSize(); ++k ) for( SparseMatrixsc::InnerIterator it( A, k ); it; ++it ) if( it.value() != 0.0 ) e.push_back( "[" + num( int( it.row() ) + 1 ) + "," + num( int( it.col() ) + 1 ) + "," + num( double( it.value() ) ) + "]" );
  return SubObj().n( "rows", int( A.rows() ) ).n( "cols", int( A.cols() ) ).raw( "e", arr( e ) ).done();
}
template<typename B> std::string flags( const B& f ) { std::vector<std::string> a; for( std::size_t i = 0; i < f.size(); ++i ) a.push_back( num( bool( f[i] ) ) ); return arr( a ); }
template<typename P> std::string probe2( const P& p )
{
  std::vector<std::string> a; const double at[3][2] = { { 0.0, 0.0 }, { 1.25, -0.5 }, { -2.0, 3.5 } };
  for( int k = 0; k < 3; ++k ) { Vector2s x( at[k][0], at[k][1] ), y, z; p.teleportPointThroughPlaneA( x, y ); p.teleportPointThroughPlaneB( x, z ); a.push_back( vec( y ) ); a.push_back( vec( z ) ); }
  for( int s = 0; s < 2; ++s ) { const Vector2s x = s ? p.planeB().x() - 0.25 * p.planeB().n() : p.planeA().x() - 0.25 * p.planeA().n(); a.push_back( vec( p.getKinematicVelocityOfPoint( x ) ) ); }
  return arr( a );
}
#if WHICH == 1
inline std::string sim_view( Sim& sim )
{
  const State& s = sim.state(); SubObj o; std::vector<std::string> a;
  o.t( "lay", "b2" ).n( "n", int( s.nballs() ) ).v( "q", s.q() ).v( "v", s.v() ).v( "r", s.r() ).raw( "fixed", flags( sim.state().fixed() ) ).raw( "M", entries( s.M() ) ).raw( "Minv", entries( s.Minv() ) );
  for( const StaticPlane& p : s.staticPlanes() ) a.push_back( SubObj().v( "x", p.x() ).v( "n", p.n() ).v( "t", p.t() ).v( "v", p.v() ).done() );
  o.raw( "planes", arr( a ) ); a.clear();
  for( const StaticDrum& d : s.staticDrums() ) a.push_back( SubObj().v( "x", d.x() ).n( "r", d.r() ).done() );
  o.raw( "drums", arr( a ) ); a.clear();
  for( const PlanarPortal& p : s.planarPortals() ) a.push_back( SubObj().v( "xa", p.planeA().x() ).v( "na", p.planeA().n() ).v( "xb", p.planeB().x() ).v( "nb", p.planeB().n() ).v( "ta", p.transformedAx() ).v( "tb", p.transformedBx() ).n( "bounds", p.bounds() ).n( "moving", p.isLeesEdwards() ).raw( "probe", probe2( p ) ).done() );
  o.raw( "portals", arr( a ) );
  VectorXs F = VectorXs::Zero( s.v().size() ); if( s.nballs() ) fsys( sim ).computeForce( s.q(), s.v(), 0.0, F );
  return o.n( "forces", int( sim.state().forces().size() ) ).v( "F", F ).n( "U", s.nballs() ? s.computePotentialEnergy() : 0.0 ).done();
}
#elif WHICH == 2
inline std::string geo_view( const RigidBody2DGeometry& g )
{
  SubObj o; scalar m, I; g.computeMassAndInertia( 1.0, m, I );
  if( g.type() == RigidBody2DGeometryType::CIRCLE ) { const double r = static_cast<const CircleGeometry&>( g ).r(); o.t( "kind", "circle" ).raw( "r", "[" + num( r ) + "]" ); }
  else o.t( "kind", "box" ).v( "r", static_cast<const BoxGeometry&>( g ).r() );
  return o.n( "m", m ).n( "I", I ).done();
}
inline std::string sim_view( Sim& sim )
{
  const State& s = sim.state(); SubObj o; std::vector<std::string> a; std::vector<bool> fx; for( unsigned i = 0; i < s.nbodies(); ++i ) fx.push_back( s.fixed( i ) );
  std::vector<unsigned> gi; for( int i = 0; i < s.geometryIndices().size(); ++i ) gi.push_back( s.geometryIndices()( i ) + 1 );
  o.t( "lay", "r2" ).n( "n", int( s.nbodies() ) ).v( "q", s.q() ).v( "v", s.v() ).raw( "fixed", flags( fx ) ).raw( "gi", vecn( gi ) ).raw( "M", entries( s.M() ) ).raw( "Minv", entries( s.Minv() ) );
  for( const auto& g : s.geometry() ) a.push_back( geo_view( *g ) );
  o.raw( "geos", arr( a ) ); a.clear();
  for( const auto& p : s.planes() ) a.push_back( SubObj().v( "x", p.x() ).v( "n", p.n() ).v( "t", p.t() ).v( "v", p.v() ).n( "w", p.omega() ).done() );
  o.raw( "planes", arr( a ) ); a.clear();
  for( const PlanarPortal& p : s.planarPortals() ) a.push_back( SubObj().v( "xa", p.planeA().x() ).v( "na", p.planeA().n() ).v( "xb", p.planeB().x() ).v( "nb", p.planeB().n() ).v( "ta", p.transformedAx() ).v( "tb", p.transformedBx() ).n( "bounds", p.bounds() ).n( "v", p.v() ).n( "delta", p.delta() ).n( "moving", p.isLeesEdwards() ).raw( "probe", probe2( p ) ).done() );
  o.raw( "portals", arr( a ) );
  VectorXs F = VectorXs::Zero( s.v().size() ); if( s.nbodies() ) fsys( sim ).computeForce( s.q(), s.v(), 0.0, F );
  return o.n( "forces", int( s.forces().size() ) ).v( "F", F ).n( "U", s.nbodies() ? sim.computePotentialEnergy() : 0.0 ).done();
}
#else
inline std::string geo_view( const RigidBodyGeometry& g )
{
  SubObj o; scalar m; Vector3s cm, I; Matrix33sr R; g.computeMassAndInertia( 1.0, m, cm, I, R ); Array3s lo, hi; g.computeAABB( Vector3s( 0.5, -1.0, 2.0 ), Matrix33sr::Identity(), lo, hi );
  o.t( "kind", g.name() ).n( "m", m ).v( "cm", cm ).v( "I", I ).v( "R0", VectorXs( Eigen::Map<const VectorXs>( R.data(), 9 ) ) ).v( "lo", lo ).v( "hi", hi ).n( "vol", g.name() == "staple" ? 0.0 : double( g.volume() ) );
  if( g.name() == "sphere" ) o.raw( "p", "[" + num( static_cast<const RigidBodySphere&>( g ).r() ) + "]" );
  else if( g.name() == "box" ) o.v( "p", static_cast<const RigidBodyBox&>( g ).halfWidths() );
  else if( g.name() == "staple" ) { std::vector<std::string> c; for( const Vector3s& x : static_cast<const RigidBodyStaple&>( g ).points() ) c.push_back( vec( x ) ); o.raw( "p", "[" + num( static_cast<const RigidBodyStaple&>( g ).r() ) + "]" ).raw( "pts", arr( c ) ); }
  if( g.name() == "triangle_mesh" )
  {
    const RigidBodyTriangleMesh& t = static_cast<const RigidBodyTriangleMesh&>( g ); std::vector<std::string> f; for( long k = 0; k < t.faces().size(); ++k ) f.push_back( num( unsigned( t.faces().data()[k] ) ) );
    o.raw( "verts", cols( t.vertices() ) ).raw( "faces", arr( f ) ).raw( "samples", cols( t.samples() ) ).raw( "hull", cols( t.convexHullVertices() ) ).t( "file", t.inputFileName() );
    std::vector<std::string> d; const double at[5][3] = { { 0, 0, 0 }, { 0.1, 0.2, -0.1 }, { -0.2, 0.05, 0.15 }, { 0.3, -0.3, 0.2 }, { 4, 4, 4 } };
    for( int k = 0; k < 5; ++k ) { Vector3s n( 0, 0, 0 ); const bool in = t.detectCollision( Vector3s( at[k][0], at[k][1], at[k][2] ), n ); d.push_back( num( in ) ); if( in ) d.push_back( vec( n ) ); }
    o.raw( "field", str( arr( d ) ) );
  }
  return o.done();
}
inline std::string sim_view( Sim& sim )
{
  const State& s = sim.state(); SubObj o; std::vector<std::string> a; std::vector<unsigned> gi; for( unsigned i : s.indices() ) gi.push_back( i + 1 );
  o.t( "lay", "r3" ).n( "n", int( s.nbodies() ) ).v( "q", s.q() ).v( "v", s.v() ).raw( "fixed", flags( s.fixed() ) ).raw( "gi", vecn( gi ) )
    .raw( "M0", entries( s.M0() ) ).raw( "Minv0", entries( s.Minv0() ) ).raw( "M", entries( s.M() ) ).raw( "Minv", entries( s.Minv() ) );
  for( const auto& g : s.geometry() ) a.push_back( geo_view( *g ) );
  o.raw( "geos", arr( a ) ); a.clear();
  auto plane = []( const StaticPlane& p ) { return SubObj().v( "x", p.x() ).v( "n", p.n() ).v( "t0", p.t0() ).v( "t1", p.t1() ).v( "v", p.v() ).v( "w", p.omega() ).done(); };
  for( const StaticPlane& p : s.staticPlanes() ) a.push_back( plane( p ) );
  o.raw( "planes", arr( a ) ); a.clear();
  for( const StaticCylinder& c : s.staticCylinders() ) a.push_back( SubObj().v( "x", c.x() ).v( "a", c.axis() ).n( "r", c.r() ).v( "v", c.v() ).v( "w", c.omega() ).v( "R", c.R().coeffs() ).done() );
  o.raw( "cyls", arr( a ) ); a.clear();
  for( unsigned k = 0; k < s.numPlanarPortals(); ++k )
  {
    const PlanarPortal& p = s.planarPortal( k ); std::vector<std::string> pr; const double at[3][3] = { { 0, 0, 0 }, { 1.25, -0.5, 2 }, { -2, 3.5, 0.5 } };
    for( int j = 0; j < 3; ++j ) { Vector3s x( at[j][0], at[j][1], at[j][2] ), y, z; p.teleportPointThroughPlaneA( x, y ); p.teleportPointThroughPlaneB( x, z ); pr.push_back( vec( y ) ); pr.push_back( vec( z ) ); }
    a.push_back( SubObj().raw( "a", plane( p.planeA() ) ).raw( "b", plane( p.planeB() ) ).raw( "probe", arr( pr ) ).done() );
  }
  o.raw( "portals", arr( a ) ); a.clear();
  o.t( "edge", s.boundaryBehavior() == SimBoundaryBehavior::EXIT ? "exit" : "none" ).v( "emin", s.boundaryMin() ).v( "emax", s.boundaryMax() );
  VectorXs F = VectorXs::Zero( s.v().size() ); if( s.nbodies() ) fsys( sim ).computeForce( s.q(), s.v(), 0.0, F );
  for( const auto& f : s.forces() ) a.push_back( str( f->name() ) );
  return o.n( "forces", int( s.forces().size() ) ).v( "F", F ).n( "U", s.nbodies() ? sim.computePotentialEnergy() : 0.0 ).done();
}
#endif
}
#endif
