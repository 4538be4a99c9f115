// Records everything a contact constraint reports about itself, for any of the three simulators.
#ifndef DRV_CON_H
#define DRV_CON_H
#include "vjson.h"
#include "scisim/Constraints/Constraint.h"
#include "scisim/Constraints/ConstrainedSystem.h"
#include "scisim/UnconstrainedMaps/FlowableSystem.h"
#include <cmath>

namespace vj
{
struct SubObj
{
  std::string s;
  SubObj() { s = "{"; }
  SubObj& raw( const char* k, const std::string& v ) { if( s.size() > 1 ) s += ","; s += "\""; s += k; s += "\":"; s += v; return *this; }
  SubObj& n( const char* k, int v ) { return raw( k, num( v ) ); }
  SubObj& n( const char* k, unsigned v ) { return raw( k, num( v ) ); }
  SubObj& n( const char* k, double v ) { return raw( k, num( v ) ); }
  SubObj& n( const char* k, bool v ) { return raw( k, num( v ) ); }
  SubObj& t( const char* k, const std::string& v ) { return raw( k, str( v ) ); }
  template<typename V> SubObj& v( const char* k, const V& x ) { return raw( k, vec( x ) ); }
  std::string done() const { return s + "}"; }
};

template<typename M> std::string cols( const M& m )
{
  std::vector<std::string> c;
  for( long j = 0; j < long( m.cols() ); ++j ) { std::vector<std::string> r; for( long i = 0; i < long( m.rows() ); ++i ) r.push_back( num( double( m( i, j ) ) ) ); c.push_back( arr( r ) ); }
  return arr( c );
}
template<typename M> std::string rows( const M& m )
{
  std::vector<std::string> c;
  for( long i = 0; i < long( m.rows() ); ++i ) { std::vector<std::string> r; for( long j = 0; j < long( m.cols() ); ++j ) r.push_back( num( double( m( i, j ) ) ) ); c.push_back( arr( r ) ); }
  return arr( c );
}
inline std::string segs( const VectorXs& q, const int start, const int stride, const int n )
{
  std::vector<std::string> c;
  for( int i = 0; i < n; ++i ) { std::vector<std::string> r; for( int k = 0; k < stride; ++k ) r.push_back( num( double( q( start + stride * i + k ) ) ) ); c.push_back( arr( r ) ); }
  return arr( c );
}

// What a constraint kind implements (the rest is documented as not implemented and ends the program)
struct Traits
{
  bool st = false;      // the other side is static geometry: there is a static object index
  bool gap = false;     // the gap function
  bool kin = false;     // the prescribed normal velocity
  bool grad = true;     // the generalised normal
  bool fric = true;     // the generalised friction direction
  int disk = 0;         // samples of the friction disk to ask for, 0 when there is none
  bool res = false;     // the pairwise impact resolution
};
inline SubObj describe( const Constraint& con, const FlowableSystem& fsys, const VectorXs& q, const VectorXs& v, const double CoR, const Traits& tr )
{
  SubObj o;
  std::pair<int,int> s, b; con.getSimulatedBodyIndices( s ); con.getBodyIndices( b );
  o.t( "name", con.name() ).n( "s0", s.first ).n( "s1", s.second ).n( "b0", b.first ).n( "b1", b.second );
  o.n( "c0", con.simulatedBody0() ).n( "c1", con.simulatedBody1() ).n( "c2", con.body0() ).n( "c3", con.body1() );
  o.n( "obj", tr.st ? int( con.getStaticObjectIndex() ) : -1 );
  VectorXs n, p; con.getWorldSpaceContactNormal( q, n ); con.getWorldSpaceContactPoint( q, p );
  o.v( "n", n ).v( "p", p );
  MatrixXXsc basis; con.computeBasis( q, v, basis );
  o.raw( "basis", cols( basis ) );
  const double nv = con.evalNdotV( q, v );
  o.n( "nv", nv ).v( "rel", con.computeRelativeVelocity( q, v ) );
  if( tr.kin ) { VectorXs g( 3 ); g.setConstant( -77.0 ); con.evalKinematicNormalRelVel( q, 1, g ); o.n( "kn", g( 1 ) ).n( "knok", g( 0 ) == -77.0 && g( 2 ) == -77.0 ); }
  const int nd = fsys.nvdofs();
  const int dim = int( basis.rows() );
  std::vector<std::string> G;
  int cnt = 0;
  if( tr.grad )
  {
    SparseMatrixsc N( nd, 1 ); Eigen::VectorXi nz( 1 ); nz( 0 ) = con.impactStencilSize(); N.reserve( nz );
    con.evalgradg( q, 0, N, fsys );
    for( SparseMatrixsc::InnerIterator it( N, 0 ); it; ++it ) ++cnt;
    G.push_back( vec( VectorXs( N.col( 0 ) ) ) );
  }
  else G.push_back( "[]" );
  for( int k = 1; k < dim; ++k )
  {
    if( !tr.fric ) { G.push_back( "[]" ); continue; }
    SparseMatrixsc D( nd, 1 ); Eigen::VectorXi nz( 1 ); nz( 0 ) = con.frictionStencilSize(); D.reserve( nz );
    const VectorXs t = basis.col( k ); con.computeGeneralizedFrictionGivenTangentSample( q, t, 0, D );
    G.push_back( vec( VectorXs( D.col( 0 ) ) ) );
  }
  o.raw( "G", arr( G ) ).n( "stencil", con.impactStencilSize() ).n( "fstencil", tr.fric ? con.frictionStencilSize() : -1 ).n( "nnz", cnt );
  if( tr.disk > 0 )
  {
    // one spare column on either side, which has to stay untouched
    SparseMatrixsc D( nd, tr.disk + 2 ); Eigen::VectorXi nz( tr.disk + 2 ); nz.setConstant( con.frictionStencilSize() ); D.reserve( nz );
    VectorXs dr( tr.disk + 2 ); dr.setConstant( -77.0 );
    con.computeGeneralizedFrictionDisk( q, v, 1, tr.disk, D, dr );
    const MatrixXXsc dd( D );
    o.raw( "disk", cols( MatrixXXsc( dd.block( 0, 1, nd, tr.disk ) ) ) ).v( "drel", VectorXs( dr.segment( 1, tr.disk ) ) );
    o.n( "diskok", dd.col( 0 ).squaredNorm() == 0.0 && dd.col( tr.disk + 1 ).squaredNorm() == 0.0 && dr( 0 ) == -77.0 && dr( tr.disk + 1 ) == -77.0 );
  }
  if( tr.res )
  {
    VectorXs vo = v; double alpha = -77.0; const double nd = -0.75;
    con.resolveImpact( CoR, fsys.M(), nd, vo, alpha );
    const int w = int( fsys.numVelDoFsPerBody() ) == 2 ? 2 : 3;
    o.n( "alpha", alpha ).v( "dv", VectorXs( vo - v ) );
    o.n( "m0", double( fsys.M().valuePtr()[ w * s.first ] ) ).n( "m1", s.second >= 0 ? double( fsys.M().valuePtr()[ w * s.second ] ) : 0.0 );
  }
  const int dof = int( fsys.numVelDoFsPerBody() );
  MatrixXXsc H0( dim, dof ), H1( dim, dof ); H0.setZero(); H1.setZero();
  con.evalH( q, basis, H0, H1 );
  o.raw( "H0", rows( H0 ) ).raw( "H1", rows( H1 ) );
  VectorXs drel( dim - 1 ); for( int k = 0; k < dim - 1; ++k ) drel( k ) = 0.25 * ( k + 1 );
  VectorXs w; con.computeForcingTerm( q, v, basis, CoR, 0.375, drel, w );
  o.n( "cor", CoR ).v( "w", w );
  if( tr.gap ) { o.n( "gap", con.evaluateGapFunction( q ) ); }
  o.n( "depth", con.penetrationDepth( q ) );
  o.n( "ct", con.conservesTranslationalMomentum() ).n( "ca", con.conservesAngularMomentumUnderImpact() ).n( "cf", con.conservesAngularMomentumUnderImpactAndFriction() );
  return o;
}
// Everything in an active set: the per-constraint description plus what the system and the static helpers derive from it
template<typename Pred> std::string describeAll( const std::vector<std::unique_ptr<Constraint>>& as, const FlowableSystem& fsys, const ConstrainedSystem& csys, const VectorXs& q, const VectorXs& v, const double CoR, const Pred& traits )
{
  std::vector<std::string> out;
  if( as.empty() ) return "[]";
  MatrixXXsc cb, ib;
  csys.computeContactBases( q, v, as, cb ); csys.computeImpactBases( q, as, ib );
  const int dim = int( cb.rows() );
  VectorXs nrel( as.size() ), drel( ( dim - 1 ) * as.size() );
  Constraint::evalKinematicRelVelGivenBases( q, v, as, cb, nrel, drel );
  for( std::size_t k = 0; k < as.size(); ++k )
  {
    SubObj o = describe( *as[k], fsys, q, v, CoR, traits( as[k]->name() ) );
    VectorXs knb( dim ); knb( 0 ) = nrel( k ); for( int d = 1; d < dim; ++d ) knb( d ) = drel( ( dim - 1 ) * k + d - 1 );
    o.v( "knb", knb ).raw( "cb", cols( MatrixXXsc( cb.block( 0, dim * k, dim, dim ) ) ) ).v( "ib", VectorXs( ib.col( k ) ) );
    out.push_back( o.done() );
  }
  return arr( out );
}
// velocities without sliding: everything at rest, nearly so, or closing in on the origin without turning (w: degrees of
// freedom listed per body, of which the first two or three are the position)
template<typename G> void calm( G& g, const VectorXs& q, VectorXs& v, const int w )
{
  const int k = g.i( 0, 11 );
  if( k == 0 ) v.setZero(); else if( k == 1 ) v *= 1.0e-7;
  else if( k == 2 ) { v.setZero(); const long n = w == 6 ? v.size() / 2 : v.size(); for( long i = 0; i < n; ++i ) if( w == 6 || w == 2 || i % 3 < 2 ) v( i ) = -q( i ); }
}
inline std::vector<long> ints( const std::string& line )
{
  std::vector<long> r; const char* p = line.c_str();
  while( *p ) { if( ( *p >= '0' && *p <= '9' ) || *p == '-' ) { char* e; r.push_back( std::strtol( p, &e, 10 ) ); p = e; } else ++p; }
  return r;
}
}
#endif
