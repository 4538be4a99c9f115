// A stand-in for the three So-bogus interfaces of scisim/ConstrainedMaps/bogus, which need the So-bogus
// library (not available offline).  Same contract: given the primal Coulomb friction problem
//   M v = H^T r - f,   u = H v + E^T w,   (u, r) satisfying Signorini-Coulomb with coefficients mu,
// improve r (world coordinates) and return the outgoing velocity and the residual.  Solved by dense
// nonlinear block Gauss-Seidel.
#include "scisim/ConstrainedMaps/bogus/Ball2DSobogusInterface.h"
#include "scisim/ConstrainedMaps/bogus/RigidBody2DSobogusInterface.h"
#include "scisim/ConstrainedMaps/bogus/RigidBody3DSobogusInterface.h"
#include <Eigen/LU>

namespace bogus
{
template<unsigned D> struct PrimalFrictionProblem
{
  Eigen::MatrixXd MInv, H, E, W;
  Eigen::VectorXd f, w, mu, b;
  typedef Eigen::Matrix<double,int(D),1> Vec;
  typedef Eigen::Matrix<double,int(D),int(D)> Mat;

  template<typename BigRow, typename BigCol>
  void build( const unsigned nb, const int dof, const Eigen::VectorXd& masses, const Eigen::VectorXd& f_in, const unsigned nc, const Eigen::VectorXd& mu_in, const BigCol& bases, const Eigen::VectorXd& w_in, const Eigen::VectorXi& a, const Eigen::VectorXi& bb, const BigRow& HA, const BigRow& HB )
  {
    MInv = Eigen::MatrixXd::Zero( nb * dof, nb * dof );
    for( unsigned i = 0; i < nb; ++i ) { const Eigen::MatrixXd m = Eigen::Map<const Eigen::MatrixXd>( &masses( dof * dof * i ), dof, dof ); MInv.block( i * dof, i * dof, dof, dof ) = m.inverse(); }
    H = Eigen::MatrixXd::Zero( D * nc, nb * dof );
    E = Eigen::MatrixXd::Zero( D * nc, D * nc );
    for( unsigned c = 0; c < nc; ++c )
    {
      H.block( D * c, a( c ) * dof, D, dof ) += HA.block( D * c, 0, D, dof );
      if( bb( c ) >= 0 ) { H.block( D * c, bb( c ) * dof, D, dof ) -= HB.block( D * c, 0, D, dof ); }
      E.block( D * c, D * c, D, D ) = bases.block( 0, D * c, D, D );
    }
    f = f_in; w = w_in; mu = mu_in;
    W = H * MInv * H.transpose();
    b = E.transpose() * w - H * MInv * f;
  }

  static Vec project( const double m, const Vec& x )
  {
    // onto { (n,t) : |t| <= m n }
    const double n = x( 0 ); const Eigen::VectorXd t = x.template tail<int(D)-1>(); const double s = t.norm();
    Vec y;
    if( s <= m * n ) { return x; }
    if( m * s <= -n ) { y.setZero(); return y; }
    const double k = ( n + m * s ) / ( 1.0 + m * m );
    y( 0 ) = k; y.template tail<int(D)-1>() = ( m * k / s ) * t;
    return y;
  }
  static Vec step( const double m, const Mat& A, const Vec& c, const double rho, const Vec& r )
  {
    Vec u = A * r + c;
    u( 0 ) += m * u.template tail<int(D)-1>().norm();
    return project( m, Vec( r - rho * u ) );
  }
  double residual( const Eigen::VectorXd& r ) const
  {
    double e = 0.0;
    const Eigen::VectorXd u = W * r + b;
    for( unsigned c = 0; c < mu.size(); ++c )
    {
      Vec uc = u.segment( D * c, D ); const Vec rc = r.segment( D * c, D );
      uc( 0 ) += mu( c ) * uc.template tail<int(D)-1>().norm();
      e = std::max( e, double( ( rc - project( mu( c ), Vec( rc - uc ) ) ).template lpNorm<Eigen::Infinity>() ) );
    }
    return e;
  }
  double solve( Eigen::VectorXd& r, Eigen::VectorXd& v, unsigned& iters, const double& tol_in, const unsigned max_in, const unsigned every ) const
  {
    const double tol = tol_in != 0.0 ? tol_in : 1.0e-6;
    const unsigned max = max_in != 0 ? max_in : 250;
    Eigen::VectorXd x = E.transpose() * r;
    double err = residual( x );
    iters = 0;
    while( err >= 0.1 * tol && iters < max )
    {
      for( unsigned k = 0; k < std::max( 1u, every ); ++k, ++iters )
      {
        for( unsigned c = 0; c < mu.size(); ++c )
        {
          const Mat A = W.block( D * c, D * c, D, D );
          const Vec cc = W.middleRows( D * c, D ) * x + b.segment( D * c, D ) - A * x.segment( D * c, D );
          Vec y = x.segment( D * c, D );
          const Vec stick = -A.inverse() * cc;
          if( cc( 0 ) >= 0.0 ) { y.setZero(); }
          else if( stick.template tail<int(D)-1>().norm() <= mu( c ) * stick( 0 ) ) { y = stick; }
          else
          {
            const double rho = 1.0 / A.trace();
            for( int it = 0; it < 400; ++it ) { const Vec z = step( mu( c ), A, cc, rho, y ); const double d = ( z - y ).norm(); y = z; if( d <= 1.0e-15 * ( 1.0 + y.norm() ) ) { break; } }
          }
          x.segment( D * c, D ) = y;
        }
      }
      err = residual( x );
    }
    v = MInv * ( H.transpose() * x - f );
    r = E * x;
    return err;
  }
};
template<unsigned D> struct DualFrictionProblem {};

#define SHIM( CLS, D, DOF ) \
  CLS::CLS() {} \
  CLS::~CLS() {} \
  void CLS::reset() { m_dual.reset(); m_primal.reset( new PrimalFrictionProblem<D> ); } \
  void CLS::computeDual() {} \
  void CLS::fromPrimal( const unsigned num_bodies, const Eigen::VectorXd& masses, const Eigen::VectorXd& f_in, const unsigned num_contacts, const Eigen::VectorXd& mu, const Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::ColMajor>& contact_bases, const Eigen::VectorXd& w_in, const Eigen::VectorXi& obj_a, const Eigen::VectorXi& obj_b, const Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>& HA, const Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic,Eigen::RowMajor>& HB ) \
  { reset(); m_primal->build( num_bodies, DOF, masses, f_in, num_contacts, mu, contact_bases, w_in, obj_a, obj_b, HA, HB ); } \
  double CLS::solve( Eigen::VectorXd& r, Eigen::VectorXd& v, unsigned& num_iterations, const unsigned, const double& tol, const unsigned max_iters, const unsigned eval_every, const bool ) \
  { return m_primal->solve( r, v, num_iterations, tol, max_iters, eval_every ); } \
  double CLS::evalInfNormError( const Eigen::VectorXd& r ) { return m_primal->residual( m_primal->E.transpose() * r ); }

SHIM( Balls2DSobogusInterface, 2u, 2 )
SHIM( RigidBody2DSobogusInterface, 2u, 3 )
SHIM( RigidBodies3DSobogusInterface, 3u, 6 )
}
