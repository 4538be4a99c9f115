// Operators that record what they are asked and what they answer, sharing one log across clones.
#ifndef REC_OPS_H
#define REC_OPS_H
#include "drv_con.h"
#include "scisim/ConstrainedMaps/ImpactMaps/ImpactOperator.h"
#include "scisim/ConstrainedMaps/FrictionMaps/FrictionOperator.h"
#include <memory>
namespace vj
{
typedef std::shared_ptr<std::vector<std::string>> Log;
inline std::string spcols( const SparseMatrixsc& m ) { return cols( MatrixXXsc( m ) ); }
inline std::string sprows( const SparseMatrixsc& m ) { return rows( MatrixXXsc( m ) ); }
struct RecImpact final : public ImpactOperator
{
  Log log; std::unique_ptr<ImpactOperator> in; std::string tag;
  RecImpact( const Log& l, std::unique_ptr<ImpactOperator> op, const std::string& t = "i" ) : log( l ), in( std::move( op ) ), tag( t ) {}
  virtual void flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha ) override
  {
    SubObj o; o.t( "k", tag ).raw( "N", spcols( N ) ).raw( "Q", spcols( Q ) ).v( "v0", v0 ).v( "v0F", v0F ).v( "nrel", nrel ).v( "cor", CoR ).v( "a0", alpha );
    in->flow( cons, M, Minv, q0, v0, v0F, N, Q, nrel, CoR, alpha );
    log->push_back( o.v( "a", alpha ).done() );
  }
  virtual std::string name() const override { return "rec"; }
  virtual std::unique_ptr<ImpactOperator> clone() const override { return std::unique_ptr<ImpactOperator>( new RecImpact( log, in->clone(), tag ) ); }
  virtual void serialize( std::ostream& ) const override {}
};
}
#endif
