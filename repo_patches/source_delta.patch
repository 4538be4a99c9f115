From beead62a840e3c4495ccd5cde8feb2b6f94b2213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 01/30] fix: tokenize must not read the last character of an
 empty string

---
 scisim/StringUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scisim/StringUtilities.cpp b/scisim/StringUtilities.cpp
index 437e79a..e759afd 100644
--- a/scisim/StringUtilities.cpp
+++ b/scisim/StringUtilities.cpp
@@ -136,7 +136,7 @@ void StringUtilities::tokenize( const std::string& str, const char chr, std::vec
     tokens.emplace_back( str.substr( substring_start ) );
   }
   // Case of final character the delimiter
-  if( str.back() == chr )
+  if( !str.empty() && str.back() == chr )
   {
     tokens.emplace_back( "" );
   }
-- 
2.43.0


From 0680efaf6605fae8a251153716bc1c24d27b8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 02/30] fix: reject rationals with more than one slash or
 period

---
 scisim/Math/Rational.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index dd4e4d2..2522bf4 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -207,8 +207,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
   const unsigned period_count{ static_cast<unsigned>( std::count( in_string.cbegin(), in_string.cend(), '.' ) ) };
 
   // Valid input: 1 slash 0 periods, 0 slashes 1 period, 0 slashes 0 periods
-  if( slash_count > 2 ) { return false; }
-  if( period_count > 2 ) { return false; }
+  if( slash_count > 1 ) { return false; }
+  if( period_count > 1 ) { return false; }
   if( slash_count == 1 && period_count != 0 ) { return false; }
   if( period_count == 1 && slash_count != 0 ) { return false; }
 
-- 
2.43.0


From 3d757b04e58564e2df0f766097197533574eb099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:43 +0000
Subject: [PATCH 03/30] fix: keep the sign of rationals between -1 and 0 given
 in decimal form

---
 scisim/Math/Rational.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scisim/Math/Rational.h b/scisim/Math/Rational.h
index 2522bf4..34edd8d 100644
--- a/scisim/Math/Rational.h
+++ b/scisim/Math/Rational.h
@@ -225,6 +225,8 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     if( left_substring.empty() ) { left_substring = "0"; }
     if( left_substring == "+" ) { left_substring = "+0"; }
     if( left_substring == "-" ) { left_substring = "-0"; }
+    // The sign applies to both portions, and can not be recovered from the left integer if that is 0
+    const bool negative{ left_substring.front() == '-' };
     // Load the left and right portions into integers
     T left_int;
     if( !StringUtilities::extractFromString( left_substring, left_int ) ) { return false; }
@@ -236,7 +238,7 @@ bool extractFromString( const std::string& in_string, Rational<T>& output )
     T denominator = 1;
     for( std::string::size_type i = 0; i < num_digits; ++i ) { denominator *= 10; }
     // Compute the denominator
-    const T numerator{ left_int * denominator + ( left_int < 0 ? -1 : 1 ) * right_int };
+    const T numerator{ left_int * denominator + ( negative ? -1 : 1 ) * right_int };
     output.set( numerator, denominator );
   }
   else
-- 
2.43.0


From 8b63bed413c4e1aed44349d85f3945dcbf857aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:12 +0000
Subject: [PATCH 04/30] fix: report the normal of contacts across a portal in
 2D rigid body sims

---
 rigidbody2d/TeleportedCircleCircleConstraint.cpp | 5 +++++
 rigidbody2d/TeleportedCircleCircleConstraint.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/rigidbody2d/TeleportedCircleCircleConstraint.cpp b/rigidbody2d/TeleportedCircleCircleConstraint.cpp
index 10acc0f..9dafbfa 100644
--- a/rigidbody2d/TeleportedCircleCircleConstraint.cpp
+++ b/rigidbody2d/TeleportedCircleCircleConstraint.cpp
@@ -157,6 +157,11 @@ void TeleportedCircleCircleConstraint::getWorldSpaceContactPoint( const VectorXs
   contact_point = q.segment<2>( 3 * m_idx0 ) + m_r0;
 }
 
+void TeleportedCircleCircleConstraint::getWorldSpaceContactNormal( const VectorXs& q, VectorXs& contact_normal ) const
+{
+  contact_normal = m_n;
+}
+
 bool TeleportedCircleCircleConstraint::operator==( const TeleportedCircleCircleConstraint& other ) const
 {
   assert( other.m_idx0 < other.m_idx1 );
diff --git a/rigidbody2d/TeleportedCircleCircleConstraint.h b/rigidbody2d/TeleportedCircleCircleConstraint.h
index 9df9f51..b23a50a 100644
--- a/rigidbody2d/TeleportedCircleCircleConstraint.h
+++ b/rigidbody2d/TeleportedCircleCircleConstraint.h
@@ -32,6 +32,7 @@ public:
   // For binary force output
   // TODO: We might want to change the output format to accept two points to account for portals
   virtual void getWorldSpaceContactPoint( const VectorXs& q, VectorXs& contact_point ) const override;
+  virtual void getWorldSpaceContactNormal( const VectorXs& q, VectorXs& contact_normal ) const override;
 
   bool operator==( const TeleportedCircleCircleConstraint& other ) const;
 
-- 
2.43.0


From 346fdb0a1e9c514e11be97dd96cc186ab3770561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:40 +0000
Subject: [PATCH 05/30] fix: do not let parallel edges separate overlapping
 boxes in 3D

---
 rigidbody3d/Constraints/BoxBoxUtilities.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rigidbody3d/Constraints/BoxBoxUtilities.cpp b/rigidbody3d/Constraints/BoxBoxUtilities.cpp
index ac4e569..308e667 100644
--- a/rigidbody3d/Constraints/BoxBoxUtilities.cpp
+++ b/rigidbody3d/Constraints/BoxBoxUtilities.cpp
@@ -126,14 +126,15 @@ static bool axisAlignedSeperatingTest( const scalar& projected_center_dist, cons
 
 static bool edgeEdgeSeparatingTest( const scalar& projected_center_dist, const scalar& projected_aabb_widths, const scalar& n1, const scalar& n2, const scalar& n3, const int crnt_code, scalar& smallest_pen_depth, Vector3s& normalC, bool& invert_normal, int& code )
 {
-  scalar s2{ fabs(projected_center_dist) - projected_aabb_widths };
-  if( s2 > 0 )
-  {
-    return true;
-  }
   const scalar l{ sqrt( n1 * n1 + n2 * n2 + n3 * n3 ) };
-  if( l > 0 )
+  // If the edges are parallel the axis is pure rounding error, and the face axes already cover this case
+  if( l > 1.0e-6 )
   {
+    scalar s2{ fabs(projected_center_dist) - projected_aabb_widths };
+    if( s2 > 0 )
+    {
+      return true;
+    }
     s2 /= l;
     assert( smallest_pen_depth <= 0.0 );
     const scalar fudge_factor{ 1.05 }; // <- TODO: Biasing towards faces, I think?
-- 
2.43.0


From 8f01faf4eaea8ca25cfcc5b1de8f7c5d45c2700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:16 +0000
Subject: [PATCH 06/30] fix: keep the projected gradient solver from hanging on
 a degenerate step size estimate

---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index e66228b..f9fe356 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -52,12 +52,16 @@ namespace ProjectionSolvers
 
     VectorXs y0{ x0 };
     scalar theta0{ 1.0 };
-    assert( ( x0.array() != x1.array() ).any() );
     g = x0 - x1;
     mult( A, g, y1 );
     // Initial estimate of the Lipschitz constant
     scalar Lk{ y1.norm() / ( x0 - x1 ).norm() };
-    assert( Lk != 0.0 );
+    // The estimate is meaningless if x0 equals x1 or if x0 - x1 is in the null space of A, but
+    // backtracking recovers from any positive initial guess
+    if( !( Lk > 0.0 ) )
+    {
+      Lk = 1.0;
+    }
     scalar tk{ 1.0 / Lk };
 
     scalar best_residual{ SCALAR_INFINITY };
-- 
2.43.0


From 01cd5dd1efb0c9f17cf0dc88e71f7957070ea861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:16 +0000
Subject: [PATCH 07/30] fix: keep the projected gradient line search from
 looping forever on rounding errors

---
 scisim/Math/QPSolvers/ProjectionSolvers.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scisim/Math/QPSolvers/ProjectionSolvers.h b/scisim/Math/QPSolvers/ProjectionSolvers.h
index f9fe356..cbe61c3 100644
--- a/scisim/Math/QPSolvers/ProjectionSolvers.h
+++ b/scisim/Math/QPSolvers/ProjectionSolvers.h
@@ -47,6 +47,7 @@ namespace ProjectionSolvers
 
     VectorXs g{ b.size() };
     VectorXs y1{ b.size() };
+    VectorXs Ay1{ b.size() };
     // Store some iterate in x1
     VectorXs x1{ VectorXs::Ones( b.size() ) };
 
@@ -103,6 +104,13 @@ namespace ProjectionSolvers
         {
           break;
         }
+        // Close to a solution the difference of objectives is lost to rounding, and the condition above
+        // can fail for every step size. The equivalent curvature condition does not suffer from this.
+        mult( A, y1, Ay1 );
+        if( !( y1.dot( Ay1 ) > Lk * y1.squaredNorm() ) )
+        {
+          break;
+        }
         Lk = 2.0 * Lk;
         assert( Lk != 0.0 );
         tk = 1.0 / Lk;
-- 
2.43.0


From 93f75501a571a3d1786d9a8536dd433a664eee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:29 +0000
Subject: [PATCH 08/30] fix: do not add warm start impulses to the answer of
 the Gauss-Seidel impact operator

---
 scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
index a71e630..fa77b55 100644
--- a/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
+++ b/scisim/ConstrainedMaps/ImpactMaps/GaussSeidelOperator.cpp
@@ -22,11 +22,13 @@ GaussSeidelOperator::GaussSeidelOperator( std::istream& input_stream )
 void GaussSeidelOperator::flow( const std::vector<std::unique_ptr<Constraint>>& cons, const SparseMatrixsc& M, const SparseMatrixsc& Minv, const VectorXs& q0, const VectorXs& v0, const VectorXs& v0F, const SparseMatrixsc& N, const SparseMatrixsc& Q, const VectorXs& nrel, const VectorXs& CoR, VectorXs& alpha )
 {
   // TODO: Check input sizes, etc
-  assert( ( alpha.array() == 0.0 ).all() );
   assert( ( v0.array() == v0F.array() ).all() );
 
   const unsigned ncons{ unsigned( cons.size() ) };
 
+  // Clear any warm start as we will accumulate the generalized impulse below
+  alpha.setZero();
+
   VectorXs v1 = v0;
 
   // Iterate until all constraint violations fall below the threshold
-- 
2.43.0


From b2cd0e60b3145b80bc154aafd8ebc07a2740c1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:06 +0000
Subject: [PATCH 09/30] fix: restore penalty forces when a 2D ball simulation
 is loaded

---
 ball2d/Ball2DState.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DState.cpp b/ball2d/Ball2DState.cpp
index 5af2610..4b3641f 100644
--- a/ball2d/Ball2DState.cpp
+++ b/ball2d/Ball2DState.cpp
@@ -9,6 +9,7 @@
 #include "scisim/Utilities.h"
 #include "scisim/StringUtilities.h"
 #include "Forces/Ball2DGravityForce.h"
+#include "Forces/PenaltyForce.h"
 
 #include "StaticGeometry/StaticDrum.h"
 #include "StaticGeometry/StaticPlane.h"
@@ -303,6 +304,10 @@ void Ball2DState::deserialize( std::istream& input_stream )
       {
         m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new Ball2DGravityForce{ input_stream } };
       }
+      else if( "hertzian_penalty" == force_name )
+      {
+        m_forces[force_idx] = std::unique_ptr<Ball2DForce>{ new PenaltyForce{ input_stream } };
+      }
       else
       {
         std::cerr << "Unknown force in deserialize." << std::endl;
-- 
2.43.0


From 74fe8794f887316dc1f609a9c44ae3b8bb6e127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:22 +0000
Subject: [PATCH 10/30] fix: restore the symplectic Euler integrator when a 2D
 ball snapshot is loaded

---
 ball2d/Ball2DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ball2d/Ball2DUtilities.cpp b/ball2d/Ball2DUtilities.cpp
index 05b78c2..99de876 100644
--- a/ball2d/Ball2DUtilities.cpp
+++ b/ball2d/Ball2DUtilities.cpp
@@ -8,6 +8,7 @@
 #include <cassert>
 #include "scisim/StringUtilities.h"
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
+#include "ball2d/SymplecticEulerMap.h"
 #include "ball2d/VerletMap.h"
 
 #include <iostream>
@@ -38,6 +39,10 @@ std::unique_ptr<UnconstrainedMap> Ball2DUtilities::deserializeUnconstrainedMap(
   {
     unconstrained_map.reset( new VerletMap{ input_stream } );
   }
+  else if( "symplectic_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new SymplecticEulerMap{ input_stream } );
+  }
   else
   {
     std::cerr << "Deserialization not supported for: " << integrator_name << std::endl;
-- 
2.43.0


From 05ec06e8e7e2c792f74c8db30345eba4996b21cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:22 +0000
Subject: [PATCH 11/30] fix: restore the exponential Euler integrator when a 3D
 rigid body snapshot is loaded

---
 rigidbody3d/RigidBody3DUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rigidbody3d/RigidBody3DUtilities.cpp b/rigidbody3d/RigidBody3DUtilities.cpp
index b384d0e..13fbe36 100644
--- a/rigidbody3d/RigidBody3DUtilities.cpp
+++ b/rigidbody3d/RigidBody3DUtilities.cpp
@@ -10,6 +10,7 @@
 #include "scisim/UnconstrainedMaps/UnconstrainedMap.h"
 
 #include "rigidbody3d/UnconstrainedMaps/DMVMap.h"
+#include "rigidbody3d/UnconstrainedMaps/ExponentialEulerMap.h"
 #include "rigidbody3d/UnconstrainedMaps/SplitHamMap.h"
 
 #include <iostream>
@@ -45,6 +46,10 @@ std::unique_ptr<UnconstrainedMap> RigidBody3DUtilities::deserializeUnconstrained
   {
     unconstrained_map.reset( new SplitHamMap );
   }
+  else if( "exponential_euler" == integrator_name )
+  {
+    unconstrained_map.reset( new ExponentialEulerMap );
+  }
   else if( "NULL" == integrator_name )
   {
     unconstrained_map.reset( nullptr );
-- 
2.43.0


From 91c0b57a2c6aa6ce1110280131b5b028fa4c3848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:23 +0000
Subject: [PATCH 12/30] fix: restore the GRR friction solver when a snapshot is
 loaded

---
 scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
index 74647d3..e9173f2 100644
--- a/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
+++ b/scisim/ConstrainedMaps/ConstrainedMapUtilities.cpp
@@ -18,6 +18,7 @@
 #include "scisim/ConstrainedMaps/ImpactFrictionMap.h"
 #include "scisim/ConstrainedMaps/StaggeredProjections.h"
 #include "scisim/ConstrainedMaps/Sobogus.h"
+#include "scisim/ConstrainedMaps/GRRFriction.h"
 #include "scisim/ConstrainedMaps/ImpactMaps/LCPOperatorAPGD.h"
 
 #ifdef IPOPT_FOUND
@@ -218,6 +219,10 @@ std::unique_ptr<FrictionSolver> ConstrainedMapUtilities::deserializeFrictionSolv
   {
     friction_solver.reset( new Sobogus{ input_stream } );
   }
+  else if( "grr_friction" == friction_solver_name )
+  {
+    friction_solver.reset( new GRRFriction{ input_stream } );
+  }
   else if( "NULL" == friction_solver_name )
   {
     friction_solver.reset( nullptr );
-- 
2.43.0


From 7ed619a2bbcff2b7756c09e5e392419777765545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:57 +0000
Subject: [PATCH 13/30] fix: keep points on the far faces of a mesh's distance
 field inside the field

---
 rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
index 3cba189..78b11b0 100644
--- a/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
+++ b/rigidbody3d/Geometry/RigidBodyTriangleMesh.cpp
@@ -287,8 +287,9 @@ bool RigidBodyTriangleMesh::detectCollision( const Vector3s& x, Vector3s& n ) co
   assert( ( x.array() >= m_grid_origin.array() ).all() );
   assert( ( x.array() <= m_grid_end.array() ).all() );
 
-  // Determine which cell this point lies within
-  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>() };
+  // Determine which cell this point lies within. Points on the far faces of the grid belong to the last cell.
+  const Array3u last_cell{ m_grid_dimensions.array() - 2 };
+  const Array3u indices{ ( ( x - m_grid_origin ).array() / m_cell_delta.array() ).unaryExpr( [](const scalar& y) { return floor(y); } ).cast<unsigned>().min( last_cell ) };
   assert( ( indices + 1 < m_grid_dimensions.array() ).all() );
 
   // Compute the 'barycentric' coordinates of the point in the cell
-- 
2.43.0


From ec79b081fb4ce98b7c648291407f44fe3dc2a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:57 +0000
Subject: [PATCH 14/30] fix: use the squared rod lengths in the moments of
 inertia of staples

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index fab5f7e..84cee1c 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -39,21 +39,21 @@ void RigidBodyStaple::computeMassAndInertia( const scalar& density, scalar& M, V
     I.x() += 2.0 * My * ( CMy.y() * CMy.y() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
     I.x() += Mx * ( m_r * m_r ) / 2.0;
-    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.x() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
 
     // Contributions from translating the cylinders
     I.y() = Mx * ( CMx.x() * CMx.x() + CMx.z() * CMx.z() );
     I.y() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.z() * CMy.z() );
     // Contributions from cylinders' centers of mass
-    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
+    I.y() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
     I.y() += My * ( m_r * m_r );
 
     // Contributions from translating the cylinders
     I.z() = Mx * ( CMx.x() * CMx.x() + CMx.y() * CMx.y() );
     I.z() += 2.0 * My * ( CMy.x() * CMy.x() + CMy.y() * CMy.y() );
     // Contributions from cylinders' centers of mass
-    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w * m_w ) / 12.0;
-    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l * m_l ) / 12.0;
+    I.z() += Mx * ( 3.0 * m_r * m_r + m_w * m_w ) / 12.0;
+    I.z() += 2.0 * My * ( 3.0 * m_r * m_r + m_l * m_l ) / 12.0;
   }
 
   R.setIdentity();
-- 
2.43.0


From f64388e56fa24224d6ec353effbfc8b20e7fcb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:57 +0000
Subject: [PATCH 15/30] fix: include the rod thickness in the bounding box of
 staples

---
 rigidbody3d/Geometry/RigidBodyStaple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rigidbody3d/Geometry/RigidBodyStaple.cpp b/rigidbody3d/Geometry/RigidBodyStaple.cpp
index 84cee1c..1a2338f 100644
--- a/rigidbody3d/Geometry/RigidBodyStaple.cpp
+++ b/rigidbody3d/Geometry/RigidBodyStaple.cpp
@@ -108,6 +108,9 @@ void RigidBodyStaple::computeAABB( const Vector3s& cm, const Matrix33sr& R, Arra
     min = min.min( transformed_vertex );
     max = max.max( transformed_vertex );
   }
+  // Account for the thickness of the staple
+  min -= m_r;
+  max += m_r;
   assert( ( min < max ).all() );
 }
 
-- 
2.43.0


From c6e56d3939e91254b9032f80284d70c2fc91d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 16/30] fix: keep line breaks when loading scene files

---
 ball2dutils/Ball2DSceneParser.cpp           | 1 +
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 1 +
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 52dfa8c..f3c3d55 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -66,6 +66,7 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index 0082c68..5f04c8e 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -62,6 +62,7 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 2b013f9..0b4218c 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -68,6 +68,7 @@ static bool loadTextFileIntoVector( const std::string& filename, std::vector<cha
   while( getline( textfile, line ) )
   {
     std::copy( line.cbegin(), line.cend(), back_inserter( xmlchars ) );
+    xmlchars.emplace_back( '\n' );
   }
   xmlchars.emplace_back( '\0' );
 
-- 
2.43.0


From 1a4fd9a73fdd77eacc90ba90217843ab736b7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 17/30] fix: refuse unreadable numbers and non-positive masses
 and radii of balls

---
 ball2dutils/Ball2DSceneParser.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index f3c3d55..9165347 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -248,40 +248,40 @@ static bool loadBalls( const rapidxml::xml_node<>& node, std::vector<Ball2D>& ba
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the ball's velocity
     Vector2s v;
 
     const rapidxml::xml_attribute<>* const vx_attrib{ nd->first_attribute( "vx" ) };
     if( !vx_attrib ) { return false; }
-    StringUtilities::extractFromString( vx_attrib->value(), v.x() );
+    if( !StringUtilities::extractFromString( vx_attrib->value(), v.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const vy_attrib{ nd->first_attribute( "vy" ) };
     if( !vy_attrib ) { return false; }
-    StringUtilities::extractFromString( vy_attrib->value(), v.y() );
+    if( !StringUtilities::extractFromString( vy_attrib->value(), v.y() ) ) { return false; }
 
     // Attempt to parse the ball's mass
     scalar m;
     const rapidxml::xml_attribute<>* const m_attrib{ nd->first_attribute( "m" ) };
     if( !m_attrib ) { return false; }
-    StringUtilities::extractFromString( m_attrib->value(), m );
+    if( !StringUtilities::extractFromString( m_attrib->value(), m ) || m <= 0.0 ) { return false; }
 
     // Attempt to parse the ball's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) || r <= 0.0 ) { return false; }
 
     // Attempt to parse whether the ball is fixed
     bool fixed;
     const rapidxml::xml_attribute<>* const fixed_attrib{ nd->first_attribute( "fixed" ) };
     if( !fixed_attrib ) { return false; }
-    StringUtilities::extractFromString( fixed_attrib->value(), fixed );
+    if( !StringUtilities::extractFromString( fixed_attrib->value(), fixed ) ) { return false; }
 
     balls.emplace_back( x, v, m, r, fixed );
   }
@@ -298,17 +298,17 @@ static bool loadStaticDrums( const rapidxml::xml_node<>& node, std::vector<Stati
 
     const rapidxml::xml_attribute<>* const x_attrib{ nd->first_attribute( "x" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), x.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), x.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* const y_attrib{ nd->first_attribute( "y" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), x.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), x.y() ) ) { return false; }
 
     // Attempt to parse the drums's radius
     scalar r;
     const rapidxml::xml_attribute<>* const r_attrib{ nd->first_attribute( "r" ) };
     if( !r_attrib ) { return false; }
-    StringUtilities::extractFromString( r_attrib->value(), r );
+    if( !StringUtilities::extractFromString( r_attrib->value(), r ) || r <= 0.0 ) { return false; }
 
     drums.emplace_back( x, r );
   }
@@ -1432,11 +1432,11 @@ static bool loadGravityForce( const rapidxml::xml_node<>& node, std::vector<std:
 
     const rapidxml::xml_attribute<>* x_attrib{ nd->first_attribute( "fx" ) };
     if( !x_attrib ) { return false; }
-    StringUtilities::extractFromString( x_attrib->value(), f.x() );
+    if( !StringUtilities::extractFromString( x_attrib->value(), f.x() ) ) { return false; }
 
     const rapidxml::xml_attribute<>* y_attrib{ nd->first_attribute( "fy" ) };
     if( !y_attrib ) { return false; }
-    StringUtilities::extractFromString( y_attrib->value(), f.y() );
+    if( !StringUtilities::extractFromString( y_attrib->value(), f.y() ) ) { return false; }
 
     forces.emplace_back( new Ball2DGravityForce{ f } );
   }
-- 
2.43.0


From 9afedb7d8e2f73a7a142e154b861dac6f62a9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 18/30] fix: refuse zero plane normals and cylinder axes

---
 ball2dutils/Ball2DSceneParser.cpp           |  5 +++++
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 9165347..58c470f 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -358,6 +358,11 @@ static bool loadStaticPlanes( const rapidxml::xml_node<>& node, std::vector<Stat
       }
 
       n << components[0], components[1];
+      if( n.norm() == 0.0 )
+      {
+        std::cerr << "Invalid static_plane n. Nonzero vector required." << std::endl;
+        return false;
+      }
     }
 
     planes.emplace_back( x, n );
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 0b4218c..dcc4731 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -538,7 +538,12 @@ static bool loadStaticPlanes( const rapidxml::xml_node<>& node, RigidBody3DState
         std::cerr << "Failed to load n attribute for static_plane, must provide 3 scalars." << std::endl;
         return false;
       }
-      assert( x.size() == 3 );
+      assert( n.size() == 3 );
+      if( n.norm() == 0.0 )
+      {
+        std::cerr << "Failed to load n attribute for static_plane, must provide a nonzero vector." << std::endl;
+        return false;
+      }
     }
     // Create the plane
     sim.addStaticPlane( StaticPlane{ x, n } );
@@ -772,6 +777,11 @@ static bool loadStaticCylinders( const rapidxml::xml_node<>& node, RigidBody3DSt
         return false;
       }
       assert( axis.size() == 3 );
+      if( axis.norm() == 0.0 )
+      {
+        std::cerr << "Failed to load axis attribute for static_cylinder, must provide a nonzero vector." << std::endl;
+        return false;
+      }
     }
     // Read the radius of the cylinder
     scalar R;
-- 
2.43.0


From d7a9e53bda4ba28f128d9efec1348609eabb1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:50 +0000
Subject: [PATCH 19/30] fix: refuse non-positive densities of 3D bodies

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index dcc4731..f5850a4 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -374,7 +374,7 @@ static bool loadSimState( const rapidxml::xml_node<>& node, RigidBody3DState& si
         return false;
       }
       const bool parsed{ StringUtilities::extractFromString( attrib->value(), rho ) };
-      if( !parsed )
+      if( !parsed || rho <= 0.0 )
       {
         std::cerr << "Failed to load rho" << std::endl;
         return false;
-- 
2.43.0


From 6eaa2785502539edec000ea6226b69fc5be4a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:51 +0000
Subject: [PATCH 20/30] fix: refuse restitution coefficients outside [0,1] for
 impact operators

---
 ball2dutils/Ball2DSceneParser.cpp           | 2 +-
 rigidbody2dutils/RigidBody2DSceneParser.cpp | 2 +-
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ball2dutils/Ball2DSceneParser.cpp b/ball2dutils/Ball2DSceneParser.cpp
index 58c470f..8087bb5 100644
--- a/ball2dutils/Ball2DSceneParser.cpp
+++ b/ball2dutils/Ball2DSceneParser.cpp
@@ -910,7 +910,7 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
     }
 
     CoR = std::numeric_limits<scalar>::signaling_NaN();
-    if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) )
+    if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) || CoR < 0.0 || CoR > 1.0 )
     {
       std::cerr << "Could not load CoR value" << std::endl;
       return false;
diff --git a/rigidbody2dutils/RigidBody2DSceneParser.cpp b/rigidbody2dutils/RigidBody2DSceneParser.cpp
index 5f04c8e..9a241f4 100644
--- a/rigidbody2dutils/RigidBody2DSceneParser.cpp
+++ b/rigidbody2dutils/RigidBody2DSceneParser.cpp
@@ -800,7 +800,7 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
     }
 
     CoR = std::numeric_limits<scalar>::signaling_NaN();
-    if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) )
+    if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) || CoR < 0.0 || CoR > 1.0 )
     {
       std::cerr << "Could not load CoR value" << std::endl;
       return false;
diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index f5850a4..54d7ebb 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -1458,7 +1458,7 @@ static bool loadImpactOperator( const rapidxml::xml_node<>& node, std::unique_pt
   }
 
   CoR = std::numeric_limits<scalar>::signaling_NaN();
-  if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) )
+  if( !StringUtilities::extractFromString( std::string{ cor_nd->value() }, CoR ) || CoR < 0.0 || CoR > 1.0 )
   {
     std::cerr << "Could not load CoR value" << std::endl;
     return false;
-- 
2.43.0


From 3c6ab7181fec91e2c8d3d8d283104b322bbf9b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:51 +0000
Subject: [PATCH 21/30] fix: refuse renderers of planes and cylinders that do
 not exist

---
 rigidbody3dutils/RigidBody3DSceneParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rigidbody3dutils/RigidBody3DSceneParser.cpp b/rigidbody3dutils/RigidBody3DSceneParser.cpp
index 54d7ebb..2fca804 100644
--- a/rigidbody3dutils/RigidBody3DSceneParser.cpp
+++ b/rigidbody3dutils/RigidBody3DSceneParser.cpp
@@ -825,7 +825,7 @@ static bool loadStaticPlaneRenderers( const rapidxml::xml_node<>& node, const st
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > planes.size() )
+      if( idx >= planes.size() )
       {
         std::cerr << "Failed to load plane attribute for static_plane_renderer. Invalid plane index specified." << std::endl;
         return false;
@@ -875,7 +875,7 @@ static bool loadStaticCylinderRenderers( const rapidxml::xml_node<>& node, const
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Must provide a non-negative integer." << std::endl;
         return false;
       }
-      if( idx > cylinders.size() )
+      if( idx >= cylinders.size() )
       {
         std::cerr << "Failed to load cylinder_idx attribute for static_cylinder_renderer. Invalid cylinder index specified." << std::endl;
         return false;
-- 
2.43.0


From a3a995cb55dfe49c201b3ee79978632542c34be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:23 +0000
Subject: [PATCH 22/30] fix: report snapshots that could not be written

---
 ball2dcli/ball2d_cli.cpp           | 9 +++++++++
 rigidbody2dcli/rigidbody2d_cli.cpp | 9 +++++++++
 rigidbody3dcli/rigidbody3d_cli.cpp | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 5d0ea40..2da8232 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -247,6 +247,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that all of the data reached the file
+  serial_stream.close();
+  if( !serial_stream )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 4c713f8..0fb024a 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -238,6 +238,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that all of the data reached the file
+  serial_stream.close();
+  if( !serial_stream )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 602b8f3..0164ee6 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -252,6 +252,15 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
+  // Verify that all of the data reached the file
+  serial_stream.close();
+  if( !serial_stream )
+  {
+    std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   return EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 28fe842f9cdce89e15c010cf309e071a71db3789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:16 +0000
Subject: [PATCH 23/30] fix: keep the previous snapshot until its replacement
 is complete

---
 ball2dcli/ball2d_cli.cpp           | 12 +++++++-----
 rigidbody2dcli/rigidbody2d_cli.cpp | 12 +++++++-----
 rigidbody3dcli/rigidbody3d_cli.cpp | 12 +++++++-----
 3 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/ball2dcli/ball2d_cli.cpp b/ball2dcli/ball2d_cli.cpp
index 2da8232..16b00f5 100644
--- a/ball2dcli/ball2d_cli.cpp
+++ b/ball2dcli/ball2d_cli.cpp
@@ -7,6 +7,7 @@
 #include <Python.h>
 #endif
 
+#include <cstdio>
 #include <iostream>
 #include <iomanip>
 #include <fstream>
@@ -205,11 +206,12 @@ static int serializeSystem()
   std::cout << "Serializing: " << generateSimulationTimeString() << " to " << serialized_file_name;
   std::cout << "        " << TimeUtils::currentTime() << std::endl;
 
-  // Attempt to open the output file
-  std::ofstream serial_stream{ serialized_file_name, std::ios::binary };
+  // Attempt to open the output file. The data is written to a temporary file so an interrupted save leaves any existing snapshot intact.
+  const std::string partial_file_name{ serialized_file_name + ".partial" };
+  std::ofstream serial_stream{ partial_file_name, std::ios::binary };
   if( !serial_stream.is_open() )
   {
-    std::cerr << "Failed to open serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Failed to open serialization file: " << partial_file_name << std::endl;
     std::cerr << "Exiting." << std::endl;
     return EXIT_FAILURE;
   }
@@ -247,9 +249,9 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
-  // Verify that all of the data reached the file
+  // Verify that all of the data reached the file, and move the file into place
   serial_stream.close();
-  if( !serial_stream )
+  if( !serial_stream || std::rename( partial_file_name.c_str(), serialized_file_name.c_str() ) != 0 )
   {
     std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
     std::cerr << "Exiting." << std::endl;
diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 0fb024a..09d29e2 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -3,6 +3,7 @@
 // Breannan Smith
 // Last updated: 10/01/2015
 
+#include <cstdio>
 #include <iostream>
 #include <iomanip>
 #include <fstream>
@@ -196,11 +197,12 @@ static int serializeSystem()
   std::cout << "Serializing: " << generateSimulationTimeString() << " to " << serialized_file_name;
   std::cout << "        " << TimeUtils::currentTime() << std::endl;
 
-  // Attempt to open the output file
-  std::ofstream serial_stream( serialized_file_name, std::ios::binary );
+  // Attempt to open the output file. The data is written to a temporary file so an interrupted save leaves any existing snapshot intact.
+  const std::string partial_file_name{ serialized_file_name + ".partial" };
+  std::ofstream serial_stream( partial_file_name, std::ios::binary );
   if( !serial_stream.is_open() )
   {
-    std::cerr << "Failed to open serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Failed to open serialization file: " << partial_file_name << std::endl;
     std::cerr << "Exiting." << std::endl;
     return EXIT_FAILURE;
   }
@@ -238,9 +240,9 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
-  // Verify that all of the data reached the file
+  // Verify that all of the data reached the file, and move the file into place
   serial_stream.close();
-  if( !serial_stream )
+  if( !serial_stream || std::rename( partial_file_name.c_str(), serialized_file_name.c_str() ) != 0 )
   {
     std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
     std::cerr << "Exiting." << std::endl;
diff --git a/rigidbody3dcli/rigidbody3d_cli.cpp b/rigidbody3dcli/rigidbody3d_cli.cpp
index 0164ee6..cc634c4 100644
--- a/rigidbody3dcli/rigidbody3d_cli.cpp
+++ b/rigidbody3dcli/rigidbody3d_cli.cpp
@@ -7,6 +7,7 @@
 #include <Python.h>
 #endif
 
+#include <cstdio>
 #include <iostream>
 #include <iomanip>
 #include <cstdlib>
@@ -211,11 +212,12 @@ static int serializeSystem()
   std::cout << "Serializing: " << generateSimulationTimeString() << " to " << serialized_file_name;
   std::cout << "        " << TimeUtils::currentTime() << std::endl;
 
-  // Attempt to open the output file
-  std::ofstream serial_stream{ serialized_file_name, std::ios::binary };
+  // Attempt to open the output file. The data is written to a temporary file so an interrupted save leaves any existing snapshot intact.
+  const std::string partial_file_name{ serialized_file_name + ".partial" };
+  std::ofstream serial_stream{ partial_file_name, std::ios::binary };
   if( !serial_stream.is_open() )
   {
-    std::cerr << "Failed to open serialization file: " << serialized_file_name << std::endl;
+    std::cerr << "Failed to open serialization file: " << partial_file_name << std::endl;
     std::cerr << "Exiting." << std::endl;
     return EXIT_FAILURE;
   }
@@ -252,9 +254,9 @@ static int serializeSystem()
   Utilities::serialize( g_serialize_snapshots, serial_stream );
   Utilities::serialize( g_overwrite_snapshots, serial_stream );
 
-  // Verify that all of the data reached the file
+  // Verify that all of the data reached the file, and move the file into place
   serial_stream.close();
-  if( !serial_stream )
+  if( !serial_stream || std::rename( partial_file_name.c_str(), serialized_file_name.c_str() ) != 0 )
   {
     std::cerr << "Failed to write serialization file: " << serialized_file_name << std::endl;
     std::cerr << "Exiting." << std::endl;
-- 
2.43.0


From a87a79551e4a9e64ae44b2b1a93175c14a0dc407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:08 +0000
Subject: [PATCH 24/30] fix: refuse to run a 2D rigid body scene without an
 integrator

---
 rigidbody2dcli/rigidbody2d_cli.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rigidbody2dcli/rigidbody2d_cli.cpp b/rigidbody2dcli/rigidbody2d_cli.cpp
index 09d29e2..8c5aa82 100644
--- a/rigidbody2dcli/rigidbody2d_cli.cpp
+++ b/rigidbody2dcli/rigidbody2d_cli.cpp
@@ -678,6 +678,13 @@ int main( int argc, char** argv )
     g_end_time = end_time_override;
   }
 
+  // Without an integrator there is no timestep, and the simulation would never reach its end
+  if( !g_dt.positive() )
+  {
+    std::cerr << "The scene must specify an integrator. Exiting." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   // Compute the data output rate
   assert( g_dt.positive() );
   // If the user provided an output frequency
-- 
2.43.0


From e7bd13892a82c95708699d40209c7f747b99d09a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 18:58:24 +0000
Subject: [PATCH 25/30] fix: export 3D scenes with enough digits to describe
 the same bodies

---
 rigidbody3dutils/XMLExporter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rigidbody3dutils/XMLExporter.cpp b/rigidbody3dutils/XMLExporter.cpp
index d309177..ffb32a5 100644
--- a/rigidbody3dutils/XMLExporter.cpp
+++ b/rigidbody3dutils/XMLExporter.cpp
@@ -2,6 +2,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 
 #include "rigidbody3d/RigidBody3DState.h"
 #include "rigidbody3d/Geometry/RigidBodyTriangleMesh.h"
@@ -23,6 +24,9 @@ bool XMLExporter::saveToXMLFile( const std::string& file_name, const RigidBody3D
     return false;
   }
 
+  // Write enough digits for values to survive the trip through text
+  xml_file.precision( std::numeric_limits<scalar>::max_digits10 );
+
   xml_file << "<rigidbody3d_scene>" << std::endl;
 
   // Save the geometry out
-- 
2.43.0


From 93c205e3881f9389e149df86dc411e926079618d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 18:58:24 +0000
Subject: [PATCH 26/30] fix: report a 3D scene export that could not be written

---
 rigidbody3dutils/XMLExporter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rigidbody3dutils/XMLExporter.cpp b/rigidbody3dutils/XMLExporter.cpp
index ffb32a5..ea0b861 100644
--- a/rigidbody3dutils/XMLExporter.cpp
+++ b/rigidbody3dutils/XMLExporter.cpp
@@ -84,6 +84,13 @@ bool XMLExporter::saveToXMLFile( const std::string& file_name, const RigidBody3D
   }
 
   xml_file << "</rigidbody3d_scene>" << std::endl;
+  xml_file.close();
+
+  if( xml_file.fail() )
+  {
+    std::cerr << "Error, failed to write " << file_name << std::endl;
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From 3fce0a9c7f17446eac66799a4aa87c779545c12c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 19:01:43 +0000
Subject: [PATCH 27/30] fix: export 3D bodies where a scene file places them,
 not where their center of mass is

---
 rigidbody3dutils/XMLExporter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rigidbody3dutils/XMLExporter.cpp b/rigidbody3dutils/XMLExporter.cpp
index ea0b861..198d9f3 100644
--- a/rigidbody3dutils/XMLExporter.cpp
+++ b/rigidbody3dutils/XMLExporter.cpp
@@ -62,13 +62,20 @@ bool XMLExporter::saveToXMLFile( const std::string& file_name, const RigidBody3D
   // Save the bodies out
   for( unsigned bdy_idx = 0; bdy_idx < state.nbodies(); bdy_idx++ )
   {
-    const Vector3s x{ state.q().segment<3>( 3 * bdy_idx ) };
+    // The scene file places a body's geometry as it was input, so undo the move to its center of mass and principal axes
+    scalar M_geo;
+    Vector3s x_geo;
+    Vector3s I_geo;
+    Matrix33sr R_geo;
+    state.getGeometryOfBody(bdy_idx).computeMassAndInertia( 1.0, M_geo, x_geo, I_geo, R_geo );
+
+    const Vector3s x{ state.q().segment<3>( 3 * bdy_idx ) - x_geo };
 
     const Matrix33sr R{ Eigen::Map<const Matrix33sr>{ state.q().segment<9>( 3 * state.nbodies() + 9 * bdy_idx ).data() } };
     using std::fabs;
     assert( fabs( R.determinant() - 1.0 ) <= 1.0e-9 );
     assert( ( R.transpose() * R - Matrix33sr::Identity() ).lpNorm<Eigen::Infinity>() <= 1.0e-9 );
-    const Vector3s R_aa{ matrixToAngleAxis( R ) };
+    const Vector3s R_aa{ matrixToAngleAxis( R * R_geo.transpose() ) };
 
     const Vector3s v{ state.v().segment<3>( 3 * bdy_idx ) };
 
-- 
2.43.0


From 8a6e2515e588c3e581a13e003dc4cec1d4011d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:52 +0000
Subject: [PATCH 28/30] fix: scripts' calls refuse an index equal to the number
 of things it counts

---
 ball2d/PythonScripting.cpp      | 10 +++++-----
 rigidbody2d/PythonScripting.cpp | 10 +++++-----
 rigidbody3d/PythonScripting.cpp | 16 ++++++++--------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ball2d/PythonScripting.cpp b/ball2d/PythonScripting.cpp
index 6a206a1..4fb98d6 100644
--- a/ball2d/PythonScripting.cpp
+++ b/ball2d/PythonScripting.cpp
@@ -420,7 +420,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -444,7 +444,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -464,7 +464,7 @@ static PyObject* deleteStaticPlane( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_ball_state != nullptr );
-  if( plane_idx > s_ball_state->staticPlanes().size() )
+  if( plane_idx >= s_ball_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in deleteStaticPlane, plane_idx must be less than " << s_ball_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -513,7 +513,7 @@ static PyObject* collisionType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -532,7 +532,7 @@ static PyObject* collisionIndices( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
diff --git a/rigidbody2d/PythonScripting.cpp b/rigidbody2d/PythonScripting.cpp
index f304934..119288e 100644
--- a/rigidbody2d/PythonScripting.cpp
+++ b/rigidbody2d/PythonScripting.cpp
@@ -369,7 +369,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -393,7 +393,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -417,7 +417,7 @@ static PyObject* setStaticPlaneNormal( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneNormal, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -440,7 +440,7 @@ static PyObject* setStaticPlaneAngularVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneAngularVelocity, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -460,7 +460,7 @@ static PyObject* deleteStaticPlane( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_state != nullptr );
-  if( plane_idx > s_state->planes().size() )
+  if( plane_idx >= s_state->planes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in deleteStaticPlane, plane_idx must be less than " << s_state->planes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
diff --git a/rigidbody3d/PythonScripting.cpp b/rigidbody3d/PythonScripting.cpp
index 504c405..297a209 100644
--- a/rigidbody3d/PythonScripting.cpp
+++ b/rigidbody3d/PythonScripting.cpp
@@ -396,7 +396,7 @@ static PyObject* setStaticPlanePosition( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( plane_idx > s_sim_state->staticPlanes().size() )
+  if( plane_idx >= s_sim_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlanePosition, plane_idx must be less than " << s_sim_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -419,7 +419,7 @@ static PyObject* setStaticPlaneVelocity( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( plane_idx > s_sim_state->staticPlanes().size() )
+  if( plane_idx >= s_sim_state->staticPlanes().size() )
   {
     std::cerr << "Invalid plane_idx parameter of " << plane_idx << " in setStaticPlaneVelocity, plane_idx must be less than " << s_sim_state->staticPlanes().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -450,7 +450,7 @@ static PyObject* setStaticCylinderOrientation( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( cylinder_idx > s_sim_state->staticCylinders().size() )
+  if( cylinder_idx >= s_sim_state->staticCylinders().size() )
   {
     std::cerr << "Invalid cylinder_idx parameter of " << cylinder_idx << " in setStaticCylinderOrientation, cylinder_idx must be less than " << s_sim_state->staticCylinders().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -478,7 +478,7 @@ static PyObject* setStaticCylinderAngularVelocity( PyObject* self, PyObject* arg
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( cylinder_idx > s_sim_state->staticCylinders().size() )
+  if( cylinder_idx >= s_sim_state->staticCylinders().size() )
   {
     std::cerr << "Invalid cylinder_idx parameter of " << cylinder_idx << " in setStaticCylinderAngularVelocity, cylinder_idx must be less than " << s_sim_state->staticCylinders().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -527,7 +527,7 @@ static PyObject* collisionType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionType, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -546,7 +546,7 @@ static PyObject* collisionIndices( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_active_set != nullptr );
-  if( collision_idx > s_active_set->size() )
+  if( collision_idx >= s_active_set->size() )
   {
     std::cerr << "Invalid collision_idx parameter of " << collision_idx << " for collisionIndices, collision_idx must be less than " << s_active_set->size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -579,7 +579,7 @@ static PyObject* forceType( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( force_idx > s_sim_state->forces().size() )
+  if( force_idx >= s_sim_state->forces().size() )
   {
     std::cerr << "Invalid force_idx parameter of " << force_idx << " for forceType, force_idx must be less than " << s_sim_state->forces().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
@@ -601,7 +601,7 @@ static PyObject* setGravityForce( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
   assert( s_sim_state != nullptr );
-  if( force_idx > s_sim_state->forces().size() )
+  if( force_idx >= s_sim_state->forces().size() )
   {
     std::cerr << "Invalid force_idx parameter of " << force_idx << " in setGravityForce, force_idx must be less than " << s_sim_state->forces().size() << ". Exiting." << std::endl;
     std::exit( EXIT_FAILURE );
-- 
2.43.0


From a732c54c9813d4ff8d97e6858453685a2cf309a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:53 +0000
Subject: [PATCH 29/30] fix: delete_bodies and delete_geometry read the array
 they are given, strides included, and only an array

---
 rigidbody2d/PythonScripting.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rigidbody2d/PythonScripting.cpp b/rigidbody2d/PythonScripting.cpp
index 119288e..4f8ec51 100644
--- a/rigidbody2d/PythonScripting.cpp
+++ b/rigidbody2d/PythonScripting.cpp
@@ -539,7 +539,7 @@ static PyObject* addBody( PyObject* self, PyObject* args )
 static PyObject* deleteBodies( PyObject* self, PyObject* args )
 {
   PyArrayObject* body_list;
-  if( !PyArg_ParseTuple( args, "O", &body_list ) )
+  if( !PyArg_ParseTuple( args, "O!", &PyArray_Type, &body_list ) )
   {
     PyErr_Print();
     std::cerr << "Failed to read parameters for delete_bodies, parameters are: 32 bit unsigned NumPy array. Exiting." << std::endl;
@@ -557,7 +557,12 @@ static PyObject* deleteBodies( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
 
-  const Eigen::Map<const VectorXu> bodies_to_delete( static_cast<unsigned*>( PyArray_DATA( body_list ) ), unsigned( PyArray_DIM( body_list, 0 ) ) );
+  // Entries need not be adjacent in memory, e.g. if the array is a slice
+  VectorXu bodies_to_delete( unsigned( PyArray_DIM( body_list, 0 ) ) );
+  for( unsigned entry_idx = 0; entry_idx < bodies_to_delete.size(); ++entry_idx )
+  {
+    bodies_to_delete( entry_idx ) = *static_cast<const unsigned*>( PyArray_GETPTR1( body_list, entry_idx ) );
+  }
 
   const unsigned num_total_bodies{ s_state->nbodies() };
   for( unsigned bdy_idx = 0; bdy_idx < bodies_to_delete.size(); ++bdy_idx )
@@ -577,7 +582,7 @@ static PyObject* deleteBodies( PyObject* self, PyObject* args )
 static PyObject* deleteGeometry( PyObject* self, PyObject* args )
 {
   PyArrayObject* geo_list;
-  if( !PyArg_ParseTuple( args, "O", &geo_list ) )
+  if( !PyArg_ParseTuple( args, "O!", &PyArray_Type, &geo_list ) )
   {
     PyErr_Print();
     std::cerr << "Failed to read parameters for delete_geometry, parameters are: 32 bit unsigned NumPy array. Exiting." << std::endl;
@@ -595,7 +600,12 @@ static PyObject* deleteGeometry( PyObject* self, PyObject* args )
     std::exit( EXIT_FAILURE );
   }
 
-  const Eigen::Map<const VectorXu> geometry_to_delete( static_cast<unsigned*>( PyArray_DATA( geo_list ) ), unsigned( PyArray_DIM( geo_list, 0 ) ) );
+  // Entries need not be adjacent in memory, e.g. if the array is a slice
+  VectorXu geometry_to_delete( unsigned( PyArray_DIM( geo_list, 0 ) ) );
+  for( unsigned entry_idx = 0; entry_idx < geometry_to_delete.size(); ++entry_idx )
+  {
+    geometry_to_delete( entry_idx ) = *static_cast<const unsigned*>( PyArray_GETPTR1( geo_list, entry_idx ) );
+  }
 
   const unsigned num_geo{ static_cast<unsigned>( s_state->geometry().size() ) };
   for( unsigned geo_idx = 0; geo_idx < geometry_to_delete.size(); ++geo_idx )
-- 
2.43.0


From 05c4ca9505e653f199a8b9f4fb1d0d1c7fac61f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:53 +0000
Subject: [PATCH 30/30] fix: delete_geometry refuses geometry that a body still
 uses

---
 rigidbody2d/PythonScripting.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rigidbody2d/PythonScripting.cpp b/rigidbody2d/PythonScripting.cpp
index 4f8ec51..15d5b65 100644
--- a/rigidbody2d/PythonScripting.cpp
+++ b/rigidbody2d/PythonScripting.cpp
@@ -617,6 +617,15 @@ static PyObject* deleteGeometry( PyObject* self, PyObject* args )
     }
   }
 
+  for( unsigned bdy_idx = 0; bdy_idx < s_state->nbodies(); ++bdy_idx )
+  {
+    if( ( geometry_to_delete.array() == s_state->geometryIndices()( bdy_idx ) ).any() )
+    {
+      std::cerr << "Error, geometry to delete must not be used by any body." << std::endl;
+      std::exit( EXIT_FAILURE );
+    }
+  }
+
   s_state->removeGeometry( geometry_to_delete );
 
   return Py_BuildValue( "" );
-- 
2.43.0

