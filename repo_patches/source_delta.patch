From 36cf85a8eaf79f32fa3cef2a1b03a1cb9d12f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:18 +0000
Subject: [PATCH 01/19] fix: place hypercube refinement vertices at their own
 coordinates

The geometry of a sub-vertex decoded the vertex index with the number of
intervals per direction instead of the number of vertices, so it disagreed
with the coordinates the same iterator reports.
---
 dune/geometry/refinement/hcube.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/hcube.cc b/dune/geometry/refinement/hcube.cc
index 0e7c00e..87e7c15 100644
--- a/dune/geometry/refinement/hcube.cc
+++ b/dune/geometry/refinement/hcube.cc
@@ -391,7 +391,7 @@ namespace Dune
       typename RefinementImp<dimension, CoordType>::template Codim<codimension>::Geometry
       RefinementImp<dimension, CoordType>::Codim<codimension>::SubEntityIterator::geometry () const
       {
-        std::array<unsigned int,dimension> intCoords = idx2coord(_index,_nIntervals);
+        std::array<unsigned int,dimension> intCoords = (codimension == 0) ? cellCoord() : vertexCoord();
 
         Dune::FieldVector<CoordType,dimension> lower;
         Dune::FieldVector<CoordType,dimension> upper;
-- 
2.43.0


From f307204abe6e5c50a8c2395614d9ca8e3562cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:18 +0000
Subject: [PATCH 02/19] fix: place simplex refinement vertices at their own
 coordinates

The geometry of a sub-vertex used the unscaled integer position in the
Kuhn simplex instead of the coordinates the same iterator reports.
---
 dune/geometry/refinement/simplex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/simplex.cc b/dune/geometry/refinement/simplex.cc
index c06f22b..6f3b203 100644
--- a/dune/geometry/refinement/simplex.cc
+++ b/dune/geometry/refinement/simplex.cc
@@ -522,7 +522,7 @@ namespace Dune {
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = (CoordVector)vertex;
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From b6eae025beb68805a53c33babdc5314d2cd48bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:18 +0000
Subject: [PATCH 03/19] fix: place pyramid refinement vertices at their own
 coordinates

The geometry of a sub-vertex missed the transformation from the Kuhn
decomposition to the reference pyramid.
---
 dune/geometry/refinement/pyramidtriangulation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/pyramidtriangulation.cc b/dune/geometry/refinement/pyramidtriangulation.cc
index 59d4cef..540dbf6 100644
--- a/dune/geometry/refinement/pyramidtriangulation.cc
+++ b/dune/geometry/refinement/pyramidtriangulation.cc
@@ -224,7 +224,7 @@ namespace Dune
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = referenceToKuhn(backend.coords(), getPermutation<dimension>(kuhnIndex));
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From e83c33e985dd56706a050f3a595bd001dc12e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:18 +0000
Subject: [PATCH 04/19] fix: allow self-assignment of virtual refinement
 iterators

Assignment deleted the backend before cloning the other iterator's
backend, which is the deleted one on self-assignment.
---
 dune/geometry/virtualrefinement.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/virtualrefinement.cc b/dune/geometry/virtualrefinement.cc
index cf1715c..1c22b16 100644
--- a/dune/geometry/virtualrefinement.cc
+++ b/dune/geometry/virtualrefinement.cc
@@ -157,8 +157,9 @@ namespace Dune
   VirtualRefinement<dimension, CoordType>::Codim<codimension>::SubEntityIterator::
   operator=(const This &other)
   {
+    IteratorBack *newBackend = other.backend->clone();
     delete backend;
-    backend = other.backend->clone();
+    backend = newBackend;
     return *this;
   }
 
-- 
2.43.0


From 774f2ba77e3620286abdd17b205ef8900ae95eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:35 +0000
Subject: [PATCH 05/19] fix: return the rule of the named shape when asked by
 basic type

The basic type was converted to a topology id, so that asking for a cube
returned a simplex rule and asking for a prism returned a pyramid rule.
---
 dune/geometry/quadraturerules.hh | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 43a48dc..f080a23 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -331,8 +331,23 @@ namespace Dune {
     //! @copydoc rule
     static const QuadratureRule& rule(const GeometryType::BasicType t, int p, QuadratureType::Enum qt=QuadratureType::GaussLegendre)
     {
-      GeometryType gt(t,dim);
-      return instance()._rule(gt,p,qt);
+      switch (t) {
+      case GeometryType::simplex :
+        return rule(GeometryTypes::simplex(dim),p,qt);
+      case GeometryType::cube :
+        return rule(GeometryTypes::cube(dim),p,qt);
+      case GeometryType::pyramid :
+        if (dim == 3)
+          return rule(GeometryTypes::pyramid,p,qt);
+        break;
+      case GeometryType::prism :
+        if (dim == 3)
+          return rule(GeometryTypes::prism,p,qt);
+        break;
+      default :
+        break;
+      }
+      DUNE_THROW(NotImplemented, "No quadrature rules for BasicType " << int(t) << " in dimension " << dim);
     }
   };
 
-- 
2.43.0


From c57c712c6dea31f405f4c7698bea4018d1d8b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:35 +0000
Subject: [PATCH 06/19] fix: refuse unsupported quadrature orders before
 indexing the cache

A request with a negative order or an order above the maximum read past
the end of the vector of cached rules.
---
 dune/geometry/quadraturerules.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index f080a23..ab8e981 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -294,6 +294,10 @@ namespace Dune {
         orders = QuadratureOrderVector(numRules);
       });
 
+      // there is no entry in the cache for orders which are not supported
+      if (dim > 0 && (p < 0 || p >= int(quadratureOrders.size())))
+        DUNE_THROW(QuadratureOrderOutOfRange, "Quadrature rule of order " << p << " not supported for " << t << "!");
+
       // we only have one quadrature rule for points
       auto& [ onceFlagQuadratureOrder, quadratureRule ] = quadratureOrders[dim == 0 ? 0 : p];
       // initialize quadrature rule once
-- 
2.43.0


From 6e98c992e2e53d52ed2997a86dc7dc7f0b8ac173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:49 +0000
Subject: [PATCH 07/19] fix: accept an initial guess that already solves the
 problem

Gauss-Newton requires a reduction of the residual in every step, so it
reported stagnation when started at the solution.  As a consequence the
local coordinates of the center of a mapped geometry could not be found.
---
 dune/geometry/utility/algorithms.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index 40259a6..39624f4 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -93,9 +93,9 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
       alpha *= opts.theta;
     }
 
-    // cannot reduce the residual
+    // cannot reduce the residual, x0 might already be a solution
     if (!(resNorm < resNorm0))
-      return GaussNewtonErrorCode::STAGNATION;
+      return (resNorm0 < opts.absTol) ? GaussNewtonErrorCode::OK : GaussNewtonErrorCode::STAGNATION;
 
     x0 = x;
     resNorm0 = resNorm;
-- 
2.43.0


From 7ce2b586b1045153e67f9a208be263d86e847009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:13 +0000
Subject: [PATCH 08/19] fix: compare different quadrature rules when computing
 curved volumes

The volume is computed with rules of increasing order until it no longer
changes.  Orders that share the same points give identical values, so the
iteration stopped at order three for cubes whatever the map was.  The
iteration also ran past the largest supported order if it did not converge.
Compare relative to the volume so that large elements still converge.
---
 dune/geometry/localfiniteelementgeometry.hh | 18 ++++++++++++++----
 dune/geometry/mappedgeometry.hh             | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/dune/geometry/localfiniteelementgeometry.hh b/dune/geometry/localfiniteelementgeometry.hh
index cdbbe60..ffdf9d2 100644
--- a/dune/geometry/localfiniteelementgeometry.hh
+++ b/dune/geometry/localfiniteelementgeometry.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_GEOMETRY_LOCALFINITEELEMENTGEOMETRY_HH
 #define DUNE_GEOMETRY_LOCALFINITEELEMENTGEOMETRY_HH
 
+#include <algorithm>
 #include <cassert>
 #include <functional>
 #include <limits>
@@ -275,16 +276,25 @@ public:
    **/
   Volume volume (Impl::ConvergenceOptions<ctype> opts = {}) const
   {
-    Volume vol0 = volume(QuadratureRules<ctype, mydimension>::rule(type(), 1));
+    const auto* rule0 = &QuadratureRules<ctype, mydimension>::rule(type(), 1);
+    Volume vol0 = volume(*rule0);
     if (affine())
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
-      Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
-      if (abs(vol1 - vol0) < opts.absTol)
+    using std::max;
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 2; p < opts.maxIt && p <= maxOrder; ++p) {
+      // consecutive orders may be realized by the same points, which says nothing about convergence
+      const auto* rule1 = &QuadratureRules<ctype, mydimension>::rule(type(), p);
+      if (rule1->size() == rule0->size())
+        continue;
+
+      Volume vol1 = volume(*rule1);
+      if (abs(vol1 - vol0) < opts.absTol * max(Volume(1), abs(vol1)))
         return vol1;
 
+      rule0 = rule1;
       vol0 = vol1;
     }
     return vol0;
diff --git a/dune/geometry/mappedgeometry.hh b/dune/geometry/mappedgeometry.hh
index 89604ac..98ac0b9 100644
--- a/dune/geometry/mappedgeometry.hh
+++ b/dune/geometry/mappedgeometry.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_GEOMETRY_MAPPEDGEOMETRY_HH
 #define DUNE_GEOMETRY_MAPPEDGEOMETRY_HH
 
+#include <algorithm>
 #include <cassert>
 #include <limits>
 #include <optional>
@@ -240,16 +241,25 @@ public:
    **/
   Volume volume (Impl::ConvergenceOptions<ctype> opts = {}) const
   {
-    Volume vol0 = volume(QuadratureRules<ctype, mydimension>::rule(type(), 1));
+    const auto* rule0 = &QuadratureRules<ctype, mydimension>::rule(type(), 1);
+    Volume vol0 = volume(*rule0);
     if (affine())
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
-      Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
-      if (abs(vol1 - vol0) < opts.absTol)
+    using std::max;
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 2; p < opts.maxIt && p <= maxOrder; ++p) {
+      // consecutive orders may be realized by the same points, which says nothing about convergence
+      const auto* rule1 = &QuadratureRules<ctype, mydimension>::rule(type(), p);
+      if (rule1->size() == rule0->size())
+        continue;
+
+      Volume vol1 = volume(*rule1);
+      if (abs(vol1 - vol0) < opts.absTol * max(Volume(1), abs(vol1)))
         return vol1;
 
+      rule0 = rule1;
       vol0 = vol1;
     }
     return vol0;
-- 
2.43.0


From 170b59416907f1eaebd118030ec4a2a571c18e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:01 +0000
Subject: [PATCH 09/19] fix: compare shapeless geometry types by dimension

The documentation says that two 'none' types are equal if and only if they
have the same dimension, but equality ignored the dimension while the order
did not.  The order also looked at the meaningless topology id of extended
'none' types.
---
 dune/geometry/type.hh | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dune/geometry/type.hh b/dune/geometry/type.hh
index 7a39694..25dff7a 100644
--- a/dune/geometry/type.hh
+++ b/dune/geometry/type.hh
@@ -376,11 +376,8 @@ namespace Dune
      */
     constexpr bool operator==(const GeometryType& other) const {
       return ( ( none_ == other.none_ )
-               && ( ( none_ == true )
-                    || ( ( dim_ == other.dim_ )
-                         && ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
-                         )
-                    )
+               && ( dim_ == other.dim_ )
+               && ( none_ || ( (topologyId_ >> 1) == (other.topologyId_ >> 1) ) )
                );
     }
 
@@ -394,7 +391,7 @@ namespace Dune
       return ( ( none_ < other.none_ )
                || ( !( other.none_ < none_ )
                     && ( ( dim_ < other.dim_ )
-                         || ( (other.dim_ == dim_)
+                         || ( (other.dim_ == dim_) && ! none_
                               && ((topologyId_ >> 1) < (other.topologyId_ >> 1) )
                               )
                          )
-- 
2.43.0


From 72046ae2b5260496b3c17e31d39e5d3cea314df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:11 +0000
Subject: [PATCH 10/19] fix: report a singular affine map in
 CachedMultiLinearGeometry::local

The affine branch ignored that the Jacobian could not be inverted and
returned whatever the solver had left behind.  MultiLinearGeometry::local
answers with the largest number in every component; do the same here.
---
 dune/geometry/multilineargeometry.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/multilineargeometry.hh b/dune/geometry/multilineargeometry.hh
index 1ca32dc..f3fd1b4 100644
--- a/dune/geometry/multilineargeometry.hh
+++ b/dune/geometry/multilineargeometry.hh
@@ -608,8 +608,8 @@ namespace Dune
         LocalCoordinate local;
         if( jacobianInverseTransposedComputed_ )
           jacobianInverseTransposed_.mtv( global - corner( 0 ), local );
-        else
-          MatrixHelper::xTRightInvA( jacobianTransposed_, global - corner( 0 ), local );
+        else if( !MatrixHelper::xTRightInvA( jacobianTransposed_, global - corner( 0 ), local ) )
+          return LocalCoordinate( std::numeric_limits< ctype > :: max() );
         return local;
       }
       else
-- 
2.43.0


From b370b109ac9c7a57770aef62984a02bafb95c1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:11 +0000
Subject: [PATCH 11/19] fix: judge the Gauss-Newton start value if no iteration
 is allowed

With maxIt = 0 the loop is never entered and the residual norm compared
with the tolerance is the initial zero, so the start value was reported
as a solution.  Compare the residual norm of the current iterate.
---
 dune/geometry/utility/algorithms.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index 39624f4..d17c40f 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -106,7 +106,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
   }
 
   // tolerance could not be reached
-  if (!(resNorm < opts.absTol))
+  if (!(resNorm0 < opts.absTol))
     return GaussNewtonErrorCode::TOLERANCE_NOT_REACHED;
 
   return GaussNewtonErrorCode::OK;
-- 
2.43.0


From d749cde75a9787dea7376c7396d40377c09d5456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:11 +0000
Subject: [PATCH 12/19] fix: recognize flat affine elements in
 MultiLinearGeometry::local

The Jacobian was evaluated at the barycenter.  Rounding in its
coordinates turns a vanishing row into noise, the inversion then
succeeds, and a point far away is returned as the solution.  An affine
element already provides the exact corner differences, so use them.
---
 dune/geometry/multilineargeometry.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/multilineargeometry.hh b/dune/geometry/multilineargeometry.hh
index f3fd1b4..5316662 100644
--- a/dune/geometry/multilineargeometry.hh
+++ b/dune/geometry/multilineargeometry.hh
@@ -314,13 +314,15 @@ namespace Dune
       const ctype tolerance = Traits::tolerance();
       LocalCoordinate x = refElement().position( 0, 0 );
       LocalCoordinate dx;
-      const bool affineMapping = this->affine();
+      JacobianTransposed jt;
+      const bool affineMapping = affine( jt );
       do
       {
         // Newton's method: DF^n dx^n = F^n, x^{n+1} -= dx^n
         const GlobalCoordinate dglobal = (*this).global( x ) - globalCoord;
-        const bool invertible =
-          MatrixHelper::xTRightInvA( jacobianTransposed( x ), dglobal, dx );
+        if( !affineMapping )
+          jt = jacobianTransposed( x );
+        const bool invertible = MatrixHelper::xTRightInvA( jt, dglobal, dx );
         if( ! invertible )
           return LocalCoordinate( std::numeric_limits< ctype > :: max() );
 
-- 
2.43.0


From b688d74321e634f45101b55a0ddc61cab1993161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:11 +0000
Subject: [PATCH 13/19] fix: keep the dependence on all coordinates in the tip
 plane

For xn = 1 MultiLinearGeometry::global ignored the other coordinates, so
every point of that plane was mapped to the tip, even for a simplex,
whose map is affine.  An iteration that happens to reach the plane then
stops at a wrong point.  Add the derivative of the base mapping, which
is the limit for an affine base and zero inside the reference element.
---
 dune/geometry/multilineargeometry.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dune/geometry/multilineargeometry.hh b/dune/geometry/multilineargeometry.hh
index 5316662..c53db9d 100644
--- a/dune/geometry/multilineargeometry.hh
+++ b/dune/geometry/multilineargeometry.hh
@@ -769,7 +769,15 @@ namespace Dune
       if( cxn > Traits::tolerance() || cxn < -Traits::tolerance() )
         global< add >( topologyId, std::integral_constant< int, dim-1 >(), cit, df/cxn, x, rf*cxn, y );
       else
+      {
+        // for xn -> 1 only the derivative of the mapping for bottom in x remains (see jacobianTransposed)
+        auto cit2( cit );
+        FieldMatrix< ctype, dim-1, coorddimension > jt2;
+        jacobianTransposed< false >( topologyId, std::integral_constant< int, dim-1 >(), cit2, ctype( 0 ), x, rf, jt2 );
         global< add >( topologyId, std::integral_constant< int, dim-1 >(), cit, df, x, ctype( 0 ), y );
+        for( int j = 0; j < dim-1; ++j )
+          y.axpy( df*x[ j ], jt2[ j ] );
+      }
       // apply xn times the tip
       y.axpy( rf*xn, *cit );
       ++cit;
-- 
2.43.0


From e8829896be921e8578bd20071832ef8cf36754dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:07:59 +0000
Subject: [PATCH 14/19] fix: keep one singleton per geometry type, not per
 topology id

GeometryTypes::simplex(1) and GeometryTypes::cube(1) are equal, but their
topology ids differ in the lowest bit, so that TopologySingletonFactory
created two objects for them.
---
 dune/geometry/topologyfactory.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/topologyfactory.hh b/dune/geometry/topologyfactory.hh
index c4309f8..e5226df 100644
--- a/dune/geometry/topologyfactory.hh
+++ b/dune/geometry/topologyfactory.hh
@@ -130,7 +130,8 @@ namespace Dune
 
     std::unique_ptr< Object, ObjectDeleter > &find ( const unsigned int topologyId, const Key &key )
     {
-      return storage_[ key ][ topologyId ];
+      // ids differing only in the lowest bit denote the same geometry type
+      return storage_[ key ][ LocalGeometryTypeIndex::index( GeometryType( topologyId, dimension ) ) ];
     }
 
     Object *getObject ( const Dune::GeometryType &gt, const Key &key )
-- 
2.43.0


From 81be6b20a1fbc0e63dec43777d43428f81adbb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:40 +0000
Subject: [PATCH 15/19] fix: do not index the empty position of a vertex rule
 in Python

---
 dune/python/geometry/quadraturerules.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/geometry/quadraturerules.hh b/dune/python/geometry/quadraturerules.hh
index b3266cc..6a872f7 100644
--- a/dune/python/geometry/quadraturerules.hh
+++ b/dune/python/geometry/quadraturerules.hh
@@ -32,7 +32,7 @@ namespace Dune
             static_cast< ssize_t >( sizeof(rule[ 0 ].position()[ 0 ]) ),
             static_cast< ssize_t >( sizeof(rule[ 0 ]) )
           },
-          &rule[ 0 ].position()[ 0 ]
+          rule[ 0 ].position().data()
         );
       pybind11::array_t< double > w(
           { static_cast< ssize_t >( rule.size() ) },
-- 
2.43.0


From f588f2947c558e3398d334f62d8dad4d9db63ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:40 +0000
Subject: [PATCH 16/19] fix: keep a rule alive while Python iterates over it

---
 dune/python/geometry/quadraturerules.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/python/geometry/quadraturerules.hh b/dune/python/geometry/quadraturerules.hh
index 6a872f7..2de5a95 100644
--- a/dune/python/geometry/quadraturerules.hh
+++ b/dune/python/geometry/quadraturerules.hh
@@ -85,7 +85,8 @@ namespace Dune
             return quadratureToNumpy<Rule>(self);
             } );
 
-        cls.def( "__iter__", [] ( const Rule &rule ) { return pybind11::make_iterator( rule.begin(), rule.end() ); } );
+        cls.def( "__iter__", [] ( const Rule &rule ) { return pybind11::make_iterator( rule.begin(), rule.end() ); },
+                 pybind11::keep_alive< 0, 1 >() );
       }
 
     } // namespace detail
-- 
2.43.0


From 22de8d4943112d17059c020cf7a45fdcb48f7888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:40 +0000
Subject: [PATCH 17/19] fix: integrate over entities that are geometries
 themselves

---
 python/dune/geometry/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dune/geometry/__init__.py b/python/dune/geometry/__init__.py
index d594cc8..11bc7c9 100644
--- a/python/dune/geometry/__init__.py
+++ b/python/dune/geometry/__init__.py
@@ -10,7 +10,7 @@ def _duneIntegrate(self,entity,f):
     try:
         ie = entity.geometry.integrationElement
     except AttributeError:
-        ie = geometry.integrationElement
+        ie = entity.integrationElement
     return numpy.sum(f(entity,points)*ie(points)*weights,axis=-1)
 
 _duneQuadratureRules = {}
-- 
2.43.0


From 79de3b8a8e98f6629e7b46039d60a88f2c2c52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:40 +0000
Subject: [PATCH 18/19] fix: register the methods of multilinear geometries in
 Python

---
 dune/python/geometry/multilineargeometry.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dune/python/geometry/multilineargeometry.hh b/dune/python/geometry/multilineargeometry.hh
index 9633c6f..533567e 100644
--- a/dune/python/geometry/multilineargeometry.hh
+++ b/dune/python/geometry/multilineargeometry.hh
@@ -32,7 +32,10 @@ namespace Dune
       void operator()(pybind11::class_<MGeometry>& cls)
       {
         cls.def("toLocal"                  , &MGeometry::local);
-        cls.def("jacobianInverseTransposed", &MGeometry::jacobianInverseTransposed);
+        cls.def("jacobianInverseTransposed",
+            [](const MGeometry& geom, const typename MGeometry::LocalCoordinate& local) {
+              return static_cast<FieldMatrix<typename MGeometry::ctype, MGeometry::coorddimension, MGeometry::mydimension>>(geom.jacobianInverseTransposed(local));
+            });
       }
     };
 
@@ -66,7 +69,7 @@ namespace Dune
           );
       auto cls = entry.first;
 
-      if (!entry.second)
+      if (entry.second)
       {
         cls.def( pybind11::init( [] ( Dune::GeometryType type, pybind11::list corners ) {
             const std::size_t numCorners = corners.size();
-- 
2.43.0


From 03bbdade3bca028010608aaf1274da7f63e65712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:17:40 +0000
Subject: [PATCH 19/19] fix: advertise only the Gauss-Jacobi rules available
 for the number type

---
 .../quadraturerules/jacobiNquadrature.hh      | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/dune/geometry/quadraturerules/jacobiNquadrature.hh b/dune/geometry/quadraturerules/jacobiNquadrature.hh
index 49431d5..aa61da0 100644
--- a/dune/geometry/quadraturerules/jacobiNquadrature.hh
+++ b/dune/geometry/quadraturerules/jacobiNquadrature.hh
@@ -61,18 +61,27 @@ namespace Dune {
 
     }
 
+    // highest order for which the tabulated rules are used
+    static unsigned tableOrder()
+    {
+      return std::min(   static_cast<unsigned>(GaussQuadratureRule1D<ct>::highest_order),
+               std::min( static_cast<unsigned>(Jacobi1QuadratureRule1D<ct>::highest_order),
+                         static_cast<unsigned>(Jacobi2QuadratureRule1D<ct>::highest_order))
+               );
+    }
+
     static unsigned maxOrder()
     {
-      return 127; // can be changed
+#if HAVE_LAPACK
+      if constexpr (std::is_floating_point<ct>::value)
+        return 127; // can be changed
+#endif
+      return tableOrder();
     }
 
     QuadratureRule<ct,1> decideRule(int const degree, int const alpha)
     {
-      const auto maxOrder = std::min(   static_cast<unsigned>(GaussQuadratureRule1D<ct>::highest_order),
-                              std::min( static_cast<unsigned>(Jacobi1QuadratureRule1D<ct>::highest_order),
-                                        static_cast<unsigned>(Jacobi2QuadratureRule1D<ct>::highest_order))
-                              );
-      return static_cast<unsigned>(degree) < maxOrder ? decideRuleExponent(degree,alpha) : UseLapackOrError<ct>(degree, alpha);
+      return static_cast<unsigned>(degree) <= tableOrder() ? decideRuleExponent(degree,alpha) : UseLapackOrError<ct>(degree, alpha);
     }
 
 #if HAVE_LAPACK
-- 
2.43.0

