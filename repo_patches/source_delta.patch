From 335ad891ab2f250533f3e9038453af3b87986935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 01/25] fix: CollectionMixin::find returns the keys doc()
 accepts

find() is documented to return the IDs of the matching documents, which callers
hand to doc(). It returned the id entry of the document itself, which the
caller can overwrite through the mutable doc(), so the result could name no
document of the collection.
---
 include/NeoFOAM/core/database/collection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/database/collection.hpp b/include/NeoFOAM/core/database/collection.hpp
index ecc32a5..8bb7e45 100644
--- a/include/NeoFOAM/core/database/collection.hpp
+++ b/include/NeoFOAM/core/database/collection.hpp
@@ -273,7 +273,7 @@ public:
         {
             if (predicate(doc.doc()))
             {
-                result.push_back(doc.id());
+                result.push_back(key);
             }
         }
         return result;
-- 
2.43.0


From 3c35b135b14ebdffdbac022fae89a87ab362903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 02/25] fix: NF_ASSERT_THROW and the macros built on it compile

NF_ASSERT_THROW streamed its message inside std::string(...), so no use of
NF_ASSERT_THROW, NF_ASSERT_EQUAL_THROW or their debug forms compiled.
---
 include/NeoFOAM/core/error.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/error.hpp b/include/NeoFOAM/core/error.hpp
index d169dd1..237b35e 100644
--- a/include/NeoFOAM/core/error.hpp
+++ b/include/NeoFOAM/core/error.hpp
@@ -169,7 +169,11 @@ private:
     {                                                                                              \
         if (!(condition)) [[unlikely]]                                                             \
         {                                                                                          \
-            NF_THROW("Assertion `" #condition "` failed.\n       " << message);                    \
+            throw NeoFOAM::NeoFOAMException(                                                       \
+                (std::stringstream()                                                               \
+                 << NF_ERROR_MESSAGE("Assertion `" #condition "` failed.\n       " << message))    \
+                    .str()                                                                         \
+            );                                                                                     \
         }                                                                                          \
     }                                                                                              \
     while (false)
-- 
2.43.0


From 6f8da3e000f8e9e4a8317d413232f63706a55b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 03/25] fix: GaussGreenDiv::div returning a field accumulates
 onto zero instead of uninitialised memory

---
 .../NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
index 26756c4..5c0984d 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp
@@ -90,6 +90,7 @@ public:
             this->mesh_,
             createCalculatedBCs<VolumeBoundary<ValueType>>(this->mesh_)
         );
+        fill(divPhi.internalField(), zero<ValueType>());
         computeDivExp<ValueType>(
             faceFlux, phi, surfaceInterpolation_, divPhi.internalField(), operatorScaling
         );
-- 
2.43.0


From cacbee044a3655bb434c44b67cd2492aae09a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 04/25] fix: BoundaryPatchMixin::patchEnd returns the end of
 the patch

---
 .../finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
index 08db58e..773a561 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp
@@ -42,7 +42,7 @@ public:
 
     label patchStart() const { return start_; };
 
-    label patchEnd() const { return start_; };
+    label patchEnd() const { return end_; };
 
     size_t patchSize() const { return static_cast<size_t>(end_ - start_); }
 
-- 
2.43.0


From 47a759b8b2c0c12f9b629e92e8305b5f27ac66d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 05/25] fix: implicit div and laplacian update the boundary
 cells atomically

---
 .../cellCentred/operators/gaussGreenDiv.cpp    | 11 ++++++++---
 .../operators/gaussGreenLaplacian.cpp          | 18 +++++++++++-------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index cc23122..6862195 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -219,10 +219,15 @@ void computeDivImp(
             std::size_t rowOwnStart = matrix.rowOffs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            matrix.values[rowOwnStart + diagOffs[own]] +=
-                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>();
+            Kokkos::atomic_add(
+                &matrix.values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>()
+            );
             // TODO fix bc values
-            rhs[own] -= (flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei]));
+            Kokkos::atomic_sub(
+                &rhs[own],
+                flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei])
+            );
             // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
         }
     );
diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index b022671..6f04296 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -163,13 +163,17 @@ void computeLaplacianImpl(
             std::size_t rowOwnStart = rowPtrs[own];
             scalar operatorScalingOwn = operatorScaling[own];
 
-            values[rowOwnStart + diagOffs[own]] -= flux * operatorScalingOwn
-                                                 * valueFraction[bcfacei] * deltaCoeffs[facei]
-                                                 * one<ValueType>();
-            rhs[own] -=
-                (flux * operatorScalingOwn
-                 * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
-                    + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei]));
+            Kokkos::atomic_sub(
+                &values[rowOwnStart + diagOffs[own]],
+                flux * operatorScalingOwn * valueFraction[bcfacei] * deltaCoeffs[facei]
+                    * one<ValueType>()
+            );
+            Kokkos::atomic_sub(
+                &rhs[own],
+                flux * operatorScalingOwn
+                    * (valueFraction[bcfacei] * deltaCoeffs[facei] * refValue[bcfacei]
+                       + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei])
+            );
         }
     );
 }
-- 
2.43.0


From 04a5de14e9743fcaef402739bccf27b493b2bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 06/25] fix: implicit div accounts for the fixed gradient on
 the boundary

---
 .../cellCentred/operators/gaussGreenDiv.cpp          | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
index 6862195..0f8ba33 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenDiv.cpp
@@ -201,11 +201,12 @@ void computeDivImp(
         }
     );
 
-    auto [refGradient, value, valueFraction, refValue] = spans(
+    auto [refGradient, value, valueFraction, refValue, deltaCoeffs] = spans(
         phi.boundaryField().refGrad(),
         phi.boundaryField().value(),
         phi.boundaryField().valueFraction(),
-        phi.boundaryField().refValue()
+        phi.boundaryField().refValue(),
+        mesh.boundaryMesh().deltaCoeffs()
     );
 
     parallelFor(
@@ -223,12 +224,13 @@ void computeDivImp(
                 &matrix.values[rowOwnStart + diagOffs[own]],
                 flux * operatorScalingOwn * (1.0 - valueFraction[bcfacei]) * one<ValueType>()
             );
-            // TODO fix bc values
             Kokkos::atomic_sub(
                 &rhs[own],
-                flux * operatorScalingOwn * (valueFraction[bcfacei] * refValue[bcfacei])
+                flux * operatorScalingOwn
+                    * (valueFraction[bcfacei] * refValue[bcfacei]
+                       + (1.0 - valueFraction[bcfacei]) * (1.0 / deltaCoeffs[bcfacei])
+                             * refGradient[bcfacei])
             );
-            // + (1.0 - valueFraction[bcfacei]) * refGradient[bcfacei] / deltaCoeffs[facei]));
         }
     );
 };
-- 
2.43.0


From 52426579126ea65d6152af327147a0641001ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 07/25] fix: explicit laplacian multiplies by the diffusion
 coefficient

---
 .../cellCentred/operators/gaussGreenLaplacian.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
index 6f04296..40fea36 100644
--- a/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
+++ b/src/finiteVolume/cellCentred/operators/gaussGreenLaplacian.cpp
@@ -32,8 +32,13 @@ void computeLaplacianExp(
         phi.boundaryField().refValue()
     );
 
-    const auto [result, faceArea, fnGrad, vol] =
-        spans(lapPhi, mesh.magFaceAreas(), faceNormalGrad.internalField(), mesh.cellVolumes());
+    const auto [result, sGamma, faceArea, fnGrad, vol] = spans(
+        lapPhi,
+        gamma.internalField(),
+        mesh.magFaceAreas(),
+        faceNormalGrad.internalField(),
+        mesh.cellVolumes()
+    );
 
 
     size_t nInternalFaces = mesh.nInternalFaces();
@@ -43,7 +48,7 @@ void computeLaplacianExp(
         exec,
         {0, nInternalFaces},
         KOKKOS_LAMBDA(const size_t i) {
-            ValueType flux = faceArea[i] * fnGrad[i];
+            ValueType flux = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[static_cast<size_t>(owner[i])], flux);
             Kokkos::atomic_sub(&result[static_cast<size_t>(neighbour[i])], flux);
         }
@@ -54,7 +59,7 @@ void computeLaplacianExp(
         {nInternalFaces, fnGrad.size()},
         KOKKOS_LAMBDA(const size_t i) {
             size_t own = static_cast<size_t>(surfFaceCells[i - nInternalFaces]);
-            ValueType valueOwn = faceArea[i] * fnGrad[i];
+            ValueType valueOwn = sGamma[i] * faceArea[i] * fnGrad[i];
             Kokkos::atomic_add(&result[own], valueOwn);
         }
     );
-- 
2.43.0


From 9d7c299b2d2272784c00c6248720046f47d7bddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 08/25] fix: explicit ddt applies the operator's coefficient

---
 src/finiteVolume/cellCentred/operators/ddtOperator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
index 35dea90..732dde9 100644
--- a/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
+++ b/src/finiteVolume/cellCentred/operators/ddtOperator.cpp
@@ -18,6 +18,7 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
 {
     const scalar dtInver = 1.0 / dt;
     const auto vol = this->getField().mesh().cellVolumes().view();
+    const auto operatorScaling = this->getCoefficient();
     auto [sourceSpan, field, oldField] =
         spans(source, this->field_.internalField(), oldTime(this->field_).internalField());
 
@@ -25,7 +26,8 @@ void DdtOperator<ValueType>::explicitOperation(Field<ValueType>& source, scalar,
         source.exec(),
         source.range(),
         KOKKOS_LAMBDA(const size_t celli) {
-            sourceSpan[celli] += dtInver * (field[celli] - oldField[celli]) * vol[celli];
+            sourceSpan[celli] += operatorScaling[celli] * dtInver
+                               * (field[celli] - oldField[celli]) * vol[celli];
         }
     );
 }
-- 
2.43.0


From 4744f0dca64c36b3b92637c7f98e1fc891efad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:21 +0000
Subject: [PATCH 09/25] fix: serial parallelReduce ignores the target's
 previous value like the other executors

---
 include/NeoFOAM/core/parallelAlgorithms.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/NeoFOAM/core/parallelAlgorithms.hpp b/include/NeoFOAM/core/parallelAlgorithms.hpp
index dac7712..d53f5fa 100644
--- a/include/NeoFOAM/core/parallelAlgorithms.hpp
+++ b/include/NeoFOAM/core/parallelAlgorithms.hpp
@@ -112,6 +112,15 @@ void parallelReduce(
     auto [start, end] = range;
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        // as Kokkos::parallel_reduce: the previous value of the target does not take part
+        if constexpr (Kokkos::is_reducer<T>::value)
+        {
+            value.init(value.reference());
+        }
+        else
+        {
+            value = T {};
+        }
         for (size_t i = start; i < end; i++)
         {
             if constexpr (Kokkos::is_reducer<T>::value)
@@ -149,6 +158,15 @@ void parallelReduce(
 {
     if constexpr (std::is_same<std::remove_reference_t<Executor>, SerialExecutor>::value)
     {
+        // as Kokkos::parallel_reduce: the previous value of the target does not take part
+        if constexpr (Kokkos::is_reducer<T>::value)
+        {
+            value.init(value.reference());
+        }
+        else
+        {
+            value = T {};
+        }
         size_t fieldSize = field.size();
         for (size_t i = 0; i < fieldSize; i++)
         {
-- 
2.43.0


From 84cfbfc7a4a4d3228e7fee1c8edca0e5d081058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:24 +0000
Subject: [PATCH 10/25] fix: Field::resize releases the zero-size block a
 previous resize(0) left

---
 include/NeoFOAM/fields/field.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/field.hpp b/include/NeoFOAM/fields/field.hpp
index a7dc24b..fadbb29 100644
--- a/include/NeoFOAM/fields/field.hpp
+++ b/include/NeoFOAM/fields/field.hpp
@@ -308,7 +308,7 @@ public:
     void resize(const size_t size)
     {
         void* ptr = nullptr;
-        if (!empty())
+        if (data_ != nullptr)
         {
             std::visit(
                 [this, &ptr, size](const auto& exec)
-- 
2.43.0


From 518d20b8afe15f7aa95290d1e6d8f4df112c8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 11/25] fix: backward Euler left the explicit operators out of
 the system it solves

---
 include/NeoFOAM/timeIntegration/backwardEuler.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/NeoFOAM/timeIntegration/backwardEuler.hpp b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
index b09aa6c..eb03bbb 100644
--- a/include/NeoFOAM/timeIntegration/backwardEuler.hpp
+++ b/include/NeoFOAM/timeIntegration/backwardEuler.hpp
@@ -68,6 +68,14 @@ public:
         auto values = ls.matrix().values();
         eqn.implicitOperation(ls, t, dt);
 
+        // subtract the explicit source term from the rhs
+        auto [vol, expSource, rhs] = spans(solutionField.mesh().cellVolumes(), source, ls.rhs());
+        parallelFor(
+            solutionField.exec(),
+            {0, rhs.size()},
+            KOKKOS_LAMBDA(const size_t i) { rhs[i] -= expSource[i] * vol[i]; }
+        );
+
         auto solver = NeoFOAM::la::Solver(solutionField.exec(), this->solutionDict_);
         solver.solve(ls, solutionField.internalField());
 
-- 
2.43.0


From ff84e2a7eeb59f5f5b30905a282cec0dde414a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:22 +0000
Subject: [PATCH 12/25] fix: dsl::solve handed the schemes to the time
 integrator as linear solver settings

---
 include/NeoFOAM/dsl/solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/dsl/solver.hpp b/include/NeoFOAM/dsl/solver.hpp
index a99d241..3ff3267 100644
--- a/include/NeoFOAM/dsl/solver.hpp
+++ b/include/NeoFOAM/dsl/solver.hpp
@@ -54,7 +54,7 @@ void solve(
     {
         // integrate equations in time
         timeIntegration::TimeIntegration<FieldType> timeIntegrator(
-            fvSchemes.subDict("ddtSchemes"), fvSchemes
+            fvSchemes.subDict("ddtSchemes"), fvSolution
         );
         timeIntegrator.solve(exp, solution, t, dt);
     }
-- 
2.43.0


From be9b952924e306bc00b3bb2b618a87dbfad8d562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:57 +0000
Subject: [PATCH 13/25] fix: CSRMatrix::copyToExecutor copied to the host
 whatever executor was asked for

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index 848e01b..f9df837 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -180,7 +180,9 @@ public:
             return *this;
         }
         CSRMatrix<ValueType, IndexType> other(
-            values_.copyToHost(), colIdxs_.copyToHost(), rowOffs_.copyToHost()
+            values_.copyToExecutor(dstExec),
+            colIdxs_.copyToExecutor(dstExec),
+            rowOffs_.copyToExecutor(dstExec)
         );
         return other;
     }
-- 
2.43.0


From 368579b37034a7cb7a04574eb6b263243739d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 14/25] fix: convert() read the values of a matrix on a device
 as host memory, and could not change their type

---
 include/NeoFOAM/linearAlgebra/CSRMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
index f9df837..c16169a 100644
--- a/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
+++ b/include/NeoFOAM/linearAlgebra/CSRMatrix.hpp
@@ -231,7 +231,7 @@ convert(const Executor exec, const la::CSRMatrixView<const ValueTypeIn, const In
 {
     Field<IndexTypeOut> colIdxsTmp(exec, in.colIdxs.size());
     Field<IndexTypeOut> rowPtrsTmp(exec, in.rowOffs.size());
-    Field<ValueTypeOut> valuesTmp(exec, in.values.data(), in.values.size());
+    Field<ValueTypeOut> valuesTmp(exec, in.values.size());
 
     parallelFor(
         colIdxsTmp, KOKKOS_LAMBDA(const size_t i) { return IndexTypeOut(in.colIdxs[i]); }
-- 
2.43.0


From b01dc6b2c53e6227a87bd86f0f986f7d2ee00e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 15/25] fix: copying a RungeKutta integrator dereferences
 memory it may not have and drops the operators

The copy built its expression from the executor alone, so the operators of the original were lost,
left context_ empty and then used it, and asked the ODE memory of an integrator that may not have
solved yet for its time. A copy now shares the context and sets up its own vectors and memory, for
the expression and field it is given, when it first solves.
---
 src/timeIntegration/rungeKutta.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/timeIntegration/rungeKutta.cpp b/src/timeIntegration/rungeKutta.cpp
index 9163cf7..9a38b3a 100644
--- a/src/timeIntegration/rungeKutta.cpp
+++ b/src/timeIntegration/rungeKutta.cpp
@@ -8,17 +8,10 @@ namespace NeoFOAM::timeIntegration
 
 template<typename SolutionFieldType>
 RungeKutta<SolutionFieldType>::RungeKutta(const RungeKutta<SolutionFieldType>& other)
-    : Base(other), solution_(other.solution_), initialConditions_(other.initialConditions_),
-      pdeExpr_(
-          other.pdeExpr_
-              ? std::make_unique<NeoFOAM::dsl::Expression<ValueType>>(other.pdeExpr_->exec())
-              : nullptr
-      )
+    : Base(other), context_(other.context_)
 {
-    sunrealtype timeCurrent;
-    void* ark = reinterpret_cast<void*>(other.ODEMemory_.get());
-    ARKodeGetCurrentTime(ark, &timeCurrent);
-    initODEMemory(timeCurrent); // will finalise construction of the ode memory.
+    // Sundials vectors and memory are never shared: as pdeExpr_ is a nullptr the copy sets up its
+    // own, for the expression, field and time it is given, when it first solves.
 }
 
 template<typename SolutionFieldType>
-- 
2.43.0


From 03d51d5bb4d214c95e5a8976f839ce1c0bcf3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:35 +0000
Subject: [PATCH 16/25] fix: a communicator could not exchange any field

startComm and finaliseComm used a call operator that Field does not have (it must not hand out
addresses of device memory), so neither could be instantiated. They now work on a host copy.
---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 81236a0..5e202c5 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -101,11 +101,13 @@ public:
         }
 
         CommBuffer_[commName]->initComm<valueType>(commName);
+        const auto hostField = field.copyToHost();
+        const auto hostView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getSend<valueType>(rank);
             for (size_t data = 0; data < sendMap_[rank].size(); ++data)
-                rankBuffer[data] = field(static_cast<size_t>(sendMap_[rank][data].local_idx));
+                rankBuffer[data] = hostView[static_cast<size_t>(sendMap_[rank][data].local_idx)];
         }
         CommBuffer_[commName]->startComm();
     }
@@ -132,12 +134,15 @@ public:
         );
 
         CommBuffer_[commName]->waitComplete();
+        auto hostField = field.copyToHost();
+        auto hostView = hostField.view();
         for (size_t rank = 0; rank < mpiEnviron_.sizeRank(); ++rank)
         {
             auto rankBuffer = CommBuffer_[commName]->getReceive<valueType>(rank);
             for (size_t data = 0; data < receiveMap_[rank].size(); ++data)
-                field(static_cast<size_t>(receiveMap_[rank][data].local_idx)) = rankBuffer[data];
+                hostView[static_cast<size_t>(receiveMap_[rank][data].local_idx)] = rankBuffer[data];
         }
+        field = hostField.copyToExecutor(field.exec());
         CommBuffer_[commName]->finaliseComm();
         CommBuffer_[commName] = nullptr;
     }
-- 
2.43.0


From 86dfeb3dae1d814fc91549a5ea4b1e85864c4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:36 +0000
Subject: [PATCH 17/25] fix: a second communication at the same time
 invalidated the first one's buffer

The communicator keeps pointers to the elements of a vector of buffers, which moves when it grows:
with two communications under way the first was finished on freed memory.
---
 include/NeoFOAM/mesh/unstructured/communicator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/mesh/unstructured/communicator.hpp b/include/NeoFOAM/mesh/unstructured/communicator.hpp
index 5e202c5..0dcfea3 100644
--- a/include/NeoFOAM/mesh/unstructured/communicator.hpp
+++ b/include/NeoFOAM/mesh/unstructured/communicator.hpp
@@ -2,6 +2,7 @@
 // SPDX-FileCopyrightText: 2023 NeoFOAM authors
 #pragma once
 
+#include <deque>
 #include <vector>
 #include <unordered_map>
 #include <memory>
@@ -152,7 +153,7 @@ private:
     mpi::MPIEnvironment mpiEnviron_; /**< The MPI environment. */
     CommMap sendMap_;                /**< The rank send map. */
     CommMap receiveMap_;             /**< The rank receive map. */
-    std::vector<bufferType> buffers; /**< Communication buffers. */
+    std::deque<bufferType> buffers;  /**< Communication buffers, their addresses have to be stable. */
     std::unordered_map<std::string, bufferType*>
         CommBuffer_; /**< The communication key to buffer map, nullptr indicates no assigned buffer.
                       */
-- 
2.43.0


From 1b07dda0c0a38e061c0182a45d80f39c512c6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:36 +0000
Subject: [PATCH 18/25] fix: isComplete of a communication buffer without ranks
 returned an uninitialised value

---
 src/core/mpi/halfDuplexCommBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/mpi/halfDuplexCommBuffer.cpp b/src/core/mpi/halfDuplexCommBuffer.cpp
index 073429d..d9fb103 100644
--- a/src/core/mpi/halfDuplexCommBuffer.cpp
+++ b/src/core/mpi/halfDuplexCommBuffer.cpp
@@ -12,14 +12,14 @@ namespace mpi
 bool HalfDuplexCommBuffer::isComplete()
 {
     NF_DEBUG_ASSERT(isCommInit(), "Communication buffer is not initialised.");
-    int flag;
     for (auto& request : request_)
     {
+        int flag = 0;
         int err = MPI_Test(&request, &flag, MPI_STATUS_IGNORE);
         NF_DEBUG_ASSERT(err == MPI_SUCCESS, "MPI_Test failed.");
         if (!flag) return false;
     }
-    return static_cast<bool>(flag);
+    return true;
 }
 
 void HalfDuplexCommBuffer::send()
-- 
2.43.0


From 12019ac795fe5ee300e1d28a976dd4054df09975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:24 +0000
Subject: [PATCH 19/25] fix: scaling a Vector by one of its own components used
 the already scaled component

---
 include/NeoFOAM/core/primitives/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/core/primitives/vector.hpp b/include/NeoFOAM/core/primitives/vector.hpp
index f366a7e..087e927 100644
--- a/include/NeoFOAM/core/primitives/vector.hpp
+++ b/include/NeoFOAM/core/primitives/vector.hpp
@@ -131,7 +131,7 @@ public:
 
 
     KOKKOS_INLINE_FUNCTION
-    Vector& operator*=(const scalar& rhs)
+    Vector& operator*=(const scalar rhs)
     {
         cmpts_[0] *= rhs;
         cmpts_[1] *= rhs;
-- 
2.43.0


From b89c7a26905ed91f791e064c536eadc72839bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:51 +0000
Subject: [PATCH 20/25] fix: a copied SUNDIALS vector wrapper refers to its own
 vector

The N_Vector of a copied SKVector was the one of the vector copied, which is
released with it.
---
 include/NeoFOAM/timeIntegration/sundials.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NeoFOAM/timeIntegration/sundials.hpp b/include/NeoFOAM/timeIntegration/sundials.hpp
index 5d8ba05..46ac305 100644
--- a/include/NeoFOAM/timeIntegration/sundials.hpp
+++ b/include/NeoFOAM/timeIntegration/sundials.hpp
@@ -269,7 +269,7 @@ public:
     SKVectorSerial() {};
     ~SKVectorSerial() = default;
     SKVectorSerial(const SKVectorSerial& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorSerial(SKVectorSerial&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorSerial& operator=(const SKVectorSerial& other) = delete;
@@ -306,7 +306,7 @@ public:
     SKVectorHostDefault() = default;
     ~SKVectorHostDefault() = default;
     SKVectorHostDefault(const SKVectorHostDefault& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorHostDefault(SKVectorHostDefault&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorHostDefault& operator=(const SKVectorHostDefault& other) = delete;
@@ -341,7 +341,7 @@ public:
     SKVectorDefault() = default;
     ~SKVectorDefault() = default;
     SKVectorDefault(const SKVectorDefault& other)
-        : kvector_(other.kvector_), svector_(other.kvector_) {};
+        : kvector_(other.kvector_), svector_(kvector_) {};
     SKVectorDefault(SKVectorDefault&& other) noexcept
         : kvector_(std::move(other.kvector_)), svector_(std::move(other.svector_)) {};
     SKVectorDefault& operator=(const SKVectorDefault& other) = delete;
-- 
2.43.0


From 8533b10a9d3963a5a27586531b6580b1b3cf2bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:31 +0000
Subject: [PATCH 21/25] fix: boundary data copied to an executor says it lives
 there

---
 include/NeoFOAM/fields/boundaryFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 7ac3584..4b48b76 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -49,7 +49,7 @@ public:
      * @param rhs The boundaryFields object to be copied.
      */
     BoundaryFields(const Executor& exec, const BoundaryFields<T>& rhs)
-        : exec_(rhs.exec_), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
+        : exec_(exec), value_(exec, rhs.value_), refValue_(exec, rhs.refValue_),
           valueFraction_(exec, rhs.valueFraction_), refGrad_(exec, rhs.refGrad_),
           boundaryTypes_(exec, rhs.boundaryTypes_), offset_(exec, rhs.offset_),
           nBoundaries_(rhs.nBoundaries_), nBoundaryFaces_(rhs.nBoundaryFaces_)
-- 
2.43.0


From f323b39913bcaa12bc58e24184fedee6f3fcf644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:32 +0000
Subject: [PATCH 22/25] fix: a field with given data has its data on the
 executor it is given

---
 .../NeoFOAM/finiteVolume/cellCentred/fields/geometricField.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/finiteVolume/cellCentred/fields/geometricField.hpp b/include/NeoFOAM/finiteVolume/cellCentred/fields/geometricField.hpp
index 655c9f6..4c9c9c4 100644
--- a/include/NeoFOAM/finiteVolume/cellCentred/fields/geometricField.hpp
+++ b/include/NeoFOAM/finiteVolume/cellCentred/fields/geometricField.hpp
@@ -44,7 +44,8 @@ public:
         const UnstructuredMesh& mesh,
         const DomainField<ValueType>& field
     )
-        : name(fieldName), exec_(exec), mesh_(mesh), field_(field)
+        : name(fieldName), exec_(exec), mesh_(mesh),
+          field_(exec, field.internalField(), field.boundaryField())
     {}
 
     /**
-- 
2.43.0


From 3060ec8a088ac709001497cf1f58a24d61c56b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:18 +0000
Subject: [PATCH 23/25] fix: a patch's range is read from a host copy of the
 offsets

---
 include/NeoFOAM/fields/boundaryFields.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/fields/boundaryFields.hpp b/include/NeoFOAM/fields/boundaryFields.hpp
index 4b48b76..e4acbc1 100644
--- a/include/NeoFOAM/fields/boundaryFields.hpp
+++ b/include/NeoFOAM/fields/boundaryFields.hpp
@@ -133,7 +133,8 @@ public:
      */
     std::pair<localIdx, localIdx> range(localIdx patchId) const
     {
-        return {offset_.data()[patchId], offset_.data()[patchId + 1]};
+        const auto hostOffset = offset_.copyToHost();
+        return {hostOffset.data()[patchId], hostOffset.data()[patchId + 1]};
     }
 
 private:
-- 
2.43.0


From 1fc0100756a7eb135075cdc1ec1dcf4f23d4017f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:13 +0000
Subject: [PATCH 24/25] fix: index arrays given to PETSc are not on the stack

---
 include/NeoFOAM/linearAlgebra/petscSolverContext.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
index 52960c7..ae13f24 100644
--- a/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
+++ b/include/NeoFOAM/linearAlgebra/petscSolverContext.hpp
@@ -7,6 +7,8 @@
 
 #if NF_WITH_PETSC
 
+#include <vector>
+
 #include <Kokkos_Core.hpp>
 #include <petscvec_kokkos.hpp>
 #include <petscmat.h>
@@ -70,9 +72,9 @@ public:
     {
         std::size_t size = sys.matrix().values().size();
         std::size_t nrows = sys.rhs().size();
-        PetscInt colIdx[size];
-        PetscInt rowIdx[size];
-        PetscInt rhsIdx[nrows];
+        std::vector<PetscInt> colIdx(size);
+        std::vector<PetscInt> rowIdx(size);
+        std::vector<PetscInt> rhsIdx(nrows);
 
         // colIdx = sys.matrix().colIdxs().data();
 
@@ -134,8 +136,8 @@ public:
         }
         VecDuplicate(rhs_, &sol_);
 
-        VecSetPreallocationCOO(rhs_, nrows, rhsIdx);
-        MatSetPreallocationCOO(Amat_, size, colIdx, rowIdx);
+        VecSetPreallocationCOO(rhs_, nrows, rhsIdx.data());
+        MatSetPreallocationCOO(Amat_, size, colIdx.data(), rowIdx.data());
 
         KSPCreate(PETSC_COMM_WORLD, &ksp_);
         KSPSetFromOptions(ksp_);
-- 
2.43.0


From c7fcf6151ed32bfa805b38007a64f33c34de79ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:31 +0000
Subject: [PATCH 25/25] fix: PETSc's solution is copied from host memory

---
 include/NeoFOAM/linearAlgebra/petsc.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NeoFOAM/linearAlgebra/petsc.hpp b/include/NeoFOAM/linearAlgebra/petsc.hpp
index d5d748a..e2de7f9 100644
--- a/include/NeoFOAM/linearAlgebra/petsc.hpp
+++ b/include/NeoFOAM/linearAlgebra/petsc.hpp
@@ -114,7 +114,10 @@ public:
         PetscScalar* x_help = static_cast<PetscScalar*>(x.data());
         VecGetArray(sol, &x_help);
 
-        NeoFOAM::Field<NeoFOAM::scalar> x2(x.exec(), static_cast<scalar*>(x_help), nrows, x.exec());
+        // VecGetArray gives host memory, wherever the vector lives
+        NeoFOAM::Field<NeoFOAM::scalar> x2(
+            x.exec(), static_cast<scalar*>(x_help), nrows, SerialExecutor()
+        );
         x = x2;
     }
 };
-- 
2.43.0

