From 71081009905ebe1b6be1570035a926f5635cb162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:18 +0000
Subject: [PATCH 01/45] fix: vector infNorm() no longer hides not-a-number
 elements

---
 include/ode_num_int/la/VectorTemplate.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/la/VectorTemplate.h b/include/ode_num_int/la/VectorTemplate.h
index 3d39666..590f8bd 100644
--- a/include/ode_num_int/la/VectorTemplate.h
+++ b/include/ode_num_int/la/VectorTemplate.h
@@ -399,8 +399,11 @@ class VectorTemplate : public D
         value_type infNorm() const
             {
             value_type result = value_type ();
-            for( const auto& v : *this )
-                result = std::max( result, std::fabs( v ) );
+            for( const auto& v : *this ) {
+                auto a = std::fabs( v );
+                if( a > result   ||   a != a /* do not hide not-a-number */ )
+                    result = a;
+                }
             return result;
             }
 
-- 
2.43.0


From a527b83423c3d697b8f80f2be02458a5deacb60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:43 +0000
Subject: [PATCH 02/45] fix: vector*matrix product has as many elements as the
 matrix has columns

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 52c865f..43b4fb9 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -1075,7 +1075,7 @@ template< class DM, class DV >
 inline VectorTemplate<typename DV::vector_data_type> operator*( const VectorTemplate<DV>& v, const SparseMatrixTemplate<DM>& m )
     {
     ASSERT( v.size() == m.size().first );
-    VectorTemplate<typename DV::vector_data_type> result( m.size().first );
+    VectorTemplate<typename DV::vector_data_type> result( m.size().second );
     m.mulVectLeft( v.begin(), result.begin() );
     return result;
     }
-- 
2.43.0


From df895e6964cf687c466ac50a4c2839aae2057a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:43 +0000
Subject: [PATCH 03/45] fix: transposed view of a sparse matrix has transposed
 size

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 43b4fb9..640d61c 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -998,7 +998,7 @@ class SparseMatrixTemplate : public D
             {
             return SparseMatrixTemplate< SparseMatrixProxy::Transpose< D > >(
                         SparseMatrixProxy::Transpose< D >( *this ),
-                        m_size );
+                        Index( m_size.second, m_size.first ) );
             }
 
         SparseMatrixTemplate<matrix_data_type> clone() const {
-- 
2.43.0


From e1b88e1d4da3dbf87f3c33543032b6b6a325ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:43 +0000
Subject: [PATCH 04/45] fix: get(row, column) of block and transposed sparse
 matrix views maps the indices

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 640d61c..5218d51 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -340,7 +340,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -548,7 +548,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
-- 
2.43.0


From 59d51a8bf1e6865c5e16dc2ff5693e9da8449263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:43 +0000
Subject: [PATCH 05/45] fix: fast sparse matrix keeps its elements sorted when
 assigned from a transposed matrix

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 5218d51..a716bff 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -301,6 +301,11 @@ class SparseMatrixFastData : public SparseMatrixTypes< ElementType >
             auto end = that.end();
             m_data.resize( std::distance( begin, end ) );
             std::copy( begin, end, m_data.begin() );
+            // Element lookup relies on the order of indices, but that (e.g., a transposed matrix)
+            // might iterate in a different order
+            auto less = []( const data_element_type& l, const data_element_type& r ) { return l.first < r.first; };
+            if( !std::is_sorted( m_data.begin(), m_data.end(), less ) )
+                std::sort( m_data.begin(), m_data.end(), less );
             }
 
         static bool compare( const data_element_type& l, const Index& r ) {
-- 
2.43.0


From 33de65adcbf68f68e03aa154e40e2307911ae37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 06/45] fix: LU factorizer takes fill-in into account in the
 row extents of U

---
 include/ode_num_int/lu/LUFactorizer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index afd1744..7030c49 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -84,6 +84,12 @@ class LUFactorizer
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
 
+            // The factorization fills in column c of U starting from row m_q[c], so the last
+            // nonzero column in a row of U may be to the right of that in a row of the matrix
+            for( unsigned int c=0; c<n; ++c )
+                for( unsigned int r=m_q[c]; r<=c; ++r )
+                    setMax( m_s[r], c );
+
             // Compute address sequences for triangular matrices m_l, m_u
             auto initTriangularMatrix = [n](
                     std::vector<real_type>& m,
-- 
2.43.0


From a66a0041f348c322ea684b8a5597f88d01dff35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 07/45] fix: LUFactorizer::setMatrixFast() accepts a matrix of
 a different size

---
 include/ode_num_int/lu/LUFactorizer.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 7030c49..b58a3e5 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -140,17 +140,24 @@ class LUFactorizer
             for( auto it=matrixBegin; it!=matrixEnd; ++it, ++fc )
                 **fc = it->second;
 #else // CTM_MATH_LU_USE_MX_FAST_CACHE
-            auto elementsSet = 0;
+            unsigned int n = m_p.size();
+            unsigned int nr = 0,   nc = 0;
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
-                ++elementsSet;
                 auto r = it->first.first;
                 auto c = it->first.second;
-                if (!setLU(r, c, it->second)) {
+                nr = std::max( nr, r + 1 );
+                nc = std::max( nc, c + 1 );
+                if (r >= n || c >= n || !setLU(r, c, it->second)) {
                     // Fall back to setMatrix because the sparsity layout has changed
                     setMatrix(matrixBegin, matrixEnd);
                     return;
                     }
                 }
+            if (nr != n || nc != n) {
+                // Fall back to setMatrix because the matrix has become smaller
+                setMatrix(matrixBegin, matrixEnd);
+                return;
+                }
 #endif // CTM_MATH_LU_USE_MX_FAST_CACHE
             m_factorized = false;
             }
-- 
2.43.0


From 834cdd69c3354d228111a516a854f85279a04571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:33 +0000
Subject: [PATCH 08/45] fix: narrowing mapping drops the disabled output
 elements, not the input ones, from its value

---
 include/ode_num_int/alg/VectorNarrowingMapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/VectorNarrowingMapping.h b/include/ode_num_int/alg/VectorNarrowingMapping.h
index 2f1e7f2..38bf1a4 100644
--- a/include/ode_num_int/alg/VectorNarrowingMapping.h
+++ b/include/ode_num_int/alg/VectorNarrowingMapping.h
@@ -114,7 +114,7 @@ class VectorNarrowingMapping :
             this->mapping()->map( *pdst, *px );
 
             if( !m_disabledOutputIndices.empty() )
-                reduce( dst, dsts, m_disabledInputIndices );
+                reduce( dst, dsts, m_disabledOutputIndices );
             }
 
         std::vector<unsigned int> inputIds() const {
-- 
2.43.0


From 3b69fd08cc051ad359c9700e5b58c215b7c527a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:33 +0000
Subject: [PATCH 09/45] fix: default Jacobian provider forgets its Jacobian on
 hard reset

---
 include/ode_num_int/alg/DefaultJacobianProvider.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ode_num_int/alg/DefaultJacobianProvider.h b/include/ode_num_int/alg/DefaultJacobianProvider.h
index f48e696..53f9b09 100644
--- a/include/ode_num_int/alg/DefaultJacobianProvider.h
+++ b/include/ode_num_int/alg/DefaultJacobianProvider.h
@@ -19,6 +19,10 @@ class DefaultJacobianProvider :
         typedef typename VD::value_type real_type;
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
+        void hardReset() {
+            m_J = FastSparseMatrix();
+            }
+
         void computeJacobian( const V& x0 )
             {
             if( auto jt = this->jacobianTrimmer() )
-- 
2.43.0


From ab286f50e208bcea51dafb928125b11775c9e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:53 +0000
Subject: [PATCH 10/45] fix: sparse Jacobian provider does not reuse the
 trimmed Jacobian after the trimmer is removed

---
 include/ode_num_int/alg/SparseJacobianProvider.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/SparseJacobianProvider.h b/include/ode_num_int/alg/SparseJacobianProvider.h
index 5d67cf1..1e10163 100644
--- a/include/ode_num_int/alg/SparseJacobianProvider.h
+++ b/include/ode_num_int/alg/SparseJacobianProvider.h
@@ -22,7 +22,10 @@ class SparseJacobianProvider :
 
         SparseJacobianProvider() :
             m_Jcalc( &m_J )
-            {}
+            {
+            // A Jacobian obtained with another trimmer is not what m_Jcalc computes
+            this->onJacobianTrimmerChanged_0( [this] { hardReset(); } );
+            }
 
         SparseJacobianProvider( const SparseJacobianProvider<VD>& ) = delete;
         SparseJacobianProvider<VD>& operator=( const SparseJacobianProvider<VD>& ) = delete;
-- 
2.43.0


From c73af523c83450c5d6fe42bc63ccde12b731ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:53 +0000
Subject: [PATCH 11/45] fix: Newton solver reports divergence as such when a
 hard reset cannot help

---
 include/ode_num_int/alg/NewtonSolver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index c0aff89..d7233bc 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -51,6 +51,7 @@ class NewtonSolver :
             auto ddir = itperf->newtonDescentDirection();
             itperf->reset( false );
             auto hardResetTried = false;
+            auto failure = BaseClass::IterationCountLimitExceeded;
             auto x0 = currentSolution();
             auto iterationNumberBias = 0u;
             while( true ) {
@@ -74,6 +75,7 @@ class NewtonSolver :
                                 break;
                             ddir->reportSuccess( false );
                             if( !hardResetTried ) {
+                                failure = BaseClass::Diverged;
                                 breakLoop = true;
                                 break;
                                 }
@@ -87,13 +89,14 @@ class NewtonSolver :
                 else if( ddir->hardResetMayHelp() ) {
                     setInitialGuess( x0, true );
                     hardResetTried = true;
+                    failure = BaseClass::IterationCountLimitExceeded;
                     iterationNumberBias += iterationNumber;
                     }
                 else
                     break;
                 }
             ddir->reportSuccess( false );
-            return BaseClass::IterationCountLimitExceeded;
+            return failure;
             }
 
         const V& currentSolution() const {
-- 
2.43.0


From 815ce8afcc103801c38a5d9433d3e292b8d23cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:53 +0000
Subject: [PATCH 12/45] fix: Broyden update of a Jacobian with zero elements
 does not fail

---
 .../alg/JacobianBroydenUpdateNewtonDescentDirection.h      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index 19689cd..c3c56e0 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -56,12 +56,17 @@ class JacobianBroydenUpdateNewtonDescentDirection :
                 left *= 1 / dx.euclideanNormSquare();
                 unsigned int n = x0.size();
                 ASSERT( J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
+                // Note: the update may bring elements that are not in the pattern of J
+                sparse::SparseMatrix<real_type> Jnew( J.size() );
+                for( const auto& element : J )
+                    Jnew.at( element.first ) = element.second;
                 for( unsigned int i=0; i<n; ++i )
                     for( unsigned int j=0; j<n; ++j ) {
                         real_type x = left[i] * dx[j];
                         if( x != 0 )
-                            J.at( i, j ) += x;
+                            Jnew.at( i, j ) += x;
                         }
+                J = Jnew;
                 }
             m_xprev = x0;
             m_fprev = f0;
-- 
2.43.0


From ff11ba0a7390ae52c1856cf0f1dc78e6ce753c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:47 +0000
Subject: [PATCH 13/45] fix: Newton iteration without an acceptable step leaves
 the solution intact

---
 include/ode_num_int/alg/NewtonIterationPerformerImpl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
index 4f4be14..15d31fb 100644
--- a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
+++ b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
@@ -45,7 +45,8 @@ class NewtonIterationPerformerImpl :
             auto ddir = this->newtonDescentDirection();
             auto dir = ddir->computeDescentDirection( m_x, f0, iterationNumber );
             m_currentStepRatio = this->newtonLinearSearch()->lineSearch( dir, m_x, f0, &m_f );
-            m_x += dir.scaled( m_currentStepRatio );
+            if( m_currentStepRatio != 0 )   // the direction might be not finite
+                m_x += dir.scaled( m_currentStepRatio );
             this->errorEstimator()->setCurrentSolution( m_x, m_f );
             auto result = this->errorEstimator()->currentStatus();
             if( m_currentStepRatio == 0   &&   result == ErrorEstimator<VD>::ContinueIterations )
-- 
2.43.0


From a5d53e1be52e7f04830ecbbfa4307b687c5c89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 14/45] fix: LU secant update skips the rows that the step does
 not affect

---
 include/ode_num_int/lu/LUFactorizer.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index b58a3e5..d16bbda 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -275,15 +275,14 @@ class LUFactorizer
                         }
                 auto& ri = m_r[i];
                 ri = 0;
-                if( beta == 0 ) {
-                    // Just compute r[i]
+                if( beta == 0   ||   !( aa > 0 ) ) {
+                    // Just compute r[i] (if aa is zero, the row does not depend on s)
                     for( unsigned int k=i; k<=umaxcol; ++k )
                         if( i >= m_q[k] )
                             ri += U(i,k) * s[k];
                     }
                 else {
                     // Update L, U; compute r[i]
-                    ASSERT( aa > 0 );
                     auto factor = beta/aa;
                     for( unsigned int k=m_p[i]; k<i; ++k )
                         L(i,k) += m_r[k] * factor;
-- 
2.43.0


From 44cb7d12e7ceef6beda86865ccba7f9e48622ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:20 +0000
Subject: [PATCH 15/45] fix: fast sparse matrix can be constructed from another
 kind of sparse matrix

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index a716bff..5545116 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -850,10 +850,8 @@ class SparseMatrixTemplate : public D
             D( data ), m_size( size ) {}
 
         template< class ThatD >
-        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) : m_size( that.size() )
-            {
-            for( auto v : that )
-                this->at( v.first ) = v.second;
+        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) {
+            doAssign( that );
             }
 
         template< class ThatD >
-- 
2.43.0


From 1ea51d3b31721bb4fab038956a986fa5e01194dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 16/45] fix: a matrix rejected by LUFactorizer leaves it empty

---
 include/ode_num_int/lu/LUFactorizer.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index d16bbda..d13f1e1 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -40,6 +40,12 @@ class LUFactorizer
         void setMatrix( It matrixBegin, It matrixEnd )
             {
             sys::ScopedTimeMeasurer tm( m_timingStats.setMatrixTiming );
+            // A rejected matrix leaves the factorizer empty
+            auto reject = [this]( const char *what ) {
+                m_p.clear();
+                throw cxx::exception( what );
+                };
+
             // Determine matrix size
             unsigned int n = [&, this]() -> unsigned int {
                 unsigned int nr = 0,   nc = 0;
@@ -48,7 +54,7 @@ class LUFactorizer
                     nc = std::max( nc, it->first.second + 1 );
                     }
                 if( nr != nc )
-                    throw cxx::exception("Invalid matrix stencil: matrix is not square");
+                    reject( "Invalid matrix stencil: matrix is not square" );
                 return nr;
                 }();
 
@@ -79,9 +85,9 @@ class LUFactorizer
             // Verify m_p and m_q
             for( unsigned int i=0; i<n; ++i ) {
                 if( m_p[i] >= n   ||   m_q[i] >= n )
-                    throw cxx::exception("Invalid matrix stencil: the stencil is incomplete");
+                    reject( "Invalid matrix stencil: the stencil is incomplete" );
                 if( m_p[i] > i   ||   m_q[i] > i )
-                    throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
+                    reject( "Invalid matrix stencil: the stencil does not cover the diagonal" );
                 }
 
             // The factorization fills in column c of U starting from row m_q[c], so the last
-- 
2.43.0


From 5237bf240bd023b0875916c95bd119444799c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:22 +0000
Subject: [PATCH 17/45] fix: step observers of Runge-Kutta and extrapolation
 solvers are told the initial step size before the first step

---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 4 ++--
 include/ode_num_int/ode/OdeSolverExplicitRK.h         | 4 ++--
 include/ode_num_int/ode/OdeSolverExtrapolator.h       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 6c71ee0..0c75661 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -74,13 +74,13 @@ class OdeSolverExplicitEmbeddedRK :
         void doStep()
             {
             while( true ) {
-                this->odeSolverPreObservers( m_h, this );
-
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
                 initStep();
 
+                this->odeSolverPreObservers( m_h, this );
+
                 auto rhs = this->odeRhs();
 
                 this->tstat0.add( timer.Lap() );
diff --git a/include/ode_num_int/ode/OdeSolverExplicitRK.h b/include/ode_num_int/ode/OdeSolverExplicitRK.h
index c98e824..eb81162 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitRK.h
@@ -49,13 +49,13 @@ class OdeSolverExplicitRK :
 
         void doStep()
             {
-            this->odeSolverPreObservers( m_h, this );
-
             OpaqueTickCounter timer;    // deBUG
 
             timer.Start();
             initStep();
 
+            this->odeSolverPreObservers( m_h, this );
+
             auto rhs = this->odeRhs();
 
             this->tstat0.add( timer.Lap() );
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index ef3c540..aa9f0dc 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -89,13 +89,13 @@ class OdeSolverExtrapolator :
         void doStep()
             {
             while( true ) {
-                this->odeSolverPreObservers( m_h, this );
-
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
                 initStep();
 
+                this->odeSolverPreObservers( m_h, this );
+
                 auto rhs = this->odeRhs().get();
 
                 this->tstat0.add( timer.Lap() );
-- 
2.43.0


From 0f5bcc6ee839361d98264760b4e7e1a27d151663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:45 +0000
Subject: [PATCH 18/45] fix: step size controller rejects a step whose error is
 not a number

---
 include/ode_num_int/ode/OdeStepSizeSimpleController.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeStepSizeSimpleController.h b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
index bf30ee9..cd37da4 100644
--- a/include/ode_num_int/ode/OdeStepSizeSimpleController.h
+++ b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
@@ -36,7 +36,8 @@ class OdeStepSizeSimpleController :
             {
             if( errorNorm == 0 )
                 return Result( currentStepSize, true, false );
-            real_type p = std::pow( m_tolerance/errorNorm, 1./(methodOrder+1) );
+            // An error that is not a number must lead to step rejection, like an infinite error does
+            real_type p = std::isnan( errorNorm ) ?   0 :   std::pow( m_tolerance/errorNorm, 1./(methodOrder+1) );
             real_type pd = p * m_insuranceCoefficient;
             if( p >= 1 ) {
                 if( m_maxThreshold > 0   &&   pd*currentStepSize > m_maxThreshold ) {
-- 
2.43.0


From 17edea45b7879bec9593eb6e40583865cb016bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 19/45] fix: Rosenbrock methods compute the Jacobian with
 respect to all velocities

---
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index f656cc7..5afe60b 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -115,7 +115,7 @@ class OdeSolverRosenbrock_W_base :
                 SparseMatrix Jm( m_n2+m_n1, m_n2+m_n1 );
                 V x = initialState;
                 V f( m_n );
-                for( unsigned int i=istart; i<isize; ++i ) {
+                for( unsigned int i=istart; i<istart+isize; ++i ) {
                     x[i] += dx;
                     rhs->rhs( f, initialTime, x );
                     x[i] = initialState[i];
-- 
2.43.0


From 91d7c7d79c85ce6bf9e286f061721a640497647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 20/45] fix: SW2(4) uses the W matrix of the reduced step size
 after a rejected step

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 7a5c16a..4fb5f96 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -66,18 +66,13 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void doStep()
             {
-            bool needInitStep = true;
-
             while( true ) {
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                if( needInitStep ) {
-                    needInitStep = false;
-                    initStep();
-                    }
+                initStep(); // Also has to be done after a rejection, because the W matrix depends on the step size
 
                 auto rhs = this->odeRhs();
 
-- 
2.43.0


From 230fc5564b056d0753f56d6b258fe8b75a3a7c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 21/45] fix: Rosenbrock methods use the default initial step
 size unless another one is set

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 2 +-
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 4fb5f96..57eeb1e 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -31,7 +31,7 @@ class OdeSolverRosenbrock_SW2_4 :
             m_d( 1 ),
             m_disable_error_check( false ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index c80a6f0..130ae39 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -24,7 +24,7 @@ class OdeSolverRosenbrock_W1 :
             OdeSolverEventController<VD>( *this, "linear" ),
             m_d( 1 ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
-- 
2.43.0


From 32a2f8c25f3261f1d5d13dd00e9a95ce554cf758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:05 +0000
Subject: [PATCH 22/45] fix: SW2(4) starts with the initial step size after a
 hard initialization

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 57eeb1e..a92aa94 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -249,6 +249,7 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void cleanupStep() {
             m_k1.resize( 0 );
+            m_h = this->initialStepSize();
             }
 
         void linSolve( V& x ) {
-- 
2.43.0


From 8e3fc5fead58fae12e97768feae85262b44033d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:20 +0000
Subject: [PATCH 23/45] fix: extrapolator tells its observers the size of the
 step taken, not of the next one

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index aa9f0dc..b2e63ad 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -194,7 +194,7 @@ class OdeSolverExtrapolator :
 
                 // Invoke observers
                 this->odeSolverPostObservers( OdeSolverPostObserverArg<VD>(
-                    m_h, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
+                    hcur, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
 
                 this->tstat4.add( timer.Lap() );
 
-- 
2.43.0


From 37dfa133f2a43cfc73b93ca11a445321f5ddbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:20 +0000
Subject: [PATCH 24/45] fix: incompletely configured extrapolator throws an
 exception instead of crashing

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index b2e63ad..1eeb252 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -81,7 +81,7 @@ class OdeSolverExtrapolator :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
-            if( !soft )
+            if( !soft && m_referenceSolver )
                 m_referenceSolver->setInitialState( initialTime, initialState, false );
             cleanupStep();
             }
@@ -263,6 +263,8 @@ class OdeSolverExtrapolator :
                 throw cxx::exception( "Reference solver is not set" );
             if( !stepSequence() )
                 throw cxx::exception( "Step sequence is not set" );
+            if( m_max_stages < ( m_disable_error_check? 1u: 2u ) )
+                throw cxx::exception( "Too few extrapolation stages" );
 
             auto rhs = this->odeRhs();
             auto n = rhs->varCount();
-- 
2.43.0


From aead66370299d65dc2088946ac27d0b3cb265ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:20 +0000
Subject: [PATCH 25/45] fix: extrapolator reports the order it attains with a
 reference solver of any order

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 1eeb252..7cda074 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -40,15 +40,20 @@ class OdeSolverExtrapolator :
         int order() const
             {
             if( auto rs = referenceSolver() ) {
-                auto rsOrder = rs->order();
-                return rsOrder + ( m_max_stages - 1 )*( m_symmetric? 2: 1 );
+                // Extrapolation eliminates powers of the step size (or of its square) starting from
+                // the first one, so it does not add up with a higher order of the reference solver
+                int attainableOrder = m_max_stages*( m_symmetric? 2: 1 );
+                return std::max( rs->order(), attainableOrder );
                 }
             else
                 return -1;  // TODO
             }
 
-        int lowOrder() const {
-            return order() - ( m_symmetric? 2: 1 );
+        int lowOrder() const
+            {
+            auto rs = referenceSolver();
+            int attainableOrder = ( static_cast<int>(m_max_stages) - 1 )*( m_symmetric? 2: 1 );
+            return rs ?   std::max( rs->order(), attainableOrder ) :   attainableOrder;
             }
 
         unsigned int maxStages() const {
-- 
2.43.0


From 5ca588469d900bb104e35c5679ded4f16c115eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:59 +0000
Subject: [PATCH 26/45] fix: linear event controller handles an event at the
 end or, due to rounding, before the start of a step

---
 include/ode_num_int/ode/LinearOdeEventController.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 9405d31..6a986da 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -75,9 +75,10 @@ class LinearOdeEventController :
                 auto i = m_zfi[ix];
                 auto zf1 = m_zf1[i];
                 auto zf2 = m_zf2[i];
-                real_type t = zf1 / ( zf1 - zf2 );
-                ASSERT (t >= 0);
-                if( tmin > t ) {
+                // If the zero is at (or, due to rounding, before) the step start, there is nothing to interpolate
+                bool zeroAtStart = zf1 == 0   ||   s( zf1 ) == s( zf2 );
+                real_type t = zeroAtStart ?   0 :   zf1 / ( zf1 - zf2 );
+                if( itmin == ~0u   ||   tmin > t ) {
                     tmin = t;
                     itmin = i;
                     }
-- 
2.43.0


From 5912723f89ac663ee42391bc85fe899d21c09f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:23 +0000
Subject: [PATCH 27/45] fix: setting the initial state resets the event
 controller of every solver

---
 include/ode_num_int/ode/OdeSolverGragg.h            | 2 ++
 include/ode_num_int/ode/OdeSolverImplicitEuler.h    | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index 3607889..ee1b4ff 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -59,6 +59,8 @@ class OdeSolverGragg :
             m_initialTime = initialTime;
             m_initialU = initialState;
             m_stepsRunning = false;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index bfb01c5..767160b 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -73,6 +73,8 @@ class OdeSolverImplicitEuler :
             m_mapping4Newton->setInitialState( initialTime, initialState );
             if( !soft )
                 m_hardResetRequested = true;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index a92aa94..77bb8d4 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -56,6 +56,8 @@ class OdeSolverRosenbrock_SW2_4 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( soft )
                 // Compute ODE RHS at the beginning of the step
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index 130ae39..8dcc1ab 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -49,6 +49,8 @@ class OdeSolverRosenbrock_W1 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( !soft )
                 cleanupStep();
-- 
2.43.0


From 39cb8763d362b3ffecd97a0f19d24030f172e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:29 +0000
Subject: [PATCH 28/45] fix: predictor and extrapolation reference solver do
 not process events themselves

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h  | 9 +++++++--
 include/ode_num_int/ode/OdeSolverImplicitEuler.h | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 7cda074..1eb0cb5 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -302,8 +302,13 @@ class OdeSolverExtrapolator :
 
         void syncOdeRhs()
             {
-            if( m_referenceSolver )
-                m_referenceSolver->setOdeRhs( this->odeRhs() );
+            if( !m_referenceSolver )
+                return;
+            m_referenceSolver->setOdeRhs( this->odeRhs() );
+
+            // Events are processed at the end of the entire step, not during reference solver steps
+            if( auto rsec = dynamic_cast< OdeSolverEventController<VD>* >( m_referenceSolver.get() ) )
+                rsec->setEventController( nullptr );
             }
 
         std::function<void()> getSyncOdeRhs() {
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 767160b..36f5faf 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -191,6 +191,9 @@ class OdeSolverImplicitEuler :
                         parameters, "alpha",
                         std::bind( &OdeStepMappingEuler<VD>::setImplicitnessParameter, m_mapping4Newton.get(), std::placeholders::_1 ) );
             OptionalParameters::maybeLoadParameter( parameters, "predictor", m_predictor );
+            // The predictor only provides the initial guess; events are processed at the end of the step
+            if( auto pec = dynamic_cast< OdeSolverEventController<VD>* >( m_predictor.get() ) )
+                pec->setEventController( nullptr );
             OptionalParameters::maybeLoadParameter( parameters, "predictor_steps", m_predictorSteps );
             OptionalParameters::maybeSetParameter(
                         parameters, "reorder",
-- 
2.43.0


From 07a11717fa048b25ae498306c1f74b344ba09549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:54 +0000
Subject: [PATCH 29/45] fix: a new descent direction of a Newton solver takes
 over the Jacobian provider

---
 .../alg/interfaces/NewtonSolverInterface.h    | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index e3659da..c9e1793 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -90,6 +90,7 @@ class NewtonSolverInterface :
             auto itperf = this->iterationPerformer();
             if( itperf ) {
                 ddir->setMapping( itperf->mapping() );
+                keepJacobianProvider( ddir );
                 itperf->setNewtonDescentDirection( ddir );
                 }
             auto rs = this->regularizationStrategy();
@@ -154,8 +155,10 @@ class NewtonSolverInterface :
                 auto ddir = itperf->newtonDescentDirection();
                 result["ddir"] = ddir;
                 if( ddir ) {
-                    result["jacobian"] = ddir->jacobianProvider();
-                    result["jtrim"] = ddir->jacobianProvider()->jacobianTrimmer();
+                    auto jp = ddir->jacobianProvider();
+                    result["jacobian"] = jp;
+                    if( jp )
+                        result["jtrim"] = jp->jacobianTrimmer();
                     }
                 result["linsearch"] = itperf->newtonLinearSearch();
                 result["err"] = itperf->errorEstimator();
@@ -187,8 +190,10 @@ class NewtonSolverInterface :
                             parameters, "ddir",
                             [this, itperf]( const std::shared_ptr< NewtonDescentDirection<VD> >& ddir )
                             {
-                            if( ddir )
+                            if( ddir ) {
                                 ddir->setMapping( itperf->mapping() );
+                                this->keepJacobianProvider( ddir );
+                                }
                             itperf->setNewtonDescentDirection( ddir );
                             auto rs = this->regularizationStrategy();
                             if( rs )
@@ -260,6 +265,15 @@ class NewtonSolverInterface :
 
             return result;
             }
+
+    private:
+        // A new descent direction takes over the Jacobian provider, unless it has its own one
+        void keepJacobianProvider( const std::shared_ptr< NewtonDescentDirection<VD> >& ddir )
+            {
+            auto currentDdir = this->iterationPerformer()->newtonDescentDirection();
+            if( currentDdir   &&   !ddir->jacobianProvider() )
+                ddir->setJacobianProvider( currentDdir->jacobianProvider() );
+            }
     };
 
 CTM_DEF_NOTIFIED_PROP_VD_TEMPLATE_CLASS(
-- 
2.43.0


From fc6af9f89e481d98dd4fa4cc0fc37c08a39360e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 30/45] fix: a rejected value does not stay in the component
 configuration

---
 include/ode_num_int/infra/ComponentConfiguration.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/ComponentConfiguration.h b/include/ode_num_int/infra/ComponentConfiguration.h
index a210da4..fab866a 100644
--- a/include/ode_num_int/infra/ComponentConfiguration.h
+++ b/include/ode_num_int/infra/ComponentConfiguration.h
@@ -111,8 +111,9 @@ class ComponentConfiguration
             valuePriv( path ) = value;
 
             // Always reload auto setting, in particular, to load nested parameters
-            parameterProvider()->setParameters( m_parameters );
+            // (also if the new value is rejected with an exception)
             m_parametersKnown = false;
+            parameterProvider()->setParameters( m_parameters );
             }
 
         template< class PathType >
-- 
2.43.0


From 40c1d42dd13db2bd4b549e7a21bb8108f53fa308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 31/45] fix: text of a floating-point parameter value restores
 the value exactly

---
 include/ode_num_int/infra/OptionalParameters.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index bbf3438..fe7cb76 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -10,6 +10,7 @@
 #include <map>
 #include <sstream>
 #include <iomanip>
+#include <cstdlib>
 #include <tuple>
 #include <type_traits>
 
@@ -83,9 +84,14 @@ class OptionalParameters
                 /// \brief Constructor accepting a double initializer (no nested parameters).
                 Value( double x )
                     {
-                    std::ostringstream s;
-                    s << std::setprecision(16) << x;
-                    m_value = s.str();
+                    // Use as many digits as needed to restore the value exactly
+                    for( int precision=15; precision<=17; ++precision ) {
+                        std::ostringstream s;
+                        s << std::setprecision(precision) << x;
+                        m_value = s.str();
+                        if( std::strtod( m_value.c_str(), nullptr ) == x )
+                            break;
+                        }
                     }
 
                 /// \brief Constructor accepting a boolean initializer (no nested parameters).
-- 
2.43.0


From a78da05d1e4d5cbfdf74ea3688e42b43ea96c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 32/45] fix: copies of a parameter value do not share nested
 parameters

---
 .../ode_num_int/infra/OptionalParameters.h    | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index fe7cb76..55f442c 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -69,6 +69,25 @@ class OptionalParameters
                     m_nestedParameters( std::make_shared< Parameters >( nestedParameters ) )
                     {}
 
+                /// \brief Copy constructor. The copy has its own nested parameters.
+                Value( const Value& that ) :
+                    m_value( that.m_value ),
+                    m_nestedParameters( that.m_nestedParameters ?
+                        std::make_shared< Parameters >( *that.m_nestedParameters ) :
+                        std::shared_ptr< Parameters >() ),
+                    m_typeRegistryGetter( that.m_typeRegistryGetter )
+                    {}
+
+                /// \brief Assignment. The copy has its own nested parameters.
+                Value& operator=( const Value& that )
+                    {
+                    Value copy( that );
+                    m_value.swap( copy.m_value );
+                    m_nestedParameters.swap( copy.m_nestedParameters );
+                    m_typeRegistryGetter.swap( copy.m_typeRegistryGetter );
+                    return *this;
+                    }
+
                 /// \brief Constructor accepting a C-string initializer (no nested parameters).
                 Value( const char* x ) : m_value( x ) {}
 
-- 
2.43.0


From 39ba57ce07e9fcd9764a5c2d31a6846bbe012bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 33/45] fix: unsigned parameter rejects negative and too large
 values

---
 include/ode_num_int/infra/OptionalParameters.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 55f442c..191cdaf 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -11,6 +11,7 @@
 #include <sstream>
 #include <iomanip>
 #include <cstdlib>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 
@@ -191,7 +192,10 @@ class OptionalParameters
                     {
                     if( !lang::IsIntegerNumber( m_value.c_str() ) )
                         throw cxx::exception( std::string("Not an integer number: '") + m_value + "'");
-                    dst = static_cast<unsigned int>( std::stoul( m_value ) );
+                    auto x = std::stoll( m_value );
+                    if( x < 0   ||   x > static_cast<long long>( std::numeric_limits<unsigned int>::max() ) )
+                        throw cxx::exception( std::string("Not an unsigned integer number: '") + m_value + "'");
+                    dst = static_cast<unsigned int>( x );
                     }
 
                 void toType( bool& dst ) const
-- 
2.43.0


From e145ae7f412c8d842a9f9822aecaee074372bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 34/45] fix: a parameter path with an empty item is rejected
 instead of being cut off

---
 include/ode_num_int/infra/OptionalParameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 191cdaf..055e95f 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -409,7 +409,7 @@ class OptionalParameters
                 if( nd == std::string::npos )
                     nd = formattedPath.size();
                 if( nd == n )
-                    break;
+                    throw cxx::exception( std::string("Invalid path ") + formattedPath + ": empty item" );
                 result.push_back( formattedPath.substr( n, nd-n ) );
                 n = nd + 1;
                 }
-- 
2.43.0


From b24ce2317291288ffc6a3864dbf0072c5a7f49e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 35/45] fix: brackets and other punctuation are not letters of
 an identifier

---
 include/ode_num_int/util/lex_idnum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/lex_idnum.h b/include/ode_num_int/util/lex_idnum.h
index cb1ce67..aff37cc 100644
--- a/include/ode_num_int/util/lex_idnum.h
+++ b/include/ode_num_int/util/lex_idnum.h
@@ -62,7 +62,7 @@ inline bool IsHexIntegerNumber( const char * ) {
 inline bool IsIdentifier( const char *str ) {
     return std::regex_match(
                 str,
-                std::regex( "^[a-zA-z_][a-zA-z0-9_]*$" ) );
+                std::regex( "^[a-zA-Z_][a-zA-Z0-9_]*$" ) );
     }
 
 /// \brief Returns true if \a str is a real number.
-- 
2.43.0


From 7a7b23e48afc2125566f2c1cc652538ff1023673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 36/45] fix: a new iteration performer of a Newton solver takes
 over the mapping and the components

---
 .../alg/interfaces/NewtonSolverInterface.h          | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index c9e1793..fa15388 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -170,7 +170,18 @@ class NewtonSolverInterface :
             {
             OptionalParameters::maybeSetParameter(
                         parameters, "itperf",
-                        std::bind( &NewtonSolverInterface<VD>::setIterationPerformer, this, std::placeholders::_1 ) );
+                        [this]( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf )
+                        {
+                        // A new iteration performer takes over the mapping and the components
+                        auto current = this->iterationPerformer();
+                        if( current   &&   itperf ) {
+                            itperf->setMapping( current->mapping() );
+                            itperf->setErrorEstimator( current->errorEstimator() );
+                            itperf->setNewtonDescentDirection( current->newtonDescentDirection() );
+                            itperf->setNewtonLinearSearch( current->newtonLinearSearch() );
+                            }
+                        this->setIterationPerformer( itperf );
+                        } );
             auto itperf = this->iterationPerformer();
             OptionalParameters::maybeSetParameter(
                         parameters, "regularizer",
-- 
2.43.0


From cdf66b6cb9b080359afe2c237a41483279a93732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 37/45] fix: applying an ODE solver configuration without right
 hand side throws an exception

---
 include/ode_num_int/ode/OdeSolverConfiguration.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index ae5d5ad..970dcdf 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -236,6 +236,8 @@ class OdeSolverConfiguration : public ComponentConfiguration
                 throw cxx::exception( "ODE solver is not specified" );
             auto rs = pp->refSolver();
             auto odeRhs = pp->odeRhs();
+            if( !odeRhs )
+                throw cxx::exception( "ODE right hand side is not specified" );
 
             // TODO auto jtrim = parameterProvider()->jtrim();
 
-- 
2.43.0


From 717e45e2f1b144ecdbd5c38b2da80fe933279269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 38/45] fix: specified initial state can be made smaller

---
 include/ode_num_int/ode/SpecifiedOdeInitState.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/SpecifiedOdeInitState.h b/include/ode_num_int/ode/SpecifiedOdeInitState.h
index e3fe7ca..b262747 100644
--- a/include/ode_num_int/ode/SpecifiedOdeInitState.h
+++ b/include/ode_num_int/ode/SpecifiedOdeInitState.h
@@ -56,9 +56,12 @@ class SpecifiedOdeInitState :
 
         void resize( int n ) {
             int n0 = m_initialState.size();
+            if( n < 0 )
+                throw cxx::exception( "Invalid initial state size" );
             if( n != n0 ) {
                 m_initialState.resize( n );
-                std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
+                if( n > n0 )
+                    std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
                 }
             }
 
-- 
2.43.0


From 65359e55e7da2480ac7a38fa6fe81931bdd13fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 39/45] fix: an ODE solver can be set up without error norm
 calculator

---
 .../ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
index 295eb60..7b01e42 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
@@ -21,7 +21,8 @@ class OdeSolverErrorNormCalculator :
             OdeSolverComponent<VD>( solver )
             {
             auto updateOdeRhs = [this] {
-                this->errorNormCalculator()->setOdeRhs( this->solver().odeRhs() );
+                if( auto enorm = this->errorNormCalculator() )
+                    enorm->setOdeRhs( this->solver().odeRhs() );
                 };
             this->onErrorNormCalculatorChanged( updateOdeRhs );
             solver.onOdeRhsChanged( updateOdeRhs );
-- 
2.43.0


From cff5816e8769866a8d4cb38c2e519d0797ba62cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:37 +0000
Subject: [PATCH 40/45] fix: the row of the initial state counts for the output
 interval of con_solution

---
 include/ode_num_int/ode/ode_solver_output.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/ode/ode_solver_output.h b/include/ode_num_int/ode/ode_solver_output.h
index 5c366fa..d3162ea 100644
--- a/include/ode_num_int/ode/ode_solver_output.h
+++ b/include/ode_num_int/ode/ode_solver_output.h
@@ -373,6 +373,7 @@ class OdeSolverStepSolutionConsoleOutput :
                 solverConfig, solverComponents, m_sizeHalfLimit, this->fileName() ) );
             auto s = solverComponents->solver().get();
             m_d->writeHeaders( s );
+            m_d->outputNow( s->initialTime(), true );
             m_d->write( s );
             }
 
-- 
2.43.0


From 1942dd13539a69f415126a3e3f66987c2380dc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 41/45] fix: mean square deviation of ErrorStats is the
 standard deviation

---
 include/ode_num_int/util/ErrorStats.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/util/ErrorStats.h b/include/ode_num_int/util/ErrorStats.h
index 02c9921..9ef31e5 100644
--- a/include/ode_num_int/util/ErrorStats.h
+++ b/include/ode_num_int/util/ErrorStats.h
@@ -60,9 +60,10 @@ class ErrorStats
         X errorMeanSqareDev() const
             {
             ASSERT( m_sampleCount > 0 );
-            X result = ( math::sqr( m_errorSum ) + m_errorSquareSum );
+            X result = m_errorSquareSum;
             result *= 1. / m_sampleCount;
-            return std::sqrt( result );
+            result -= math::sqr( errorMeanValue() );
+            return std::sqrt( std::fabs( result ) );    // fabs: rounding may give a small negative value
             }
 
         unsigned int sampleCount() const {
-- 
2.43.0


From 533a73e33d4a6194e8a4c861d74e002082af13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 42/45] fix: default-constructed ErrorStats of numbers start
 from zero

---
 include/ode_num_int/util/ErrorStats.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/ErrorStats.h b/include/ode_num_int/util/ErrorStats.h
index 9ef31e5..403c9e6 100644
--- a/include/ode_num_int/util/ErrorStats.h
+++ b/include/ode_num_int/util/ErrorStats.h
@@ -14,7 +14,7 @@ class ErrorStats
     public:
         typedef X value_type;
 
-        ErrorStats() : m_sampleCount( 0 ) {}
+        ErrorStats() : m_errorMax(), m_errorSum(), m_errorSquareSum(), m_sampleCount( 0 ) {}
 
         ErrorStats( const ErrorStats& ) = default;
 
-- 
2.43.0


From 4b3f694a8217c0a1c5235d84be4404226af4aa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 43/45] fix: modp does not negate the smallest integer

---
 include/ode_num_int/util/m_inline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/m_inline.h b/include/ode_num_int/util/m_inline.h
index c5b5c4b..5edc0a6 100644
--- a/include/ode_num_int/util/m_inline.h
+++ b/include/ode_num_int/util/m_inline.h
@@ -54,7 +54,7 @@ inline unsigned int modp( int x, unsigned int m ) {
     ASSERT( m );
     unsigned int xx;
     if( x < 0 ) {
-        xx = m - (-x)%m;
+        xx = m - (0u - static_cast<unsigned int>(x))%m;
         if( xx == m )
             xx = 0;
         }
-- 
2.43.0


From bb67d110150190ab3a2638acc9a795a4d727699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:58 +0000
Subject: [PATCH 44/45] fix: roundi of the numbers next to one half

---
 include/ode_num_int/util/m_inline.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ode_num_int/util/m_inline.h b/include/ode_num_int/util/m_inline.h
index 5edc0a6..c88b6c5 100644
--- a/include/ode_num_int/util/m_inline.h
+++ b/include/ode_num_int/util/m_inline.h
@@ -44,9 +44,7 @@ inline X Max( X a, X b ) { return a > b ?   a :   b; }
 
 // Returns nearest integer to specified x.
 inline int roundi( double x ) {
-    return x >= 0 ?
-        static_cast<int>( x + 0.5 ) :
-       -static_cast<int>( -x + 0.5 );
+    return static_cast<int>( lround( x ) );
     }
 
 // Returns remainder, taking the sign of x into account
-- 
2.43.0


From bacc8669a3eb832b9cbdc72b03b056bc79fa603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:05 +0000
Subject: [PATCH 45/45] fix: OdeStepMappingEuler kept the value of the previous
 ODE right hand side at the step start

---
 include/ode_num_int/ode/OdeStepMappingEuler.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeStepMappingEuler.h b/include/ode_num_int/ode/OdeStepMappingEuler.h
index abdda10..0d0d543 100644
--- a/include/ode_num_int/ode/OdeStepMappingEuler.h
+++ b/include/ode_num_int/ode/OdeStepMappingEuler.h
@@ -22,7 +22,10 @@ class OdeStepMappingEuler :
             m_h( 0.1 ),
             m_t0( 0 ),
             m_f0scaledValid( false )
-            {}
+            {
+            // The value at the step start is that of the ODE right hand side at hand
+            this->onOdeRhsChanged( [this]() { m_f0scaledValid = false; } );
+            }
 
         // VectorMapping interface
         unsigned int inputSize() const
-- 
2.43.0

