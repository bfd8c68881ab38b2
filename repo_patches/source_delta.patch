From 3122d8a1c61e3038509fe677dcd107ca4d3ee3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 01/68] fix: math::array mixed-type construction, assignment
 and compound operators did not compile (private elems_ of another
 instantiation)

---
 ristra/math/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 55277ef..fb698b1 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -78,6 +78,9 @@ private:
   //! \brief The main data container, which is just a std::array.
   T elems_[length];
 
+  //! \brief Mixed-type operations access the elements of other arrays.
+  template <typename, std::size_t> friend class array;
+
   //! @}
 
 public:
-- 
2.43.0


From 6c5cc2fc5d6b04912e1227b2e6fc0c0c41be2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 02/68] fix: math::array divided by a scalar gave zero for
 integer element types (multiplied by an integer reciprocal)

---
 ristra/math/array.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index fb698b1..90d6640 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -425,9 +425,9 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
+    const auto div = val;
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= inv;
+      elems_[i] /= div;
     return *this;
   }
 
@@ -690,11 +690,10 @@ operator/( const array<T,N>& lhs,
            const U& rhs )
 {
   array<T,N> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename array<T,N>::counter_type;
   constexpr auto len = static_cast<counter_type>(N);
   for ( counter_type i=0; i<len; i++ )
-    tmp[i] = lhs[i] * inv;
+    tmp[i] = lhs[i] / rhs;
   return tmp;
 }
 
-- 
2.43.0


From c013c2e1d060a476c8c5341261a608f73fb7c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 03/68] fix: math::array compound operators with a scalar that
 aliases one of the elements used the already modified value

---
 ristra/math/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 90d6640..295de49 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -364,8 +364,9 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator+=(const T2 & val) {
+    const auto tmp = val; // val may be an element of this array
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] += val;    
+      elems_[i] += tmp;    
     return *this;
   }
 
@@ -384,8 +385,9 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator-=(const T2 & val) {
+    const auto tmp = val; // val may be an element of this array
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] -= val;    
+      elems_[i] -= tmp;    
     return *this;
   }
 
@@ -405,8 +407,9 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator*=(const T2 & val) {
+    const auto tmp = val; // val may be an element of this array
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= val;    
+      elems_[i] *= tmp;    
     return *this;
   }
 
-- 
2.43.0


From 4608fba9b5375037eeb6e16617d7d6dcb9afbc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:18 +0000
Subject: [PATCH 04/68] fix: math::multi_array mixed-type assignment and
 compound operators did not compile

---
 ristra/math/multi_array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index b75828d..10831fd 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -169,6 +169,9 @@ private:
   //! \brief The main data container, which is just a std::array.
   T elems_[ elements ];
 
+  //! \brief Mixed-type operations access the elements of other arrays.
+  template <typename, std::size_t...> friend class multi_array;
+
   //! \brief The individual dimensions.
   static constexpr size_type dims_[ dimensions ] = {N...};
 
@@ -449,8 +452,7 @@ public:
   //!\brief  assignment with type conversion
   template <typename T2>
   auto & operator= (const multi_array<T2,N...>& rhs) {
-    if ( this != &rhs )
-      for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs.elems_[i];    
     return *this;
   }
 
-- 
2.43.0


From aa3ea1f63f8252a716a34c28715dc9e71f41aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:18 +0000
Subject: [PATCH 05/68] fix: math::multi_array divided by a scalar gave zero
 for integer element types (multiplied by an integer reciprocal)

---
 ristra/math/multi_array.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index 10831fd..633413d 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -534,8 +534,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= inv;
+    const auto div = val;
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= div;
     return *this;
   }
 
@@ -877,10 +877,9 @@ operator/( const multi_array<T,N...>& lhs,
            const U& rhs )
 {
   multi_array<T,N...> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename multi_array<T,N...>::counter_type;
   for ( counter_type i=0; i<multi_array<T,N...>::elements; i++ ) 
-    tmp[i] = lhs[i] * inv;    
+    tmp[i] = lhs[i] / rhs;    
   return tmp;
 }
 
-- 
2.43.0


From daf709aac8adea84b3170f5184720f668cf30462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:18 +0000
Subject: [PATCH 06/68] fix: math::multi_array compound operators with a scalar
 that aliases one of the elements used the already modified value

---
 ristra/math/multi_array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index 633413d..7c0b009 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -479,7 +479,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator+=(const T2 & val) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] += val;    
+    const auto tmp = val; // val may be an element of this array
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] += tmp;    
     return *this;
   }
 
@@ -497,7 +498,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator-=(const T2 & val) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= val;    
+    const auto tmp = val; // val may be an element of this array
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= tmp;    
     return *this;
   }
 
@@ -516,7 +518,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator*=(const T2 & val) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= val;    
+    const auto tmp = val; // val may be an element of this array
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= tmp;    
     return *this;
   }
 
-- 
2.43.0


From d4d5d73ea164c25fadd9375f44b9db8f3e2aa823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:44 +0000
Subject: [PATCH 07/68] fix: math::matrix_vector applied alpha/beta once per
 column instead of computing alpha*A*x + beta*y

---
 ristra/math/matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/math/matrix.h b/ristra/math/matrix.h
index 3c7739b..f3306e8 100644
--- a/ristra/math/matrix.h
+++ b/ristra/math/matrix.h
@@ -304,8 +304,10 @@ void matrix_vector(
   C<T,D1> & y )
 {
   for ( utils::select_counter_t<D1> i = 0; i<D1; i++ ) {
+    T sum = 0;
     for ( utils::select_counter_t<D2>  j = 0; j<D2; j++ )
-      y[i] = alpha * A(i,j) * x[j] + beta * y[i];
+      sum += A(i,j) * x[j];
+    y[i] = alpha * sum + beta * y[i];
   }
 }
 //! @}
-- 
2.43.0


From 3f4b5c32dfb30c2c28fe5283a5a0b2687388230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:35 +0000
Subject: [PATCH 08/68] fix: math::exponential of the zero matrix converted
 -inf to int (undefined behaviour)

---
 ristra/math/matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/math/matrix.h b/ristra/math/matrix.h
index f3306e8..285d5a8 100644
--- a/ristra/math/matrix.h
+++ b/ristra/math/matrix.h
@@ -575,9 +575,11 @@ auto exponential( const matrix<T, N, N> & mat )
     constexpr size_t q = 6;
     //
     T mat_norm            = infinity_norm( mat );
-    T scaling_coefficient = ( std::log(mat_norm)
+    T scaling_coefficient = mat_norm > 0.
+                          ? ( std::log(mat_norm)
                             / std::log(2.)
-                            ) + 1.;
+                            ) + 1.
+                          : 0.;
     const size_t s =
         static_cast<size_t>
         (
-- 
2.43.0


From b801810a3e4f35767ccd18f3427d0aa3693a4bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 09/68] fix: math::min/max of two dynamic containers wrote to
 an empty result container

---
 ristra/math/general.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index bf50433..89410cf 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -286,7 +286,7 @@ auto min(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto min(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp(a);
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::min( a[i], b[i] );
   return tmp;
@@ -315,7 +315,7 @@ auto max(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto max(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp(a);
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::max( a[i], b[i] );
   return tmp;
-- 
2.43.0


From 82018b091fe2b5a8ddcb9d44767c0dc8197692a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:13 +0000
Subject: [PATCH 10/68] fix: math::average of negative integers divided by an
 unsigned count

---
 ristra/math/general.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index 89410cf..d09417c 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -42,7 +42,7 @@ average( T && t, Types&&... args )
 { 
   auto res( t ); // first one
   detail::average(res, std::forward<Types>(args)...); // sum the rest
-  res /=  ( sizeof...(args) + 1 ); // divide by number
+  res /= static_cast<std::ptrdiff_t>( sizeof...(args) + 1 ); // divide by number
   return res;
 }
 
@@ -83,7 +83,7 @@ auto average( const V<T, Args...> & vals )
   assert( vals.size() > 0 && "not enough values" );
   T avg(0);
   for ( const auto & x : vals ) avg += x;
-  avg /= vals.size();
+  avg /= static_cast<std::ptrdiff_t>( vals.size() );
   return avg;
 }
 
-- 
2.43.0


From dc56ca4100f97b283c8396cae0cd947feb869d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:51 +0000
Subject: [PATCH 11/68] fix: dimensioned_array compound operators did nothing
 when both operands are the same object (v += v)

---
 ristra/utils/dimensioned_array.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/dimensioned_array.h b/ristra/utils/dimensioned_array.h
index c21656c..8e1d36a 100644
--- a/ristra/utils/dimensioned_array.h
+++ b/ristra/utils/dimensioned_array.h
@@ -204,11 +204,9 @@ public:
       dimensioned_array__ const & rhs                                          \
     )                                                                          \
     {                                                                          \
-      if(this != &rhs) {                                                       \
-        for(size_t i{0}; i<DIMENSION; i++) {                                   \
-          data_[i] op rhs[i];                                                  \
-        } /* for */                                                            \
-      } /* if */                                                               \
+      for(size_t i{0}; i<DIMENSION; i++) {                                     \
+        data_[i] op rhs[i];                                                    \
+      } /* for */                                                              \
                                                                                \
       return *this;                                                            \
     }
-- 
2.43.0


From 567a50179fb58f44d397fc8f78dbdb7bb276d1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:51 +0000
Subject: [PATCH 12/68] fix: geometry::centroid of integer points divided
 negative sums by an unsigned count

---
 ristra/geometry/point.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/geometry/point.h b/ristra/geometry/point.h
index 98a77cb..0e990bb 100644
--- a/ristra/geometry/point.h
+++ b/ristra/geometry/point.h
@@ -68,7 +68,7 @@ auto centroid(const LIST<point<T, D>> & vert_list)
   point<T, D> tmp(0.0);
   for (auto v : vert_list)
     tmp += v;
-  tmp /= vert_list.size();
+  tmp /= static_cast<T>(vert_list.size());
   return tmp;
 } // centroid
 
@@ -79,7 +79,7 @@ auto centroid(std::initializer_list<point<T, D>> vert_list)
   point<T, D> tmp(0.0);
   for (auto v : vert_list)
     tmp += v;
-  tmp /= vert_list.size();
+  tmp /= static_cast<T>(vert_list.size());
   return tmp;
 } // centroid
 
-- 
2.43.0


From 0b0d7c9ff91a8712eea1efbdd7b414d6eec996ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:10 +0000
Subject: [PATCH 13/68] fix: elements::jacobian read a third row and column of
 the 2x2 matrix when dim is 2

---
 ristra/elements/elements.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 1b18817..832987b 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -553,12 +553,17 @@ void jacobian(
     
 
    //calcualate the determinant of the jacobian for 2D/3D matrices
-   det_J =  J_matrix[0][0] *(J_matrix[1][1] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][1] * J_matrix[1][2])*abs(dim-2))  //group 1
-         -  J_matrix[0][1] *(J_matrix[1][0] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][0] * J_matrix[1][2])*abs(dim-2))  // group 2
-         +  J_matrix[0][2] *(J_matrix[1][0] *  J_matrix[2][1] 
-         -  J_matrix[2][0] * J_matrix[1][1])*(abs(dim-2)); // group 3 
+   if (dim == 2) {
+      det_J =  J_matrix[0][0] * J_matrix[1][1]
+            -  J_matrix[0][1] * J_matrix[1][0];
+   } else {
+      det_J =  J_matrix[0][0] *(J_matrix[1][1] * J_matrix[2][2]
+            -  J_matrix[2][1] * J_matrix[1][2])  //group 1
+            -  J_matrix[0][1] *(J_matrix[1][0] * J_matrix[2][2]
+            -  J_matrix[2][0] * J_matrix[1][2])  // group 2
+            +  J_matrix[0][2] *(J_matrix[1][0] *  J_matrix[2][1] 
+            -  J_matrix[2][0] * J_matrix[1][1]); // group 3 
+   }
    } // end of jacobian function
 
 //defining the jacobian for 4D elements
-- 
2.43.0


From c793f1b4ab082ccaeb3fe2bdee4c415197e205cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:10 +0000
Subject: [PATCH 14/68] fix: elements::jacobian_inverse_3d used a wrong
 cofactor, a wrong determinant and the transposed adjugate

---
 ristra/elements/elements.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 832987b..a333bb1 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -664,16 +664,16 @@ void jacobian_inverse_3d(
    real_t A_32 = jacobian[0][2]*jacobian[1][0] 
                  - jacobian[1][2]*jacobian[0][0];
 
-   real_t A_13 = jacobian[1][0]*jacobian[1][1] 
+   real_t A_13 = jacobian[1][0]*jacobian[2][1] 
                  - jacobian[2][0]*jacobian[1][1];
  
-   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_21 
-                + jacobian[0][2]*A_31;
+   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_12 
+                + jacobian[0][2]*A_13;
 
    J_inverse_matrix = {
-                      {A_11/det, A_12/det, A_13/det},
-                      {A_21/det, A_22/det, A_23/det},
-                      {A_31/det, A_32/det, A_33/det},
+                      {A_11/det, A_21/det, A_31/det},
+                      {A_12/det, A_22/det, A_32/det},
+                      {A_13/det, A_23/det, A_33/det},
                       };
 
     } // end of inverse jacobian 
-- 
2.43.0


From ae6e6a72a2de31751349956d4701301533d3dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:10 +0000
Subject: [PATCH 15/68] fix: elements::jacobian_inverse_4d used a wrong element
 in the (2,2) cofactor

---
 ristra/elements/elements.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index a333bb1..c2111cb 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -779,7 +779,7 @@ void jacobian_inverse_4d(
            - m[4]  * m[1] * m[15] 
            + m[4]  * m[3] * m[13] 
            + m[12] * m[1] * m[7] 
-           - m[12] * m[3] * m[6];
+           - m[12] * m[3] * m[5];
 
    inv[14] =-m[0]  * m[5] * m[14] 
            + m[0]  * m[6] * m[13] 
-- 
2.43.0


From 918ea1967dfc59b72741ffc7006b826a4415e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:10 +0000
Subject: [PATCH 16/68] fix: elements::Quad_12_2D::basis evaluated the 8-node
 shape functions and left nodes 8-11 unset

---
 ristra/elements/elements.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index c2111cb..21e08eb 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -1256,26 +1256,28 @@ void Quad_12_2D::basis(
 
    // calculate the shape functions for node 0,1,2,3(xi,eta)
    for( int this_vert = 0; this_vert < 4; this_vert++ ){
-      basis[this_vert] = 1.0/4.0
+      basis[this_vert] = 1.0/32.0
          * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
          * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1])
-         * (xi_2D_point[0]*ref_vert[this_vert][0] 
-         +  xi_2D_point[1]*ref_vert[this_vert][1] -1);
+         * (9.0 * (xi_2D_point[0]*xi_2D_point[0] 
+         +  xi_2D_point[1]*xi_2D_point[1]) - 10.0);
    } // end for this_vert
 
 
-   // calculate the shape functions for node 4,6(xi,eta)
-   for( int this_vert = 4; this_vert <= 6; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
+   // calculate the shape functions for node 4-7(xi,eta)
+   for( int this_vert = 4; this_vert <= 7; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
          * (1.0 - xi_2D_point[0]*xi_2D_point[0])
-         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1]);
+         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1])
+         * (1.0 + 9.0*xi_2D_point[0]*ref_vert[this_vert][0]);
    } // end for this_vert
 
-   // calculate the shape functions for node 5,7 (xi,eta)
-   for( int this_vert = 5; this_vert <= 7; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
+   // calculate the shape functions for node 8-11 (xi,eta)
+   for( int this_vert = 8; this_vert <= 11; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
          * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
-         * (1.0 - xi_2D_point[1]*xi_2D_point[1]);
+         * (1.0 - xi_2D_point[1]*xi_2D_point[1])
+         * (1.0 + 9.0*xi_2D_point[1]*ref_vert[this_vert][1]);
    } // end for this_vert
 }// end of quad12 basis functions
 
-- 
2.43.0


From 446c7c536c1ba4f6feb7be0f2c3d1636edc508f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:10 +0000
Subject: [PATCH 17/68] fix: elements::QuadN/HexN::physical_position skipped
 the last coordinate and accumulated onto the caller's old value

---
 ristra/elements/elements.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 21e08eb..b6c649f 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2289,8 +2289,11 @@ void QuadN::physical_position (
    int nodes = orderN + 1;
    int numnodes_2d = nodes * nodes;
 
+   for (int dim = 0; dim < 2; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_2d; this_vert++ ){
-      for (int dim = 0; dim < 1; dim++){
+      for (int dim = 0; dim < 2; dim++){
          x_point[dim] += lag_nodes_2d[this_vert][dim]*lag_basis_2d[this_vert];
       } // end for dim
    } // end for this_vert
@@ -2571,8 +2574,11 @@ void HexN::physical_position (
    int nodes = orderN + 1;
    int numnodes_3d = nodes * nodes * nodes;
 
+   for (int dim = 0; dim < 3; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_3d; this_vert++ ){
-      for (int dim = 0; dim < 2; dim++){
+      for (int dim = 0; dim < 3; dim++){
          x_point[dim] += lag_nodes[this_vert][dim]*lag_basis_3d[this_vert];
       } // end for dim
    } // end for this_vert
-- 
2.43.0


From a233c19ef5b3fdadd0563d54743f0346acdbb870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:33 +0000
Subject: [PATCH 18/68] fix: elements::Tess16 used an uninitialised member
 table of reference vertices

---
 ristra/elements/elements.cc | 4 ++--
 ristra/elements/elements.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index b6c649f..330c112 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2762,9 +2762,9 @@ void HexN::basis_partials (
  */
 
 
-int  num_nodes = 16;
+int  Tess16::num_nodes = 16;
 
-real_t ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
+real_t Tess16::ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
    {
    // Interior cube bottom
    {-1.0, -1.0, -1.0, -1.0},//0
diff --git a/ristra/elements/elements.h b/ristra/elements/elements.h
index 85739d0..66d52a8 100644
--- a/ristra/elements/elements.h
+++ b/ristra/elements/elements.h
@@ -742,9 +742,9 @@ class HexN{
 
 class Tess16: public Element4D {
    protected:
-      int  num_nodes;
+      static int  num_nodes;
 
-      real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
+      static real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
 
 
 
-- 
2.43.0


From c9171f056cafc64b60748be6d9792fd4af45f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:56 +0000
Subject: [PATCH 19/68] fix: fixed_vector data(), rbegin(), rend(), crbegin()
 and crend() did not compile

---
 ristra/utils/fixed_vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7e3af50..7a92246 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -134,8 +134,8 @@ public:
   constexpr reference front() { return data_[0]; }
   constexpr reference back()  { return data_[size()-1]; }
         
-  constexpr const_pointer data() const { return data_; }
-  constexpr pointer data() { return data_; }
+  constexpr const_pointer data() const { return data_.data(); }
+  constexpr pointer data() { return data_.data(); }
         
 
   //============================================================================
@@ -148,10 +148,10 @@ public:
   constexpr const_iterator end() const { return std::next(data_.begin(), length_); }
   constexpr const_iterator cbegin() const { return begin(); }
   constexpr const_iterator cend() const { return end(); }
-  reverse_iterator rbegin() const {
+  const_reverse_iterator rbegin() const {
     return const_reverse_iterator(end());
   }
-  reverse_iterator rend() const {
+  const_reverse_iterator rend() const {
     return const_reverse_iterator(begin());
   }
   const_reverse_iterator crbegin() const { return rbegin(); }
-- 
2.43.0


From f14ef8707984e145a9ac9ed722a385849bcbd998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:56 +0000
Subject: [PATCH 20/68] fix: fixed_vector::insert shifted the tail front to
 back, overwriting elements not yet moved

---
 ristra/utils/fixed_vector.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7a92246..5030d62 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -180,8 +180,7 @@ public:
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::copy(d_first, end(), d_last );
+    std::copy_backward(d_first, end(), std::next(end()) );
     // assign value
     *d_first = value;
     // increment counter
@@ -196,8 +195,7 @@ public:
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::move(d_first, end(), d_last );
+    std::move_backward(d_first, end(), std::next(end()) );
     // assign value
     *d_first = std::move( value );
     // increment counter
@@ -214,8 +212,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::copy(d_first, end(), d_last );
+    std::copy_backward(d_first, end(), std::next(end(), count) );
     // assign value
     std::fill_n( d_first, count, value );
     // increment counter
@@ -238,8 +235,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::move(d_first, end(), d_last );
+    std::move_backward(d_first, end(), std::next(end(), count) );
     // assign values
     std::copy( first, last, d_first );
     // increment counter
@@ -258,8 +254,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return start;
     // otherwise, shift data to the right
-    auto next = std::next(start, count);
-    std::move(start, end(), next );
+    std::move_backward(start, end(), std::next(end(), count) );
     // assign values
     std::copy( ilist.begin(), ilist.end(), start );
     // increment counter
-- 
2.43.0


From c19918872bf3b75b3a91b29820a48b93bc34d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:56 +0000
Subject: [PATCH 21/68] fix: fixed_vector::insert of one of its own elements
 inserted the shifted value

---
 ristra/utils/fixed_vector.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 5030d62..9d62ea6 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -179,10 +179,12 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
+    // value may be an element that is about to be shifted
+    T tmp( value );
     // shift data to the right
     std::copy_backward(d_first, end(), std::next(end()) );
     // assign value
-    *d_first = value;
+    *d_first = std::move( tmp );
     // increment counter
     length_++;
     // return an iterator to the inserted value
@@ -194,10 +196,12 @@ public:
     assert( size() < capacity() );
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
+    // value may be an element that is about to be shifted
+    T tmp( std::move( value ) );
     // shift data to the right
     std::move_backward(d_first, end(), std::next(end()) );
     // assign value
-    *d_first = std::move( value );
+    *d_first = std::move( tmp );
     // increment counter
     length_++;
     // return an iterator to the inserted value
@@ -211,10 +215,12 @@ public:
     auto d_first = _validate_iterator( pos );
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
+    // value may be an element that is about to be shifted
+    const T tmp( value );
     // otherwise, shift data to the right
     std::copy_backward(d_first, end(), std::next(end(), count) );
     // assign value
-    std::fill_n( d_first, count, value );
+    std::fill_n( d_first, count, tmp );
     // increment counter
     length_ += count;
     // return an iterator to the inserted value
-- 
2.43.0


From 90e9f104cac971436d4911d98d0d94f3fb1ef108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:56 +0000
Subject: [PATCH 22/68] fix: fixed_vector::erase of an empty range returned
 begin() instead of the given position

---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 9d62ea6..7d6d891 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -293,7 +293,7 @@ public:
     // if empty, nothing to do    
     if ( empty() ) return end();
     // if first == last, nothring to do
-    if ( first == last ) return begin();
+    if ( first == last ) return _validate_iterator( last );
     // get the number of deleted elements
     auto count = std::distance( first, last );
     // convert to a non-const iterator
-- 
2.43.0


From eee51f26054393a2f005834e441630f27e90d2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:56 +0000
Subject: [PATCH 23/68] fix: fixed_vector operator== ignored the length of the
 right-hand side

---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7d6d891..461bfca 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -384,7 +384,7 @@ template< class T, std::size_t N >
 bool operator==( const fixed_vector<T,N>& lhs,
                  const fixed_vector<T,N>& rhs )
 {
-  return std::equal( lhs.begin(), lhs.end(), rhs.begin() );
+  return std::equal( lhs.begin(), lhs.end(), rhs.begin(), rhs.end() );
 }
     
 } // namespace utils
-- 
2.43.0


From 1d8e5df79f05c1e87b8427804e214b536025751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:37 +0000
Subject: [PATCH 24/68] fix: trivial_string operator[] accepted an index one
 past the end

---
 ristra/utils/trivial_string.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/trivial_string.h b/ristra/utils/trivial_string.h
index 76353b4..728ee8c 100644
--- a/ristra/utils/trivial_string.h
+++ b/ristra/utils/trivial_string.h
@@ -13,6 +13,7 @@
 
 // system includes
 #include <array>
+#include <cassert>
 #include <cstring>
 #include <string>
 
@@ -36,14 +37,14 @@ public:
   //! \brief return the value at a specific position `n`
   auto & operator[] ( size_type n )
   { 
-    assert( n <= size() );
+    assert( n < size() );
     return str_[n]; 
   }
 
   //! \brief return the value at a specific position `n`
   const auto & operator[] ( size_type n ) const
   { 
-    assert( n <= size() );
+    assert( n < size() );
     return str_[n]; 
   }
 
-- 
2.43.0


From 422e0a5bc3f819ddd01e39875270cc826879ae5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:37 +0000
Subject: [PATCH 25/68] fix: to_trivial_string overran the buffer for strings
 of N or more characters

---
 ristra/utils/trivial_string.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/trivial_string.h b/ristra/utils/trivial_string.h
index 728ee8c..9771f61 100644
--- a/ristra/utils/trivial_string.h
+++ b/ristra/utils/trivial_string.h
@@ -78,8 +78,11 @@ private:
 template< std::size_t N >
 auto to_trivial_string( const std::string & str )
 {
+  static_assert( N > 0, "room is needed for the terminating null" );
   trivial_string<N> tmp;
-  strcpy( tmp.data(), str.c_str() );
+  // keep what fits, always null terminated
+  strncpy( tmp.data(), str.c_str(), N-1 );
+  tmp[N-1] = '\0';
   return tmp;
 }
 
-- 
2.43.0


From 8cb341944c305622dad7993d30f6ec8d6757a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:35 +0000
Subject: [PATCH 26/68] fix: replace_all never terminated for an empty search
 string

---
 ristra/utils/string_utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 9ea2e6f..d040660 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -33,6 +33,7 @@ namespace utils {
 ////////////////////////////////////////////////////////////////////////////////
 inline
 auto replace_all(std::string str, const std::string & from, const std::string & to) {
+  if (from.empty()) return str; // nothing to search for
   size_t start_pos = 0;
   while((start_pos = str.find(from, start_pos)) != std::string::npos) {
     str.replace(start_pos, from.length(), to);
-- 
2.43.0


From 2fe9ac602d1dcb31049093e5c035fab8a0fc5c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:35 +0000
Subject: [PATCH 27/68] fix: remove_extension and split_extension cut paths at
 a dot in a directory name

---
 ristra/utils/string_utils.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index d040660..64d2d07 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -117,7 +117,9 @@ std::string file_extension(const std::string & str)
 inline
 std::string remove_extension(const std::string & str) {
     auto lastdot = str.find_last_of(".");
-    if (lastdot == std::string::npos) return str;
+    // a dot in the directory part does not start an extension
+    if (lastdot == std::string::npos ||
+      lastdot < str.length() - basename(str).length()) return str;
     return str.substr(0, lastdot); 
 }
 
@@ -130,7 +132,9 @@ inline
 std::pair<std::string, std::string>
 split_extension(const std::string & str) {
   auto lastdot = str.find_last_of(".");
-  if (lastdot == std::string::npos)
+  // a dot in the directory part does not start an extension
+  if (lastdot == std::string::npos ||
+    lastdot < str.length() - basename(str).length())
     return std::make_pair( str, "");
   else
     return std::make_pair( str.substr(0, lastdot), str.substr(lastdot+1) ); 
-- 
2.43.0


From fb10fb475f64d30b41e111ee7776b9bc798dc6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:35 +0000
Subject: [PATCH 28/68] fix: split wrote before its table for delimiters with a
 negative char value

---
 ristra/utils/string_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 64d2d07..9be1892 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -171,7 +171,7 @@ std::vector<std::string> split(
       static ccmask rc[cctype::table_size];
       std::memcpy(rc, const_rc, cctype::table_size*sizeof(ccmask));
       for (const auto & d : delims) 
-        rc[d] = ctype_base::space;
+        rc[static_cast<unsigned char>(d)] = ctype_base::space;
       return &rc[0];
     }
   };
-- 
2.43.0


From 8a4a283c5c77788cb40fbf2331a81a019f378521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:35 +0000
Subject: [PATCH 29/68] fix: split shared one static delimiter table between
 concurrent calls

---
 ristra/utils/string_utils.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 9be1892..c78f460 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -162,13 +162,14 @@ std::vector<std::string> split(
     using ccmask = cctype::mask;
     
     tokens_t(const std::vector<char> & delims) 
-      : cctype(get_table(delims)) {}
+      : cctype(get_table(delims), true) {}
 
     static ctype_base::mask const * get_table(
       const std::vector<char> & delims
     ) {
       static const ccmask * const_rc = cctype::classic_table();
-      static ccmask rc[cctype::table_size];
+      // each facet owns its table, concurrent splits do not share one
+      auto rc = new ccmask[cctype::table_size];
       std::memcpy(rc, const_rc, cctype::table_size*sizeof(ccmask));
       for (const auto & d : delims) 
         rc[static_cast<unsigned char>(d)] = ctype_base::space;
-- 
2.43.0


From ee269b7aa7b6ba40aa154707d24721eccd553e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 30/68] fix: zip did not check the length of its first
 container and read past the list of lengths for one container

---
 ristra/utils/zip.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/zip.h b/ristra/utils/zip.h
index 0731ff3..6b9a62c 100644
--- a/ristra/utils/zip.h
+++ b/ristra/utils/zip.h
@@ -76,9 +76,9 @@ decltype(auto) zip(T&&... containers)
 
   // check all the sizes
   size_t sizes[] = { containers.size()... };
-  auto first_size = sizes[1];
+  auto first_size = sizes[0];
 #ifndef NDEBUG
-  for ( int i=2; i<n; i++ )
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 #endif
 
@@ -131,8 +131,8 @@ decltype(auto) zip(Types&&... args)
 
   // check all the sizes
   size_t sizes[] = { args.size()... };
-  auto first_size = sizes[1];
-  for ( int i=2; i<n; i++ )
+  auto first_size = sizes[0];
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 
   return zipper<special_decay_t<Types>...>(std::forward<Types>(args)...);
-- 
2.43.0


From 23355e0ab5347b487763fd19493969fc92fa3115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 31/68] fix: tuple_to_array.h did not compile on its own

---
 ristra/utils/tuple_to_array.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/tuple_to_array.h b/ristra/utils/tuple_to_array.h
index 5699cac..6addac0 100644
--- a/ristra/utils/tuple_to_array.h
+++ b/ristra/utils/tuple_to_array.h
@@ -9,6 +9,12 @@
 
 #pragma once
 
+// system includes
+#include <array>
+#include <cstddef>
+#include <tuple>
+#include <utility>
+
 namespace ristra {
 namespace utils {
 
@@ -24,7 +30,7 @@ template<typename T, typename... U, std::size_t... I>
 inline Array<T, U...>
 to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 {
-  return Array<T, U...>{ get<I>(t)... };
+  return Array<T, U...>{ std::get<I>(t)... };
 }
 
 } // detail
@@ -35,7 +41,7 @@ to_array(const std::tuple<T, U...>& t, std::index_sequence<I...>)
 ////////////////////////////////////////////////////////////////////////////////
 template<typename T, typename... U>
 inline detail::Array<T, U...>
-to_array(const tuple<T, U...>& t)
+to_array(const std::tuple<T, U...>& t)
 {
   using IndexTuple = std::make_index_sequence<1+sizeof...(U)>;
   return detail::to_array(t, IndexTuple());
-- 
2.43.0


From e617faa19c5b561afa12fe69130271b3ef789aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 32/68] fix: filter_iterator dereferenced to the iterator
 instead of the element

---
 ristra/utils/filter_iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 984e5ce..b0e83f7 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -98,10 +98,10 @@ public:
   //============================================================================
   
   //! \brief return the current value
-  constexpr reference operator*() const noexcept { return iter_; }
+  constexpr reference operator*() const noexcept { return *iter_; }
 
   //! \brief return a pointer to the current value
-  constexpr pointer operator->() const noexcept { return &iter_; }
+  constexpr pointer operator->() const noexcept { return &*iter_; }
 
   //! \brief prefix increment opeator
   constexpr filter_iterator& operator++() noexcept
-- 
2.43.0


From 5794f1442aed23e25cc9a571941e76c40e07992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 33/68] fix: filter_iterator never advanced past a matching
 element and started on a non-matching one

---
 ristra/utils/filter_iterator.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index b0e83f7..0f4f94f 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -52,7 +52,8 @@ public:
   //!        no default constructor either
   constexpr filter_iterator( 
     Predicate pred, Iterator first, Iterator last = Iterator() ) noexcept
-    : pred_( pred ), iter_(first), end_(last) {}
+    : pred_( pred ), iter_(first), end_(last)
+  { satisfy_predicate(); }
 
   template<
     class OtherIterator,
@@ -106,10 +107,8 @@ public:
   //! \brief prefix increment opeator
   constexpr filter_iterator& operator++() noexcept
   {
-    for (; iter_ != end_ ; ++iter_) {
-      if ( pred_(*iter_) )
-        return *this;
-    }
+    ++iter_;
+    satisfy_predicate();
     return *this;
   }
 
@@ -158,6 +157,12 @@ private:
   //============================================================================
   /// @{
 
+  //! \brief move to the first element that satisfies the predicate
+  constexpr void satisfy_predicate()
+  {
+    while ( iter_ != end_ && !pred_(*iter_) ) ++iter_;
+  }
+
   //! \brief the predicate
   Predicate pred_;
 
-- 
2.43.0


From 1ad6e74bc7817ab82b30fbd211ff595333dde1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 34/68] fix: filter_iterator conversion read its own
 uninitialized end

---
 ristra/utils/filter_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 0f4f94f..fd36e77 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -62,7 +62,7 @@ public:
   >
   filter_iterator( 
     filter_iterator<Predicate, OtherIterator> const& other ) noexcept
-    : pred_( other.predicate() ), iter_( *other ), end_( end() )
+    : pred_( other.predicate() ), iter_( other.begin() ), end_( other.end() )
   {}
 
   //! \brief default copy constructor
-- 
2.43.0


From ad772f6e6e9b052a8abfadf30d19319ade463b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 35/68] fix: make_filter_iterator did not accept named
 iterators or predicates

---
 ristra/utils/filter_iterator.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index fd36e77..0f16bb4 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -8,7 +8,11 @@
 ////////////////////////////////////////////////////////////////////////////////    
 #pragma once
 
-// user includes
+// system includes
+#include <cstddef>
+#include <iterator>
+#include <type_traits>
+#include <utility>
 
 namespace ristra {
 namespace utils {
@@ -183,7 +187,7 @@ private:
 template <class Predicate, class Iterator>
 auto make_filter_iterator( Iterator && first, Iterator && last, Predicate && pred ) 
 {
-  return filter_iterator<Predicate, Iterator>( 
+  return filter_iterator<std::decay_t<Predicate>, std::decay_t<Iterator>>( 
     std::forward<Predicate>(pred), 
     std::forward<Iterator>(first), 
     std::forward<Iterator>(last)
-- 
2.43.0


From 713be2b22947ffd4a7be10baaea1f614811989e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:22 +0000
Subject: [PATCH 36/68] fix: atomics cpp scheme returned a later value instead
 of its own result

---
 ristra/atomics/src/atomics-macro-class.h | 10 +++++++---
 ristra/atomics/src/atomics.h             | 24 ++++++++++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/ristra/atomics/src/atomics-macro-class.h b/ristra/atomics/src/atomics-macro-class.h
index 1a7394f..9ef6068 100644
--- a/ristra/atomics/src/atomics-macro-class.h
+++ b/ristra/atomics/src/atomics-macro-class.h
@@ -33,9 +33,13 @@ public:
       // std::atomic<>'s fetch_add() etc. return the contained value BEFORE
       // the call, which is inconsistent with what we expect from "+=" etc.,
       // and with what we get from our other atomicity schemes (below). So,
-      // we split the call and the return.
-      atom.atomics_cpp(val,sync); // e.g. atom.fetch_add(val,sync)
-      return T(atom);
+      // we reapply the operation to the value that the call returned. (Not
+      // to a fresh read of atom, which other threads may have changed.)
+      typename fetch_types<T>::value neu =
+         typename fetch_types<T>::value(
+            atom.atomics_cpp(val,sync)); // e.g. atom.fetch_add(val,sync)
+      neu atomics_op typename fetch_types<T>::arg(val);
+      return T(neu);
    }
    #endif
 
diff --git a/ristra/atomics/src/atomics.h b/ristra/atomics/src/atomics.h
index 5037be9..dabce09 100644
--- a/ristra/atomics/src/atomics.h
+++ b/ristra/atomics/src/atomics.h
@@ -281,6 +281,30 @@ public:
    using value_type = T;
 };
 
+
+// ------------------------
+// fetch_types
+// ------------------------
+
+// What std::atomic<T>'s fetch_add() etc. compute with: for integral T, the
+// operations wrap around, as for unsigned; for pointers, the right-hand side
+// is a std::ptrdiff_t.
+
+template<class T, bool = std::is_integral<T>::value>
+class fetch_types {
+public:
+   using value = T;
+   using arg = typename std::conditional<
+      std::is_pointer<T>::value, std::ptrdiff_t, T>::type;
+};
+
+template<class T>
+class fetch_types<T,true> {
+public:
+   using value = typename std::make_unsigned<T>::type;
+   using arg = T;
+};
+
 } // namespace internal
 
 
-- 
2.43.0


From d06d617206de5d0e8b9a8a3f24799d8ffa33879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:49 +0000
Subject: [PATCH 37/68] fix: contiguous_bounds built from an array used its
 extents as strides

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index d56c5b3..77aa1fa 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1040,7 +1040,7 @@ protected:
   constexpr contiguous_bounds( 
     ArrayType &, std::index_sequence<I...> ) noexcept : 
     bounds_( std::extent<ArrayType, I>::value... ),
-    strides_( std::extent<ArrayType, I>::value... )
+    strides_( detail::make_strides<index_type>{}( std::extent<ArrayType, I>::value... ) )
   { };  
 
   /// @}
-- 
2.43.0


From be5f52f5df643762d0c518e5b22499ad0102c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:49 +0000
Subject: [PATCH 38/68] fix: array views reported empty() exactly when they
 were not

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 77aa1fa..26b6f89 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2218,7 +2218,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -2728,7 +2728,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -3236,7 +3236,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
-- 
2.43.0


From 204a2d4008485339000640fa0772da23873f73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:49 +0000
Subject: [PATCH 39/68] fix: array view at() and slice() terminated instead of
 throwing out_of_range

---
 ristra/utils/array_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 26b6f89..6ae30b1 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2271,7 +2271,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the strided_array_view.    
@@ -2780,7 +2780,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3289,7 +3289,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3329,7 +3329,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] slice the index
   //! \return a reference to the indexed location
-  constexpr auto slice( size_type idx ) const noexcept
+  constexpr auto slice( size_type idx ) const
   { 
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
-- 
2.43.0


From f8907d8a94915d092b1b3e653c5738cd6aa72e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:10 +0000
Subject: [PATCH 40/68] fix: bounds_iterator += did not compile above rank 1
 and missed the past-the-end position

---
 ristra/utils/array_view.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 6ae30b1..b44ef17 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1433,11 +1433,16 @@ public:
   constexpr bounds_iterator& operator+=(difference_type n) noexcept
   {
     auto linear_idx = linearize(current_) + n;
-    std::remove_const_t<value_type> stride = 0;
+    std::remove_const_t<value_type> stride;
     stride[rank - 1] = 1;
     for (int i = rank - 1; i-- > 0;) {
       stride[i] = stride[i + 1] * bounds_[i + 1];
     }
+    // past-the-end
+    if (linear_idx == stride[0] * bounds_[0]) {
+      current_ = bounds_;
+      return *this;
+    }
     for (int i = 0; i < rank; ++i) {
       current_[i] = linear_idx / stride[i];
       linear_idx = linear_idx % stride[i];
-- 
2.43.0


From 13e7a45c29501f45706da84a98ff75e92e88586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:10 +0000
Subject: [PATCH 41/68] fix: bounds_iterator ordering was not the order of
 iteration above rank 1

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index b44ef17..86a39ca 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1497,7 +1497,7 @@ public:
   //! \brief test less-than
   //! \param [in] rhs the object on the right hand side of the operator
   constexpr bool operator<(const bounds_iterator& rhs) const noexcept
-  { return (current_ < rhs.current_); }
+  { return linearize(current_) < linearize(rhs.current_); }
 
   //! \brief test <=
   //! \param [in] rhs the object on the right hand side of the operator
-- 
2.43.0


From 14d319fb1d8f87a5a3d91158cb9f358255634d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:10 +0000
Subject: [PATCH 42/68] fix: bounds_iterator could not be assigned or swapped

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 86a39ca..9481dd1 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1563,7 +1563,7 @@ private:
   /// @{
 
   //! \brief storage for the bounds
-  value_type bounds_;
+  std::remove_const_t<value_type> bounds_;
   //! \brief storage for the current index
   std::remove_const_t<value_type> current_;
 
-- 
2.43.0


From b543c8987b0b7762efbd77ed830a19bcb5342a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:10 +0000
Subject: [PATCH 43/68] fix: iteration over bounds with a zero extent visited
 indices outside them

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 9481dd1..8bc7292 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -738,7 +738,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : bounds_ ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -995,7 +995,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : bounds_ ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -1221,7 +1221,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : bounds_ ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
-- 
2.43.0


From f134f575f764e7f12f1e03d80241f98569608283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:45 +0000
Subject: [PATCH 44/68] fix: strided_array_view operator== ignored strides and
 shape of views that start at the same element

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 8bc7292..e1d5745 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2426,7 +2426,7 @@ public:
   constexpr bool operator==(const strided_array_view<OtherValueType, OtherRank>& other) const noexcept
   {
     return bounds_.size() == other.bounds_.size() &&
-      (data_ == other.data_ || std::equal(this->begin(), this->end(), other.begin()));
+      std::equal(this->begin(), this->end(), other.begin());
   }
 
   template <
-- 
2.43.0


From 3ce0a7ccfc9213272fd710507684a045d1a62f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:45 +0000
Subject: [PATCH 45/68] fix: static_array_view const iterators covered Rank
 elements instead of all

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index e1d5745..f482400 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -3109,7 +3109,7 @@ public:
   using reference = std::add_lvalue_reference_t<value_type>;
 
   //! \brief a constant version of the same view
-  using const_static_array_view = static_array_view<const_value_type, Rank>;
+  using const_static_array_view = static_array_view<const_value_type, FirstDim, RestDims...>;
 
   //! \brief a strided version of the same view
   using strided_view = strided_array_view<value_type, Rank>;
-- 
2.43.0


From ad50968da874e19452b1c7b854ae0b8d04488c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:45 +0000
Subject: [PATCH 46/68] fix: static_array_view strides() and stride() returned
 a reference to a temporary

---
 ristra/utils/array_view.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index f482400..c6068af 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -3248,10 +3248,10 @@ public:
   { return bounds_; }
 
   //! \brief return the stride of the array
-  constexpr const auto & strides() const noexcept
+  constexpr auto strides() const noexcept
   { return bounds_.strides(); }
  
-  constexpr const auto & stride() const noexcept
+  constexpr auto stride() const noexcept
   { return bounds_.stride(); }
 
 
-- 
2.43.0


From 91b07be6fad478f36a6e6130996bfecad0e76df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:45 +0000
Subject: [PATCH 47/68] fix: static_array_view slices, sections and conversions
 did not compile, and its converting assignment returned nothing

---
 ristra/utils/array_view.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index c6068af..ecbf464 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -3124,7 +3124,7 @@ public:
 
 
   //! a sliced type
-  using sliced_type = slice_chooser< (Rank == 1),  value_type, RestDims... >;
+  using sliced_type = typename slice_chooser< (Rank == 1),  value_type, RestDims... >::type;
 
   /// @}
         
@@ -3181,6 +3181,7 @@ public:
   operator=(const static_array_view<ViewValueType, FirstDim, RestDims...>& rhs) noexcept
   {
     data_ = rhs.data();
+    return *this;
   }
 
   //! \brief single parameter container
@@ -3327,7 +3328,7 @@ public:
   constexpr Ret operator[]( size_type idx ) const noexcept
   { 
     const auto ridx = idx * bounds_.stride();
-    return { bounds_.slice(), data_+ridx };
+    return { data_+ridx };
   }
 
   //! \brief slice an array, i.e. fix the most significant dimension
@@ -3356,7 +3357,7 @@ public:
   { 
     assert( bounds().contains(origin) );
     auto bnds = bounds_.as_index() - origin;
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   constexpr strided_view section( 
@@ -3365,21 +3366,21 @@ public:
   { 
     assert( bounds_.contains(origin) );
     assert( origin + bnds <= bounds_.as_index() );    
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator strided_view() const 
   {
-    return strided_view( bounds_.as_index(), bounds_.strides(), data() );
+    return strided_view( data(), bounds_.as_index(), bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator dynamic_view() const 
   {
-    return dynamic_view( bounds_.as_index(), data() );
+    return dynamic_view( data(), typename dynamic_view::bounds_type( bounds_.as_index() ) );
   }
   
   /// @}
-- 
2.43.0


From 31e87898f545d72169c27fe11a28594fb220ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:48 +0000
Subject: [PATCH 48/68] fix: array_view did not convert to strided_array_view,
 so its section() did not compile

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index ecbf464..b6ad07b 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2085,7 +2085,7 @@ public:
   //! \param [in] rhs  the array_vew to set the new view to
   template<
     typename ViewValueType, 
-    int ViewRank,
+    std::ptrdiff_t ViewRank,
     bool Enabled1 = std::is_convertible< std::add_pointer_t<ViewValueType>, pointer>::value,
     bool Enabled2 = (ViewRank == Rank),
     std::enable_if_t< Enabled1 && Enabled2 >* = nullptr
-- 
2.43.0


From 257fcc7d61af2b3464bf857a75a7db769ca67c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 49/68] fix: make_lua_ref takes the type of the value it refers
 to

---
 ristra/embedded/embed_lua.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index fc15b0b..1bd36bd 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -546,7 +546,9 @@ public:
 inline lua_ref_t make_lua_ref(const lua_state_ptr_t & state)
 {
   auto s = state.get();
-  return { state, luaL_ref(s, LUA_REGISTRYINDEX), lua_type(s, -1) };
+  // luaL_ref pops the value, so get its type first
+  auto type = lua_type(s, -1);
+  return { state, luaL_ref(s, LUA_REGISTRYINDEX), type };
 }
 
 
-- 
2.43.0


From d515ccf42a47557bda592a2b64dd7b79df6f5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 50/68] fix: a lua table lookup only pops its table from the
 lua stack

---
 ristra/embedded/embed_lua.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 1bd36bd..8088af3 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -863,7 +863,7 @@ public:
     auto len = lua_rawlen(s, -1);
     // get a reference to the result, and pop the table from the stack
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
+    lua_pop(s, 1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -886,7 +886,7 @@ public:
     auto len = lua_rawlen(s, -1);
     // get a reference to the result, and pop the table from the stack
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
+    lua_pop(s, 1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
-- 
2.43.0


From a543f88c623837ad1afb0db5aaab2308478c9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 51/68] fix: lua tables convert from any stack index

---
 ristra/embedded/embed_lua.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 8088af3..8deed1e 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -182,12 +182,13 @@ struct lua_value< Vector<T,Allocator> >
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    index = lua_absindex(s, index);
+    auto n = lua_rawlen(s, index);
     // extract the results
     Vector<T,Allocator> res;
     res.reserve(n);
     for ( int i=1; i<=n; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res.emplace_back( lua_value<T>::get(s) );
     }
     // remove it from the stack
@@ -219,7 +220,8 @@ struct lua_value< Array<T,N> >
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    index = lua_absindex(s, index);
+    auto n = lua_rawlen(s, index);
     if ( n != N )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<N<<", stack array is size " << n
@@ -227,7 +229,7 @@ struct lua_value< Array<T,N> >
     // extract the results
     Array<T,N> res;
     for ( int i=1; i<=std::min(n,N); ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res[i-1] = lua_value<T>::get(s);
     }
     // remove it from the stack
@@ -263,7 +265,8 @@ struct lua_value< Matrix<T,M,N> >
       lua_typename(s, lua_type(s, index)) << "\" to multiarray."
     );
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    index = lua_absindex(s, index);
+    auto n = lua_rawlen(s, index);
     if ( n != M )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<M<<", stack array is size " << n
@@ -271,7 +274,7 @@ struct lua_value< Matrix<T,M,N> >
     // extract the results
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       for (int j=1; j<=N; ++j) {
         lua_rawgeti(s, -1, j); // push t[j]
         res(i-1,j-1) = lua_value<T>::get(s);
-- 
2.43.0


From 08f6f1f4600ec824fdac3a87878ccb4e39b73ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 52/68] fix: converting to a matrix checks that each row is a
 table of the right size

---
 ristra/embedded/embed_lua.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 8deed1e..7677170 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -275,6 +275,8 @@ struct lua_value< Matrix<T,M,N> >
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
       lua_rawgeti(s, index, i);  // push t[i]
+      if ( !lua_istable(s, -1) || lua_rawlen(s, -1) != N )
+        THROW_RUNTIME_ERROR( "Expecting row " << i << " of size " << N );
       for (int j=1; j<=N; ++j) {
         lua_rawgeti(s, -1, j); // push t[j]
         res(i-1,j-1) = lua_value<T>::get(s);
-- 
2.43.0


From abf9522670cad3fa573f5733445ad6d0b58f148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 53/68] fix: lua strings are copied before they are popped,
 with their nul characters

---
 ristra/embedded/embed_lua.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 7677170..f59babe 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -154,7 +154,9 @@ struct lua_value<std::string>
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to string."
     );
-    auto str = lua_tostring(s, index);
+    std::size_t len = 0;
+    auto chars = lua_tolstring(s, index, &len);
+    std::string str(chars, len);
     lua_remove(s, index);
     return str;
   }
-- 
2.43.0


From 678c3b58610ab46e2f59aa9de82358c4319c99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 54/68] fix: converting a lua number with a fraction to an
 integer throws

---
 ristra/embedded/embed_lua.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index f59babe..482a6b5 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -90,7 +90,10 @@ struct lua_value< T, std::enable_if_t< std::is_integral<T>::value > >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to int."
     );
-    auto i = lua_tointeger(s, index);
+    int is_integer = 0;
+    auto i = lua_tointegerx(s, index, &is_integer);
+    if ( !is_integer )
+      THROW_RUNTIME_ERROR( "Invalid conversion of a non-integral number to int." );
     lua_remove(s,index);
     return i;
   }
-- 
2.43.0


From b67b3ec80d3d79f517428b788fe42b9ab1e9ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 55/68] fix: a lua function without results throws, whatever
 else is on the stack

---
 ristra/embedded/embed_lua.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 482a6b5..580b309 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -837,12 +837,14 @@ public:
       print_last_row();
       THROW_RUNTIME_ERROR("Problem calling \"" << name_ << "\".");
     }
-    // make sure the result is non nill
-    check_result(name_);
     // figure out how much the stack grew
     pos1 = lua_gettop(s);
     auto num_results = pos1 - pos0;
     assert( num_results >= 0 );
+    // make sure the result is non nill
+    if ( num_results == 0 )
+      THROW_RUNTIME_ERROR("\"" << name_ << "\" returned nothing.");
+    check_result(name_);
     // because there could be multiple results, get a reference to each one
     std::vector<lua_ref_t> ref_list;
     ref_list.reserve( num_results );
-- 
2.43.0


From 066b9e64cc7971a98904a0ee7447369821f1735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 56/68] fix: Lua_Func_Wrapper calls its own copy of the
 function

---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 580b309..4274b03 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -956,7 +956,7 @@ struct Lua_Func_Wrapper<std::function<Ret(Args...)>> {
 
   /**\brief Construct from reference to lua_result_t */
   explicit Lua_Func_Wrapper(lua_result_t & lf)
-    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(lf)
+    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(*plua_func_)
   {
   }
 
-- 
2.43.0


From 8cfe41940ddea79c542d91b9d5b471e159057774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 57/68] fix: lua lookups, calls and conversions that throw
 leave the lua stack as it was

---
 ristra/embedded/embed_lua.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 4274b03..26a2412 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -495,6 +495,23 @@ public:
   }
 };
 
+////////////////////////////////////////////////////////////////////////////////
+/// \brief Restores the height of the lua stack on leaving a scope.
+////////////////////////////////////////////////////////////////////////////////
+class lua_stack_guard_t {
+
+  lua_State * state_;
+  int top_;
+
+public:
+
+  explicit lua_stack_guard_t(lua_State * s) : state_(s), top_(lua_gettop(s)) {}
+  lua_stack_guard_t(const lua_stack_guard_t &) = delete;
+  lua_stack_guard_t & operator=(const lua_stack_guard_t &) = delete;
+  ~lua_stack_guard_t() { lua_settop(state_, top_); }
+
+};
+
 ////////////////////////////////////////////////////////////////////////////////
 /// \brief A class to keep track of a lua reference.
 ////////////////////////////////////////////////////////////////////////////////
@@ -759,6 +776,7 @@ public:
   explicit operator T() const {
     if ( refs_.size() != 1 )
       THROW_RUNTIME_ERROR( "Expecting 1 result, stack has " << refs_.size() );
+    lua_stack_guard_t guard(state());
     push_last();
     return lua_value<T>::get(state());
   }
@@ -774,6 +792,7 @@ public:
       THROW_RUNTIME_ERROR( 
         "Expecting "<<N<<" results, stack has " << refs_.size() 
       );
+    lua_stack_guard_t guard(state());
     push_all();
     Tup tup;
     get_results<Tup,0,Args...>(tup);
@@ -814,6 +833,7 @@ public:
     // get the current stack position ( the function and arguments will get
     // deleted from the stack after the function call )
     auto pos0 = lua_gettop(s);
+    lua_stack_guard_t guard(s);
     // push the function onto the stack
     check_stack(1);
     push_last();
@@ -862,6 +882,7 @@ public:
   {
     auto s = state();
     auto new_name = name_+".[\""+key+"\"]";
+    lua_stack_guard_t guard(s);
     // push the table onto the stack
     push_last();
     // make sure we are accessing a table
@@ -888,6 +909,7 @@ public:
   {
     auto s = state();
     auto new_name = name_+"["+std::to_string(n)+"]";
+    lua_stack_guard_t guard(s);
     // push the table onto the stack
     push_last();
     // make sure we are accessing a table
-- 
2.43.0


From ff391c380a08cee1719d620a61121fb36ec72022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:51 +0000
Subject: [PATCH 58/68] fix: the hard coded source keeps the values it gives
 out

---
 ristra/initialization/input_source.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index e4be871..bd12bb3 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -13,6 +13,7 @@
 #include <memory>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
 #include "ristra/initialization/inputs_impl.h"
 #include "ristra/embedded/embed_lua.h"
 
@@ -105,7 +106,11 @@ class hard_coded_source_t : public input_source<hard_coded_source_t>
     auto it = reg.find(k);
     bool found(false);
     if (reg.end() != it) {
-      t = std::move(it->second);
+      // keep the value: a target may be resolved more than once
+      if constexpr (std::is_copy_assignable<T>::value)
+        t = it->second;
+      else
+        t = std::move(it->second);
       found = true;
     }
     return found;
-- 
2.43.0


From 29fee4623e089c1f7878e3c60cd820fafa6f1e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:51 +0000
Subject: [PATCH 59/68] fix: register_table uses its lua key, and replaces a
 table of that name

---
 ristra/initialization/input_source.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index bd12bb3..d427c61 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -349,11 +349,12 @@ class lua_source_t : public input_source<lua_source_t>
   void load_table(str_cr_t load_name)
   {
     str_cr_t from_name = m_table_map[load_name];
+    str_cr_t l_key(1 == m_lua_key.count(load_name) ? m_lua_key[load_name] : load_name);
     if ("base_state" == from_name) {
-      m_tables.emplace(load_name, lua_try_access(m_lua_state, load_name));
+      m_tables.insert_or_assign(load_name, lua_try_access(m_lua_state, l_key));
     } else {
       embedded::lua_result_t & from_state = m_tables.at(from_name);
-      m_tables.emplace(load_name, lua_try_access(from_state, load_name));
+      m_tables.insert_or_assign(load_name, lua_try_access(from_state, l_key));
     }
     // printf("%s:%i Loaded table
     // '%s'\n",__FUNCTION__,__LINE__,load_name.c_str());
-- 
2.43.0


From ddfd31de2609cfa1ad1d1234b791bb0d379f5ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:51 +0000
Subject: [PATCH 60/68] fix: resolving again replaces hard coded functions, as
 it does other values

---
 ristra/initialization/input_engine.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 938e6d0..bfae8f8 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -504,12 +504,7 @@ class input_engine_t
           func_t f;
           found_target = hard_coded_source->get_value(target, f);
           if (found_target) {
-            // auto ins_pr =
-            hc_registry.insert(std::make_pair(target, f));
-            // bool inserted = ins_pr.second;
-            // Could have some error checking on whether the thing was
-            // inserted: if it weren't, that might mean this key is already
-            // inhabited, and that would be unexpected.
+            hc_registry[target] = f;
             continue;
           }
         }
@@ -594,7 +589,7 @@ class input_engine_t
         func_t f;
         found_target = hard_coded_source->get_value(target, f);
         if (found_target) {
-          hc_registry.insert(std::make_pair(target, f));
+          hc_registry[target] = f;
         }
       }
       return found_target;
-- 
2.43.0


From 2b00d0bc954acbd8c39fb0793ce603a4470ca730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:51 +0000
Subject: [PATCH 61/68] fix: the failed targets are those of the last resolve

---
 ristra/initialization/input_engine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index bfae8f8..9e7f071 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -429,6 +429,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<T>());
       registry<T> & the_registry(inp.get_registry<T>());
       failed_set_t & failures(inp.get_failed_target_set<T>());
+      failures.clear();
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
@@ -484,6 +485,7 @@ class input_engine_t
       target_set_t & targets(inp.get_target_set<func_t>());
       registry<func_t> & hc_registry(inp.get_registry<func_t>());
       failed_set_t & failures(inp.get_failed_target_set<func_t>());
+      failures.clear();
       bool missed_any(false);
       for (auto target : targets) {
         bool found_target(false);
-- 
2.43.0


From 5e9f0a732572bee80c6bf0bbf9bfd561e54448da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:51 +0000
Subject: [PATCH 62/68] fix: get_instant_value throws the documented exception
 when it cannot resolve

---
 ristra/initialization/input_engine.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 9e7f071..388c881 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -7,6 +7,7 @@
 #include<ristra/ristra-config.h>
 
 #include "ristra/assertions/dbc.h"
+#include "ristra/assertions/errors.h"
 #include "ristra/embedded/embed_lua.h"
 #include "ristra/initialization/inputs_impl.h"
 #include "ristra/initialization/input_source.h"
@@ -313,7 +314,7 @@ class input_engine_t
     if(!resolved){
       string_t err = "get_instant_value: Could not resolve key '" +
         target_name + "' using type '" + typeid(T).name() + "'";
-      Insist(false,err);
+      THROW_RUNTIME_ERROR(err);
     }
     return get_value<T>(target_name);
   } // get_instant_value
-- 
2.43.0


From 4ebe486f67666723cc079558b84771acade4c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:51 +0000
Subject: [PATCH 63/68] fix: init_value_t::valid compiles for functions

---
 ristra/initialization/init_value.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index c6b95fd..3bb1a2c 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -111,7 +111,7 @@ class init_value_t
       return false;
     }
     input_engine ie;
-    T & t(ie.template get_value<T>(full_name()));
+    get_return_t t(ie.template get_value<T>(full_name()));
     bool valid = m_valid(t);
     m_status = valid ? status_t::valid : status_t::invalid;
     return valid;
-- 
2.43.0


From bed86524bdb1b99be57ee42e731350eaa4a78614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:36 +0000
Subject: [PATCH 64/68] fix: python_as_long takes floats again, and failed
 conversions throw

---
 ristra/embedded/embed_python.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 258cc43..1ad5ae7 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -165,12 +165,30 @@ auto python_get_attribute( PyObject * py_module, std::string attribute )
 
 inline auto python_as_long( PyObject * py_value )
 {
-  return PyLong_AsLong( py_value );
+  // PyLong_AsLong only takes integers, truncate a float first
+  auto py_long = PyFloat_Check(py_value) ?
+    PyLong_FromDouble( PyFloat_AsDouble(py_value) ) : PyNumber_Index(py_value);
+  if (!py_long) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to an integer.");
+  }
+  auto value = PyLong_AsLong( py_long );
+  Py_DECREF(py_long);
+  if (value == -1 && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to a long.");
+  }
+  return value;
 }
 
 inline auto python_as_double( PyObject * py_value )
 {
-  return PyFloat_AsDouble( py_value );
+  auto value = PyFloat_AsDouble( py_value );
+  if (value == -1. && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to a double.");
+  }
+  return value;
 }
 
 auto python_get_value( long arg )
-- 
2.43.0


From 692105ec64c1e74f2778256e15542917e38dd6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:36 +0000
Subject: [PATCH 65/68] fix: python_add_to_path hands out a reference the
 caller may free

---
 ristra/embedded/embed_python.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 1ad5ae7..27f880a 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -150,6 +150,8 @@ auto python_add_to_path( std::string path )
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
   Py_DECREF(pname);
+  // the caller frees what it is given, so hand out a reference of its own
+  Py_INCREF(syspath);
   return syspath; 
 } 
 
-- 
2.43.0


From 6fc9a5055b655b2aaff6a7ff34a1858a67f9ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:36 +0000
Subject: [PATCH 66/68] fix: failing python calls release the references they
 hold

---
 ristra/embedded/embed_python.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 27f880a..6b94b1c 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -117,11 +117,11 @@ auto python_import( std::string name )
     THROW_RUNTIME_ERROR("Cannot decode module name \"" << name << "\"");
   }
   auto pmodule = PyImport_Import(pname);
+  Py_DECREF(pname);
   if (!pmodule) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot import module \"" << name << "\"");
   }
-  Py_DECREF(pname);
   return pmodule;
 }
 
@@ -141,7 +141,9 @@ auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot decode path \"" << path << "\"");
   }
-  if (PyList_Insert(syspath, 0, pname)) {
+  auto failed = PyList_Insert(syspath, 0, pname);
+  Py_DECREF(pname);
+  if (failed) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot insert path \"" << path << "\"");
   }
@@ -149,7 +151,6 @@ auto python_add_to_path( std::string path )
     python_check();
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
-  Py_DECREF(pname);
   // the caller frees what it is given, so hand out a reference of its own
   Py_INCREF(syspath);
   return syspath; 
@@ -281,7 +282,13 @@ auto python_build_args( Args&&... args )
     python_check();
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
-  detail::python_build_args(pargs, 0, std::forward<Args>(args)...);
+  try {
+    detail::python_build_args(pargs, 0, std::forward<Args>(args)...);
+  }
+  catch (...) {
+    Py_DECREF(pargs);
+    throw;
+  }
   return pargs;
 }
 
@@ -298,11 +305,11 @@ auto python_call_function( PyObject * py_func, Args&&... args )
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
   auto pval = PyObject_CallObject(py_func, pargs);
+  Py_DECREF(pargs);
   if (!pval) {
     python_check();
     THROW_RUNTIME_ERROR("Problem calling function.");
   }
-  Py_DECREF(pargs);
   return pval;
 }
 
-- 
2.43.0


From f373fcb9468ae41be71a545486eb1ea752d47cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:36 +0000
Subject: [PATCH 67/68] fix: python functions can be called without arguments

---
 ristra/embedded/embed_python.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 6b94b1c..efdbd7d 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -255,6 +255,9 @@ void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 
 namespace detail {
 
+// no arguments
+inline void python_build_args( PyObject *, std::size_t ) {}
+
 template< typename Arg >
 void python_build_args( PyObject * py_args, std::size_t i, Arg&& arg )
 {
-- 
2.43.0


From cb7ef16b03c2a6a07b85f23e8c3ce28767b91d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:24 +0000
Subject: [PATCH 68/68] fix: pushing an array to Lua asks for a stack slot per
 element

lua_checkstack(s, n) makes sure that n slots are free, whatever was asked
for before: after the caller's check for one slot, a check for N-1 leaves
N-1 slots and the last of the N pushes goes beyond them.
---
 ristra/embedded/embed_lua.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 26a2412..e79a7df 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -381,11 +381,11 @@ template <
 >
 inline std::size_t lua_push(lua_State * s, const Array<double, N> & arr)
 {
-  // Caller always checks for 1, we must check for the rest
-  auto ret = lua_checkstack(s, N - 1);
+  // Caller always checks for 1, but checks do not add up, so check for all
+  auto ret = lua_checkstack(s, N);
   if (!ret) {
     std::ostringstream ss;
-    ss << "Cannot grow stack " << (N - 1) << " slots operating on element \""
+    ss << "Cannot grow stack " << N << " slots operating on element \""
        << "\"." << std::endl
        << "Current stack size is " << lua_gettop(s) << ".";
     THROW_RUNTIME_ERROR(ss.str());
-- 
2.43.0

