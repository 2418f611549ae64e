From 7531d119ac50f5c705ef51991447de649170912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 01/40] fix: Matrix::negate() negates the matrix instead of a
 default-constructed one

---
 vmmlib/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 99c3069..429b14d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1217,8 +1217,8 @@ template< size_t M, size_t N, typename T >
 Matrix< M, N, T >
 Matrix< M, N, T >::negate() const
 {
-    Matrix< M, N, T > result;
-    result *= -1.0;
+    Matrix< M, N, T > result( *this );
+    result *= static_cast< T >( -1 );
     return result;
 }
 
-- 
2.43.0


From 2ffe77e17feaed0f6e4b77f7c90e1e3a2420cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 02/40] fix: Matrix::get_max() of a matrix without positive
 elements

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 429b14d..419fafd 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2353,7 +2353,7 @@ template< size_t M, size_t N, typename T  >
 T
 Matrix< M, N, T >::get_max() const
 {
-    T max_value = static_cast<T>(0);
+    T max_value = std::numeric_limits<T>::lowest();
 
     const_iterator  it = begin(),
     it_end = end();
-- 
2.43.0


From e36436ca84ce8728051da550eb3e0949e1342fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 03/40] fix: Matrix::operator[] accepted the row index one past
 the end

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 419fafd..0dd9bb7 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -439,7 +439,7 @@ public:
     inline row_accessor operator[]( size_t row_index )
     {
         #ifdef VMMLIB_SAFE_ACCESSORS
-        if ( row_index > M )
+        if ( row_index >= M )
             VMMLIB_ERROR( "row index out of bounds", VMMLIB_HERE );
         #endif
         return row_accessor( array + row_index );
-- 
2.43.0


From b01e47c8e6117aeffcb6a805c7af457909118372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 04/40] fix: column-major Matrix::set() read past the end of a
 short input range

---
 vmmlib/matrix.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 0dd9bb7..4b985a1 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1504,7 +1504,11 @@ void Matrix< M, N, T >::set( input_iterator_t begin_,
     }
     else
     {
-        std::copy( it, it + ( M * N ), begin() );
+        for( iterator my_it = begin(); my_it != end() && it != end_;
+             ++my_it, ++it )
+        {
+            *my_it = static_cast< T >( *it );
+        }
     }
 }
 
-- 
2.43.0


From 933933805aad97baae10fdbdf10459315c35d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 05/40] fix: Matrix::p_norm() ignored that the norm is defined
 on absolute values

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 4b985a1..d808789 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2272,7 +2272,7 @@ Matrix< M, N, T >::p_norm( double p ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += std::pow(*it, p);
+        norm += std::pow( std::fabs( static_cast< double >( *it )), p );
     }
 
     return std::pow(norm,1./p);
-- 
2.43.0


From 618dc1bcf4847110da7a915641a3ca9f32ac7abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 06/40] fix: reverse iterators of Matrix and Vector did not
 compile

---
 vmmlib/matrix.hpp | 9 +++++----
 vmmlib/vector.hpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index d808789..c9d5fa7 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -46,6 +46,7 @@
 #include <cstddef>
 #include <limits>
 #include <algorithm>
+#include <iterator>
 #include <string>
 #include <cstring>
 #include <fstream>   // file I/O
@@ -2186,7 +2187,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rbegin()
 {
-    return array + size() - 1;
+    return reverse_iterator( end( ));
 }
 
 
@@ -2196,7 +2197,7 @@ typename Matrix< M, N, T >::reverse_iterator
 Matrix< M, N, T >::
 rend()
 {
-    return array - 1;
+    return reverse_iterator( begin( ));
 }
 
 
@@ -2206,7 +2207,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rbegin() const
 {
-    return array + size() - 1;
+    return const_reverse_iterator( end( ));
 }
 
 
@@ -2216,7 +2217,7 @@ typename Matrix< M, N, T >::const_reverse_iterator
 Matrix< M, N, T >::
 rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin( ));
 }
 
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 4adc2de..0b70c8a 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -45,6 +45,7 @@
 #include <cstring>
 #include <limits>
 #include <algorithm>
+#include <iterator>
 
 namespace vmml
 {
@@ -1574,7 +1575,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rbegin()
 {
-    return array + M - 1;
+    return reverse_iterator( end( ));
 }
 
 
@@ -1582,7 +1583,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::reverse_iterator
 Vector< M, T >::rend()
 {
-    return array - 1;
+    return reverse_iterator( begin( ));
 }
 
 
@@ -1590,7 +1591,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rbegin() const
 {
-    return array + M - 1;
+    return const_reverse_iterator( end( ));
 }
 
 
@@ -1598,7 +1599,7 @@ template< size_t M, typename T >
 inline typename Vector< M, T >::const_reverse_iterator
 Vector< M, T >::rend() const
 {
-    return array - 1;
+    return const_reverse_iterator( begin( ));
 }
 
 
-- 
2.43.0


From fd324b81a453144ea76ea4feae7bc2966312cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 07/40] fix: Matrix::convolve() indexed non-square matrices and
 kernels transposed

---
 vmmlib/matrix.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index c9d5fa7..bc08bbe 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -530,27 +530,27 @@ void Matrix< M, N, T>::convolve(const Matrix< U, V, T >& kernel)
 {
     Matrix< M, N, T> temp;  // do not override original values instantly as old values are needed for calculation
 
-    for(size_t y_ = 0; y_ < N; ++y_)
+    for(size_t y_ = 0; y_ < M; ++y_)
     {
-        for(size_t x_ = 0; x_ < M; ++x_)
+        for(size_t x_ = 0; x_ < N; ++x_)
         {
             double sum = 0.0;
 
-            for(size_t j = 0; j < V; ++j)
+            for(size_t j = 0; j < U; ++j)
             {
-                int srcy = y_ - V/2 + j;
+                int srcy = y_ - U/2 + j;
 
                 // Extending border values
                 if(srcy < 0)       srcy = 0;
-                if(srcy >= int(N)) srcy = N-1;
+                if(srcy >= int(M)) srcy = M-1;
 
-                for(size_t i = 0; i < U; ++i)
+                for(size_t i = 0; i < V; ++i)
                 {
-                    int srcx = x_ - U/2 + i;
+                    int srcx = x_ - V/2 + i;
 
                     // Extending border values
                     if(srcx < 0)       srcx = 0;
-                    if(srcx >= int(M)) srcx = M-1;
+                    if(srcx >= int(N)) srcx = N-1;
 
                     sum += kernel.at(j,i) * at(srcy,srcx);
                 }
-- 
2.43.0


From e0e8e54b6550a4d5c965cc0e009a407e27cfa624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 08/40] fix: Matrix::tensor() computed v (X) u, reading out of
 bounds if non-square

---
 vmmlib/matrix.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index bc08bbe..b886665 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1231,8 +1231,8 @@ Matrix< M, N, T >::tensor( const Vector< M, T >& u, const Vector< N, T >& v )
 {
     for ( size_t col_index = 0; col_index < N; ++col_index )
         for ( size_t row_index = 0; row_index < M; ++row_index )
-            at( row_index, col_index ) = u.array[ col_index ] *
-                                         v.array[ row_index ];
+            at( row_index, col_index ) = u.array[ row_index ] *
+                                         v.array[ col_index ];
 }
 
 
@@ -1245,14 +1245,14 @@ Matrix< M, N, T >::tensor( const Vector< uM, T >& u, const Vector< vM, T >& v )
     for ( size_t col_index = 0; col_index < 3; ++col_index )
     {
         for ( size_t row_index = 0; row_index < 3; ++row_index )
-            at( row_index, col_index ) = u.array[ col_index ] *
-                                         v.array[ row_index ];
+            at( row_index, col_index ) = u.array[ row_index ] *
+                                         v.array[ col_index ];
 
-        at( 3, col_index ) = u.array[ col_index ];
+        at( 3, col_index ) = v.array[ col_index ];
     }
 
     for ( size_t row_index = 0; row_index < 3; ++row_index )
-        at( row_index, 3 ) = v.array[ row_index ];
+        at( row_index, 3 ) = u.array[ row_index ];
 
     at( 3, 3 ) = 1.0;
 
-- 
2.43.0


From add919cfde761aae996d1009fa6e3ae8533cc816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 09/40] fix: 2x2 inverse of a singular matrix with a zero
 tolerance

---
 vmmlib/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index b886665..7159e84 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -668,7 +668,7 @@ bool compute_inverse( const Matrix< 2, 2, T >& m_, Matrix< 2, 2, T >& inverse_,
                       T tolerance_ = std::numeric_limits<T>::epsilon())
 {
     const T det_ = compute_determinant( m_ );
-    if( fabs( det_ ) < tolerance_ )
+    if( fabs( det_ ) <= tolerance_ )
         return false;
 
     const T detinv = static_cast< T >( 1.0 ) / det_;
-- 
2.43.0


From 9fef6a7ca0ae87fd19d88fe6710541e344085711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 10/40] fix: default limit and small sizes of
 is_positive_definite()

---
 vmmlib/matrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 7159e84..18006c8 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -795,7 +795,7 @@ transpose( const Matrix< M, N, T >& Matrix_ )
 
 template< size_t M, size_t N, typename T >
 bool is_positive_definite( const Matrix< M, N, T >& matrix_,
-    const T limit = -1e12,
+    const T limit = -1e-12,
     typename enable_if< M == N && M <= 3 >::type* = 0 )
 {
     if ( matrix_.at( 0, 0 ) < limit )
@@ -804,7 +804,7 @@ bool is_positive_definite( const Matrix< M, N, T >& matrix_,
     // sylvester criterion
     if ( M > 1 )
     {
-        Matrix< 2, 2, T > m;
+        Matrix< ( M < 2 ? M : 2 ), ( M < 2 ? M : 2 ), T > m;
         matrix_.get_sub_matrix( m, 0, 0 );
         if ( compute_determinant( m ) < limit )
             return false;
@@ -812,7 +812,7 @@ bool is_positive_definite( const Matrix< M, N, T >& matrix_,
 
     if ( M > 2 )
     {
-        Matrix< 3, 3, T > m;
+        Matrix< ( M < 3 ? M : 3 ), ( M < 3 ? M : 3 ), T > m;
         matrix_.get_sub_matrix( m, 0, 0 );
         if ( compute_determinant( m ) < limit )
             return false;
-- 
2.43.0


From 80a5571b8cedad8b383be52eef3bd31085c7fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 11/40] fix: Matrix::quantize() to signed types of a range not
 centred at zero

---
 vmmlib/matrix.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 18006c8..cbb445b 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2469,6 +2469,7 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
     long tt_range = (max_tt_range - min_tt_range);
 
     T t_range = max_value - min_value;
+    const T t_center = min_value + t_range / 2;
 
     typedef Matrix< M, N, TT > m_tt_type ;
     typedef typename m_tt_type::iterator tt_iterator;
@@ -2478,7 +2479,7 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
     for( ; it != it_end; ++it, ++it_quant )
     {
         if (std::numeric_limits<TT>::is_signed ) {
-            *it_quant = TT( std::min( std::max( min_tt_range, long(( *it * tt_range / t_range ) + 0.5)), max_tt_range ));
+            *it_quant = TT( std::min( std::max( min_tt_range, long((( *it - t_center ) * tt_range / t_range ) + 0.5)), max_tt_range ));
         } else {
             *it_quant = TT( std::min( std::max( min_tt_range, long(((*it - min_value) * tt_range / t_range) + 0.5)), max_tt_range ));
         }
@@ -2508,6 +2509,7 @@ Matrix< M, N, T >::dequantize( Matrix< M, N, TT >& dequantized_, const TT& min_v
     long t_range = (max_t_range - min_t_range);
 
     TT tt_range = max_value - min_value;
+    const TT tt_center = min_value + tt_range / 2;
 
     typedef Matrix< M, N, TT > m_tt_type ;
     typedef typename m_tt_type::iterator tt_iterator;
@@ -2516,7 +2518,7 @@ Matrix< M, N, T >::dequantize( Matrix< M, N, TT >& dequantized_, const TT& min_v
     for( ; it != it_end; ++it, ++it_dequant )
     {
         if (std::numeric_limits<T>::is_signed ) {
-            *it_dequant = std::min( std::max( min_value, TT((TT(*it) / t_range) * tt_range)), max_value );
+            *it_dequant = std::min( std::max( min_value, TT((TT(*it) / t_range) * tt_range + tt_center)), max_value );
         } else {
             *it_dequant = std::min( std::max( min_value, TT((((TT(*it) / t_range)) * tt_range ) + min_value)), max_value );
         }
-- 
2.43.0


From d39ed6a32b75d331579822feeb97ef4c0e4b54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 12/40] fix: Matrix::read_from_raw() reads what write_to_raw()
 wrote

---
 vmmlib/matrix.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index cbb445b..99675e9 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2652,6 +2652,12 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
         path.append( "/" );
     }
     path.append( filename_ );
+    //check for format
+    if( filename_.find( "raw", filename_.size() -3) == std::string::npos )
+    {
+        path.append( ".");
+        path.append( "raw" );
+    }
 
     size_t max_file_len = 2147483648u - sizeof(T) ;
     size_t len_data = sizeof(T) * size();
-- 
2.43.0


From 9a5b8693553045cd791e0181e78cf41dd916aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 13/40] fix: Vector::find_abs_max_index() found the smallest
 component

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 0b70c8a..d57fad2 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1498,7 +1498,7 @@ template< size_t M, typename T >
 size_t
 Vector< M, T >::find_abs_max_index() const
 {
-    return std::max_element( begin(), end(), vmml::math::abs_greater< T >() ) - begin();
+    return std::max_element( begin(), end(), vmml::math::abs_less< T >() ) - begin();
 }
 
 
-- 
2.43.0


From 6be6d50ab6db756df543456b566a6d65f89c7166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 14/40] fix: Vector::scale_to() of a range not centred at zero

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index d57fad2..8766a8c 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1445,13 +1445,12 @@ Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
     T range       = max_value-min_value;
-    T half_range  = range * 0.5;
     T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
 
     for( size_t index = 0; index < M; ++index )
     {
         result_.at( index )
-            = static_cast< TT >( ( at( index ) + half_range ) * scale );
+            = static_cast< TT >( ( at( index ) - min_value ) * scale );
     }
 
 }
-- 
2.43.0


From b515fa7924cef86dae5893f0639448eda8e32c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 15/40] fix: compute_plane() returns a plane with a unit normal

---
 vmmlib/vector.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 8766a8c..6942b33 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -485,8 +485,7 @@ inline Vector< 4, T > compute_plane( const Vector< 3, T >& a,
     const Vector< 3, T > cb = b - c;
     const Vector< 3, T > ba = a - b;
 
-    Vector< 4, T > plane = cb.cross( ba );
-    plane.normalize();
+    Vector< 4, T > plane = normalize( cb.cross( ba ));
     plane.w() = -plane.x() * a.x() - plane.y() * a.y() - plane.z() * a.z();
     return plane;
 }
-- 
2.43.0


From 946cc5e16f9748cc5e4c40b0e2bdb806986f92a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 16/40] fix: Vector::operator==() compares values, as
 operator<() and Matrix do

---
 vmmlib/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 6942b33..abd3726 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1308,7 +1308,7 @@ Vector< M, T >::project_point_onto_plane( const Vector< 3, TT >& point,
 template< size_t M, typename T >
 bool Vector< M, T >::operator==( const Vector< M, T >& other ) const
 {
-    return memcmp( array, other.array, sizeof( array )) == 0;
+    return std::equal( begin(), end(), other.begin( ));
 }
 
 
-- 
2.43.0


From 5b58d724bc7802828d9983be782f69d73cbbd9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 17/40] fix: component order of quaternion/vector operations

---
 vmmlib/quaternion.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 9f04892..890d1a0 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -719,7 +719,7 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-( const Vector< 3, T >& a ) const
 {
-    return Quaternion( w(), x() - a.x(), y() - a.y(), z() - a.z() );
+    return Quaternion( x() - a.x(), y() - a.y(), z() - a.z(), w() );
 }
 
 
@@ -728,10 +728,10 @@ template < typename T >
 Quaternion< T >
 Quaternion< T >::operator*( const Vector< 3, T >& a ) const
 {
-    return Quaternion( -x() * a.x() - y() * a.y() - z() * a.z(),
-                        w() * a.x() + y() * a.z() - z() * a.y(),
+    return Quaternion(  w() * a.x() + y() * a.z() - z() * a.y(),
                         w() * a.y() + z() * a.x() - x() * a.z(),
-                        w() * a.z() + x() * a.y() - y() * a.x()  );
+                        w() * a.z() + x() * a.y() - y() * a.x(),
+                       -x() * a.x() - y() * a.y() - z() * a.z() );
 }
 
 
@@ -741,7 +741,7 @@ void Quaternion< T >::operator+=( const Vector< 3, T >& xyz )
 {
     x() += xyz.x();
     y() += xyz.y();
-    y() += xyz.z();
+    z() += xyz.z();
 }
 
 
-- 
2.43.0


From d602b9818bb24d118187d6712f0365bf40a72b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 18/40] fix: sign of w of a quaternion from a rotation matrix
 close to 180 degrees

---
 vmmlib/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 890d1a0..619bdf7 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -308,7 +308,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
             z() = M( 0,2 ) + M( 2,0 );
             z() *= s;
 
-            w() = M( 1,2 ) - M( 2,1 );
+            w() = M( 2,1 ) - M( 1,2 );
             w() *= s;
         }
         else if ( largest == 1 )
@@ -337,7 +337,7 @@ void Quaternion< T >::set( const Matrix< D, D, T >& M )
 
             z() = 0.25 / s;
 
-            w() = M( 0,1 ) - M( 1,0 );
+            w() = M( 1,0 ) - M( 0,1 );
             w() *= s;
         }
         else
-- 
2.43.0


From 9a5e2f6ddb28c5e2c9cc100d8dd2a2da73cdb5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 19/40] fix: AABB::isEmpty() compared z with x

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index bfab1f5..a1f4787 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -371,7 +371,7 @@ void AABB< T >::setEmpty()
 template< typename T > inline bool AABB< T >::isEmpty() const
 {
     return ( _min.x() >=  _max.x() || _min.y() >=  _max.y() ||
-             _min.z() >=  _max.x( ));
+             _min.z() >=  _max.z( ));
 }
 
 template< typename T >
-- 
2.43.0


From 9056fea20861ddd6b003bf660772686165dae86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 20/40] fix: AABB sphere functions did not compile

---
 vmmlib/aabb.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index a1f4787..cae3c7e 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -137,9 +137,9 @@ AABB< T >::AABB( const Vector< 3, T >& pMin,
 template< typename T >
 AABB< T >::AABB( const Vector< 4, T >& sphere )
 {
-    _max = _min = sphere.getCenter();
-    _max += sphere.getRadius();
-    _min -= sphere.getRadius();
+    _max = _min = sphere.template get_sub_vector< 3 >();
+    _max += sphere.w();
+    _min -= sphere.w();
 }
 
 template< typename T >
@@ -153,11 +153,11 @@ AABB< T >::AABB( T cx, T cy, T cz, T size )
 template< typename T >
 inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
 {
-    Vector< 3, T > sv ( sphere.getCenter() );
-    sv += sphere.getRadius();
+    Vector< 3, T > sv ( sphere.template get_sub_vector< 3 >( ));
+    sv += sphere.w();
     if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
         return false;
-    sv -= sphere.getRadius() * 2.0f;
+    sv -= sphere.w() * 2.0f;
     if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
         return false;
     return true;
-- 
2.43.0


From b522c563c86ae0e6f30f24dcedb634c32ac60615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 21/40] fix: Frustum::set_perspective() ignored the near plane
 distance

---
 vmmlib/frustum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 76088dc..7d0b82c 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -251,7 +251,7 @@ Frustum<T>::set_perspective( T fov_y, T aspect_ratio, T near_plane_,
     near_plane() = near_plane_;
     far_plane()   = far_plane_;
 
-    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * 0.5;
+    top()       = tan( 0.5 * fov_y * M_PI / 180.0 ) * near_plane_;
     bottom()    = - top();
 
     left()      = bottom() * aspect_ratio;
-- 
2.43.0


From 8b91cbe19db533682675146204c33a86c53c32ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 22/40] fix: stream output operators restore the format flags

---
 vmmlib/frustum.hpp | 2 +-
 vmmlib/matrix.hpp  | 2 +-
 vmmlib/vector.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/vmmlib/frustum.hpp b/vmmlib/frustum.hpp
index 7d0b82c..75a5644 100644
--- a/vmmlib/frustum.hpp
+++ b/vmmlib/frustum.hpp
@@ -116,7 +116,7 @@ public:
            << std::setw(10) << f.near_plane()   << " "
            << std::setw(10) << f.far_plane()    << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 99675e9..5cef5cf 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -471,7 +471,7 @@ public:
             os << "|" << std::endl;
         }
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     };
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index abd3726..c230836 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -349,7 +349,7 @@ public:
             os << std::setw(10) << vector_.at( index ) << " ";
         os << "]";
         os.precision( prec );
-        os.setf( flags );
+        os.flags( flags );
         return os;
     }
 
-- 
2.43.0


From 7374d79bb5fa0ca22c5ab01452e2319a3fb8907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 23/40] fix: Matrix::operator*=() of a matrix with itself read
 overwritten elements

---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 5cef5cf..3f19f0e 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -1083,8 +1083,9 @@ template< size_t O, size_t P, typename TT >
 typename enable_if< M == N && O == P && M == O, TT >::type*
 Matrix< M, N, T >::operator*=( const Matrix< O, P, TT >& right )
 {
-    Matrix< M, N, T > copy( *this );
-    multiply( copy, right );
+    Matrix< M, N, T > result;
+    result.multiply( *this, right );
+    *this = result;
     return 0;
 }
 
-- 
2.43.0


From 61967ef158a31d8797ab1fe91efea82c3222229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 24/40] fix: Vector::cross( a, b ) of the vector itself read
 overwritten components

---
 vmmlib/vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index c230836..f6e01a5 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1109,9 +1109,13 @@ void Vector< M, T >::cross( const Vector< M, TT >& aa,
                             const Vector< M, TT >& bb,
                             typename enable_if< M == 3, TT >::type* )
 {
-    array[ 0 ] = aa.y() * bb.z() - aa.z() * bb.y();
-    array[ 1 ] = aa.z() * bb.x() - aa.x() * bb.z();
-    array[ 2 ] = aa.x() * bb.y() - aa.y() * bb.x();
+    // aa or bb may be this vector
+    const T x_ = aa.y() * bb.z() - aa.z() * bb.y();
+    const T y_ = aa.z() * bb.x() - aa.x() * bb.z();
+    const T z_ = aa.x() * bb.y() - aa.y() * bb.x();
+    array[ 0 ] = x_;
+    array[ 1 ] = y_;
+    array[ 2 ] = z_;
 }
 
 
-- 
2.43.0


From 484e95ce20d937fcb726e8465adec33465560551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 25/40] fix: Quaternion::set( begin, end ) did not compile

---
 vmmlib/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 619bdf7..509997d 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -392,7 +392,7 @@ template < typename T >
 template< typename input_iterator_t >
 void Quaternion< T >::set( input_iterator_t begin_, input_iterator_t end_ )
 {
-    super::template set< input_iterator_t >( begin_, end_ );
+    super::iter_set( begin_, end_ );
 }
 
 
-- 
2.43.0


From d6166c0e006ade604e5cdf78259f6adf008ef186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 26/40] fix: Quaternion rotation functions did not compile

---
 vmmlib/quaternion.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 509997d..aec9290 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -843,8 +843,9 @@ Quaternion< T > Quaternion< T >::rotate( T theta, Vector< 3, T >& axis,
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) * axis.normalize() );
-    return q * p * q.invert();
+    axis.normalize();
+    Quaternion< T > q( axis * std::sin( alpha ), std::cos( alpha ));
+    return q * p * q.inverse();
 }
 
 
@@ -854,8 +855,9 @@ Quaternion< T > Quaternion< T >::rotate_x( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERI );
-    return q * p * q.invert();
+    Quaternion< T > q = QUATERI * std::sin( alpha );
+    q.w() = std::cos( alpha );
+    return q * p * q.inverse();
 }
 
 
@@ -865,8 +867,9 @@ Quaternion< T > Quaternion< T >::rotate_y( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERJ );
-    return q * p * q.invert();
+    Quaternion< T > q = QUATERJ * std::sin( alpha );
+    q.w() = std::cos( alpha );
+    return q * p * q.inverse();
 }
 
 
@@ -876,8 +879,9 @@ Quaternion< T > Quaternion< T >::rotate_z( T theta, const Vector< 3, T >& a )
 {
     Quaternion< T > p = a;
     T alpha = theta / 2;
-    Quaternion< T > q = std::cos( alpha ) + ( std::sin( alpha ) *  QUATERK );
-    return q * p * q.invert();
+    Quaternion< T > q = QUATERK * std::sin( alpha );
+    q.w() = std::cos( alpha );
+    return q * p * q.inverse();
 }
 
 
-- 
2.43.0


From df4a4f7edef8e424d3ef35cfdb3c4b2a0bbfb395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 27/40] fix: Quaternion::negate() was declared but not defined

---
 vmmlib/quaternion.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index aec9290..96844cc 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -623,6 +623,15 @@ void Quaternion< T >::operator*=( const Quaternion< T >& q )
 
 
 
+template < typename T >
+Quaternion< T >
+Quaternion< T >::negate() const
+{
+    return -( *this );
+}
+
+
+
 template < typename T >
 Quaternion< T >
 Quaternion< T >::operator-() const
-- 
2.43.0


From 7e10b1fe1a6ec403b94714a831e7110decebfd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:37 +0000
Subject: [PATCH 28/40] fix: Quaternion::is_akin() compared in single precision

---
 vmmlib/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index 96844cc..ca166c5 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -457,10 +457,10 @@ template < typename T >
 bool
 Quaternion< T >::is_akin( const Quaternion& a, const T& delta )
 {
-    if( fabsf( w() - a.w() ) > delta ||
-        fabsf( x() - a.x() ) > delta ||
-        fabsf( y() - a.y() ) > delta ||
-        fabsf( z() - a.z() ) > delta
+    if( std::fabs( w() - a.w() ) > delta ||
+        std::fabs( x() - a.x() ) > delta ||
+        std::fabs( y() - a.y() ) > delta ||
+        std::fabs( z() - a.z() ) > delta
         )
         return false;
     return true;
-- 
2.43.0


From 478297e6d7039fea9bc54c081441448a3639fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 29/40] fix: Matrix::frobenius_norm() overflowed for integer
 matrices

---
 vmmlib/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 3f19f0e..d3cf7fc 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2259,7 +2259,8 @@ Matrix< M, N, T >::frobenius_norm( ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm += *it * *it;
+        const double value = static_cast< double >( *it );
+        norm += value * value;
     }
 
     return std::sqrt(norm);
-- 
2.43.0


From fee69acb8fa7cd64cf70b88032ac557f88e847df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 30/40] fix: AABB::getCenter() of an integer box was its lower
 corner

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index cae3c7e..7c2f044 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -312,7 +312,7 @@ AABB< T >::operator!=( const AABB< U >& other )
 template< typename T >
 Vector< 3, T > AABB< T >::getCenter() const
 {
-    return _min + ( ( _max - _min ) * 0.5f );
+    return _min + ( _max - _min ) / static_cast< T >( 2 );
 }
 
 template< typename T >
-- 
2.43.0


From 59dc6447c531f92f28a19bde3635971c87c0bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 31/40] fix: AABB::isIn() of an integer sphere rounded the
 diameter to float

---
 vmmlib/aabb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 7c2f044..9efc3a0 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -157,7 +157,7 @@ inline bool AABB< T >::isIn( const Vector< 4, T >& sphere )
     sv += sphere.w();
     if ( sv.x() > _max.x() || sv.y() > _max.y() || sv.z() > _max.z() )
         return false;
-    sv -= sphere.w() * 2.0f;
+    sv -= sphere.w() * static_cast< T >( 2 );
     if ( sv.x() < _min.x() || sv.y() < _min.y() || sv.z() < _min.z() )
         return false;
     return true;
-- 
2.43.0


From a978e5e0a7d9e7e79322ed03cff8de33adc50eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:34 +0000
Subject: [PATCH 32/40] fix: Vector::norm() overflowed for integer vectors

---
 vmmlib/vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index f6e01a5..62e9809 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1746,7 +1746,8 @@ Vector< M, T >::norm( ) const
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it )
     {
-        norm_v += *it * *it;
+        const double value = static_cast< double >( *it );
+        norm_v += value * value;
     }
 
     return std::sqrt(norm_v);
-- 
2.43.0


From b48026c8c353db91ac0b2124b6ce7ca9388b410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 33/40] fix: Matrix::quantize_to() of values far above the
 range gave the minimum

---
 vmmlib/matrix.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index d3cf7fc..6187685 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2480,11 +2480,20 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
 
     for( ; it != it_end; ++it, ++it_quant )
     {
+        long double value;
         if (std::numeric_limits<TT>::is_signed ) {
-            *it_quant = TT( std::min( std::max( min_tt_range, long((( *it - t_center ) * tt_range / t_range ) + 0.5)), max_tt_range ));
+            value = (( *it - t_center ) * tt_range / t_range ) + 0.5;
         } else {
-            *it_quant = TT( std::min( std::max( min_tt_range, long(((*it - min_value) * tt_range / t_range) + 0.5)), max_tt_range ));
+            value = ((*it - min_value) * tt_range / t_range) + 0.5;
         }
+
+        // clamp first, values far outside do not fit into a long
+        if( value >= max_tt_range )
+            *it_quant = TT( max_tt_range );
+        else if( value <= min_tt_range )
+            *it_quant = TT( min_tt_range );
+        else
+            *it_quant = TT( long( value ));
     }
 }
 
-- 
2.43.0


From edb549ceebfbf2d0c1294ac1ce1d33bed9616f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 34/40] fix: Vector::scale_to() of the maximum to int
 overflowed, of integer vectors was truncated

---
 vmmlib/vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 62e9809..489719c 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1447,13 +1447,14 @@ void
 Vector< M, T >::scale_to( Vector< M, TT >& result_,
     T min_value, T max_value ) const
 {
-    T range       = max_value-min_value;
-    T scale       = ( 1.0 / range ) * static_cast< T >( std::numeric_limits< TT >::max() );
+    // in T, the scale is truncated (integers) or rounded up (float)
+    const long double range = max_value-min_value;
+    const long double max   = std::numeric_limits< TT >::max();
 
     for( size_t index = 0; index < M; ++index )
     {
         result_.at( index )
-            = static_cast< TT >( ( at( index ) - min_value ) * scale );
+            = static_cast< TT >( ( at( index ) - min_value ) * max / range );
     }
 
 }
-- 
2.43.0


From e5a5bd225299e9aca67e3fcf1142edf59f0a3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:26 +0000
Subject: [PATCH 35/40] fix: conversion of integer vectors from homogeneous
 coordinates multiplied by zero

---
 vmmlib/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 489719c..64e289e 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1366,10 +1366,10 @@ template< size_t M, typename T > template< size_t N >
 typename enable_if< N == M + 1 >::type*
 Vector< M, T >::operator=( const Vector< N, T >& source_ )
 {
-    const T w_reci = static_cast< T >( 1.0 ) / source_( M );
+    const T w_ = source_( M );
     iterator it = begin(), it_end = end();
     for( size_t index = 0; it != it_end; ++it, ++index )
-        *it = source_( index ) * w_reci;
+        *it = source_( index ) / w_;
     return 0;
 }
 
-- 
2.43.0


From f57248b19208384fcc96cb5eca47bd546581beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 36/40] fix: equals() with a tolerance of unsigned matrices and
 vectors wrapped around

---
 vmmlib/matrix.hpp | 5 ++++-
 vmmlib/vector.hpp | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 6187685..37a8e96 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -936,7 +936,10 @@ equals( const Matrix< M, N, T >& other, T tolerance ) const
     {
         for( size_t col_index = 0; is_ok && col_index < N; col_index++)
         {
-            is_ok = fabs( at( row_index, col_index ) - other( row_index, col_index ) ) < tolerance;
+            // unsigned differences must not wrap around
+            const T& a_ = at( row_index, col_index );
+            const T& b_ = other( row_index, col_index );
+            is_ok = fabs( a_ < b_ ? b_ - a_ : a_ - b_ ) < tolerance;
         }
     }
     return is_ok;
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index 64e289e..f043353 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1328,8 +1328,13 @@ bool
 Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
 {
     for( size_t index = 0; index < M; ++index )
-        if( fabs( at( index ) - other( index ) ) >= tolerance )
+    {
+        // unsigned differences must not wrap around
+        const T& a_ = at( index );
+        const T& b_ = other( index );
+        if( fabs( a_ < b_ ? b_ - a_ : a_ - b_ ) >= tolerance )
             return false;
+    }
     return true;
 
 }
-- 
2.43.0


From 1c3dd94e0a800f14cf82927e9093d00533aa50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 37/40] fix: read_from_raw() of a file that is shorter than the
 matrix or missing

---
 vmmlib/matrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index 37a8e96..b11002d 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2690,19 +2690,20 @@ Matrix< M, N, T >::read_from_raw( const std::string& dir_, const std::string& fi
                                         len_data % max_file_len : len_data;
             len_data -= len_read;
             infile.read( data, len_read );
+            len_read = infile.gcount(); // the file may be shorter
 
             T* T_ptr = (T*)&(data[0]);
-            for( ; (it != it_end) && (len_read > 0); ++it, len_read -= sizeof(T) )
+            for( ; (it != it_end) && (len_read >= sizeof(T)); ++it, len_read -= sizeof(T) )
             {
                 *it = *T_ptr; ++T_ptr;
             }
         }
 
-        delete[] data;
         infile.close();
     } else {
         std::cout << "no file open" << std::endl;
     }
+    delete[] data;
 
 }
 
-- 
2.43.0


From ed6859d51d20811d827559d8a53ffc77e84aa0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:18 +0000
Subject: [PATCH 38/40] fix: AABB::setEmpty() of integer boxes

---
 vmmlib/aabb.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vmmlib/aabb.hpp b/vmmlib/aabb.hpp
index 9efc3a0..d37e9e3 100644
--- a/vmmlib/aabb.hpp
+++ b/vmmlib/aabb.hpp
@@ -363,8 +363,7 @@ void AABB< T >::merge( const Vector< 3, T >& point )
 template< typename T >inline
 void AABB< T >::setEmpty()
 {
-    _min = std::numeric_limits< T >::max();
-    _max = -std::numeric_limits< T >::max();
+    *this = AABB< T >();
 }
 
 
-- 
2.43.0


From f1dcbe9d01eeb4951d4e5e28019c885a580bdc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 39/40] fix: Matrix::quantize_to(), dequantize() of integer
 matrices truncated to whole steps

---
 vmmlib/matrix.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/vmmlib/matrix.hpp b/vmmlib/matrix.hpp
index b11002d..b7cbed6 100644
--- a/vmmlib/matrix.hpp
+++ b/vmmlib/matrix.hpp
@@ -2473,8 +2473,9 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
     long min_tt_range = long(std::numeric_limits< TT >::min());
     long tt_range = (max_tt_range - min_tt_range);
 
-    T t_range = max_value - min_value;
-    const T t_center = min_value + t_range / 2;
+    // not in T, which may be an integer type
+    const long double t_range = static_cast< long double >( max_value ) - min_value;
+    const long double t_center = min_value + t_range / 2;
 
     typedef Matrix< M, N, TT > m_tt_type ;
     typedef typename m_tt_type::iterator tt_iterator;
@@ -2487,7 +2488,7 @@ Matrix< M, N, T >::quantize_to( Matrix< M, N, TT >& quantized_, const T& min_val
         if (std::numeric_limits<TT>::is_signed ) {
             value = (( *it - t_center ) * tt_range / t_range ) + 0.5;
         } else {
-            value = ((*it - min_value) * tt_range / t_range) + 0.5;
+            value = ((static_cast< long double >( *it ) - min_value) * tt_range / t_range) + 0.5;
         }
 
         // clamp first, values far outside do not fit into a long
@@ -2522,8 +2523,9 @@ Matrix< M, N, T >::dequantize( Matrix< M, N, TT >& dequantized_, const TT& min_v
     long min_t_range = long(std::numeric_limits< T >::min());
     long t_range = (max_t_range - min_t_range);
 
-    TT tt_range = max_value - min_value;
-    const TT tt_center = min_value + tt_range / 2;
+    // not in TT, which may be an integer type
+    const long double tt_range = static_cast< long double >( max_value ) - min_value;
+    const long double tt_center = min_value + tt_range / 2;
 
     typedef Matrix< M, N, TT > m_tt_type ;
     typedef typename m_tt_type::iterator tt_iterator;
@@ -2531,11 +2533,13 @@ Matrix< M, N, T >::dequantize( Matrix< M, N, TT >& dequantized_, const TT& min_v
     const_iterator it = begin(), it_end = end();
     for( ; it != it_end; ++it, ++it_dequant )
     {
-        if (std::numeric_limits<T>::is_signed ) {
-            *it_dequant = std::min( std::max( min_value, TT((TT(*it) / t_range) * tt_range + tt_center)), max_value );
-        } else {
-            *it_dequant = std::min( std::max( min_value, TT((((TT(*it) / t_range)) * tt_range ) + min_value)), max_value );
-        }
+        long double value = *it * tt_range / t_range;
+        value += std::numeric_limits<T>::is_signed ? tt_center : min_value;
+        if (std::numeric_limits<TT>::is_integer )
+            value = std::floor( value + 0.5 );
+
+        *it_dequant = value <= min_value ? min_value :
+                      value >= max_value ? max_value : TT( value );
     }
 }
 
-- 
2.43.0


From 908762b876c01883698a5f46473a7fb1eb211aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:39 +0000
Subject: [PATCH 40/40] fix: Vector::equals() and Quaternion::is_akin() of a
 NaN were true

---
 vmmlib/quaternion.hpp | 12 +++++-------
 vmmlib/vector.hpp     |  3 ++-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/vmmlib/quaternion.hpp b/vmmlib/quaternion.hpp
index ca166c5..2d87643 100644
--- a/vmmlib/quaternion.hpp
+++ b/vmmlib/quaternion.hpp
@@ -457,13 +457,11 @@ template < typename T >
 bool
 Quaternion< T >::is_akin( const Quaternion& a, const T& delta )
 {
-    if( std::fabs( w() - a.w() ) > delta ||
-        std::fabs( x() - a.x() ) > delta ||
-        std::fabs( y() - a.y() ) > delta ||
-        std::fabs( z() - a.z() ) > delta
-        )
-        return false;
-    return true;
+    // not >, which is false for a NaN
+    return std::fabs( w() - a.w() ) <= delta &&
+           std::fabs( x() - a.x() ) <= delta &&
+           std::fabs( y() - a.y() ) <= delta &&
+           std::fabs( z() - a.z() ) <= delta;
 }
 
 
diff --git a/vmmlib/vector.hpp b/vmmlib/vector.hpp
index f043353..20fee29 100644
--- a/vmmlib/vector.hpp
+++ b/vmmlib/vector.hpp
@@ -1332,7 +1332,8 @@ Vector< M, T >::equals( const Vector< M, T >& other, T tolerance ) const
         // unsigned differences must not wrap around
         const T& a_ = at( index );
         const T& b_ = other( index );
-        if( fabs( a_ < b_ ? b_ - a_ : a_ - b_ ) >= tolerance )
+        // not >=, which is false for a NaN
+        if( !( fabs( a_ < b_ ? b_ - a_ : a_ - b_ ) < tolerance ))
             return false;
     }
     return true;
-- 
2.43.0

