From 9ad87892db556b8bcff7e72775d0b5c4f7d553cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 01/16] fix: horizontal half of concatenate(square, square)
 repeated A instead of B

---
 matrix/matrix_concatenate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_concatenate.hpp b/matrix/matrix_concatenate.hpp
index e4b9aac..a12ea30 100644
--- a/matrix/matrix_concatenate.hpp
+++ b/matrix/matrix_concatenate.hpp
@@ -60,7 +60,7 @@ std::pair<Matrix<T, (n+n), n>,Matrix<T, n, (n+n)>> concatenate(const Matrix<T, n
     }
     for (std::size_t j = n; j < n+n; j++)
     {
-      result.second[i][j] = A[i][j-n];
+      result.second[i][j] = B[i][j-n];
     }
   }
 
-- 
2.43.0


From 2d748166e122973f682cb5c84a4b28c995fdd846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 02/16] fix: median used the heap and needed an include
 matrix.hpp does not have

The library promises no dynamic memory allocation, and including only
matrix.hpp, as the README says, did not compile (std::vector undeclared).
---
 matrix/matrix_median.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/matrix/matrix_median.hpp b/matrix/matrix_median.hpp
index e9a8ca7..2f01cfe 100644
--- a/matrix/matrix_median.hpp
+++ b/matrix/matrix_median.hpp
@@ -30,15 +30,14 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T median(const Matrix<T, i, j>& A)
 {
-  std::vector<T> v;
-  const std::size_t size = i*j;
-  v.reserve(size);
+  constexpr std::size_t size = i*j;
+  std::array<T, size> v;
 
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      v.push_back(A[it][jt]);
+      v[it*j + jt] = A[it][jt];
     }
   }
 
-- 
2.43.0


From e3428bef56fab0ea6b943a976ec62a93d02330ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 03/16] fix: mean of signed integers divided by an unsigned
 count

The mean of {-1, -1, -1} was 1431655764.
---
 matrix/matrix_mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index 6e803ac..1a4f463 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -39,7 +39,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<std::ptrdiff_t>(i*j));
 }
 
 
-- 
2.43.0


From 08194f03979702c02ca08fe408ca63a4ac805e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 04/16] fix: isIdentity only compiled for matrices of unsigned
 int

---
 matrix/matrix_utils.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index d4aefc9..834b18a 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -32,9 +32,8 @@ namespace mlib
 template<typename T, std::size_t n>
 bool isIdentity(const Matrix<T, n, n>& A)
 {
-  const auto identity {eye<unsigned int, n>()};
-  const auto uiA {static_cast<Matrix<unsigned int, n, n>>(A)};
-  return (uiA == identity);
+  const auto identity {eye<T, n>()};
+  return (A == identity);
 }
 
 
-- 
2.43.0


From 7ecd7b05953689a1a5137c3a3953aa5dfa1de724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 05/16] fix: compare accepted NaN as equal to anything

---
 matrix/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index 834b18a..998e49f 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -52,7 +52,7 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
   {
     for(std::size_t j = 0; j < col; j++)
     {
-      if(std::abs(A[i][j] - B[i][j]) > epsilon)
+      if(A[i][j] != B[i][j] && !(std::abs(A[i][j] - B[i][j]) <= epsilon))
       {
         return false;
       }
-- 
2.43.0


From 45b860c8c21c33a8f43cd44b7cab2f311491b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 06/16] fix: ones had the wrong shape for matrices that are not
 square

ones<2, 4>() was a 4x4 matrix, ones<float, 2, 4>() did not compile.
---
 matrix/matrix_ones.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_ones.hpp b/matrix/matrix_ones.hpp
index a7613df..48bbaee 100644
--- a/matrix/matrix_ones.hpp
+++ b/matrix/matrix_ones.hpp
@@ -25,14 +25,14 @@ namespace mlib
  *
  * @return matrix with i, j size
  */
-template<unsigned int, std::size_t i, std::size_t j = i>
+template<std::size_t i, std::size_t j = i>
 Matrix<unsigned int, i, j> ones()
 {
   return fill<unsigned int, i, j>(1);
 }
 
 template<typename T, std::size_t i, std::size_t j = i>
-Matrix<T, i, i> ones()
+Matrix<T, i, j> ones()
 {
   return fill<T, i, j>(1);
 }
-- 
2.43.0


From 9ec0e6825fee6aa6af70ccd89815ed0b51d02225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 07/16] fix: dividing by zero terminated the program

A bare throw outside a handler calls std::terminate; report it the way inv
and lu do. inv of a singular matrix of 4x4 or more ended there as well.
---
 matrix/matrix_div.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_div.hpp b/matrix/matrix_div.hpp
index dac5658..8f67d57 100644
--- a/matrix/matrix_div.hpp
+++ b/matrix/matrix_div.hpp
@@ -15,6 +15,7 @@
 #ifndef MATRIX_MATRIX_DIV_HPP_
 #define MATRIX_MATRIX_DIV_HPP_
 
+#include <stdexcept>
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -33,7 +34,7 @@ template<typename T, std::size_t n, std::size_t m>
 static Matrix<T, n, m> div(const Matrix<T, n, m>& A, const T scalar)
 {
   if(scalar == 0)
-    throw;
+    throw std::overflow_error("Divide by zero exception");
 
   Matrix<T, n, m> prod{};
 
-- 
2.43.0


From 17c12fbce6b6d882c1906b8ce8e9268acc5eba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 08/16] fix: inverse of a singular 1x1 matrix was not reported

---
 matrix/matrix_inv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index 8a5f19d..d5f41ea 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -65,7 +65,12 @@ static Matrix<T, (n-1), (n-1)> getminor(const Matrix<T, n, n>& A, std::size_t i,
 template<typename T>
 Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
 {
-  return Matrix<T, 1, 1>{ 1/det(A) };
+  const auto detA { det(A) };
+  if (detA == 0)
+  {
+    throw std::overflow_error("Divide by zero exception");
+  }
+  return Matrix<T, 1, 1>{ 1/detA };
 }
 
 
-- 
2.43.0


From e2570e9c75568428c8a95f18127af9d7790a0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:38 +0000
Subject: [PATCH 09/16] fix: chol and stddev rounded long double matrices to
 double

The unqualified sqrt is the C function on double.
---
 matrix/matrix_cholesky.hpp | 2 +-
 matrix/matrix_stddev.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_cholesky.hpp b/matrix/matrix_cholesky.hpp
index f78fed2..39f36f4 100644
--- a/matrix/matrix_cholesky.hpp
+++ b/matrix/matrix_cholesky.hpp
@@ -69,7 +69,7 @@ Matrix<T, n, n> chol(
         {
           sum = sum + L[i][k] * L[i][k];
         }
-        L[i][i] = sqrt( A[i][i] - sum);
+        L[i][i] = std::sqrt( A[i][i] - sum);
       }
       else
       {
diff --git a/matrix/matrix_stddev.hpp b/matrix/matrix_stddev.hpp
index 1cccb9c..5438df1 100644
--- a/matrix/matrix_stddev.hpp
+++ b/matrix/matrix_stddev.hpp
@@ -31,7 +31,7 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T stddev(const Matrix<T, i, j>& A)
 {
-  return sqrt(var(A));
+  return std::sqrt(var(A));
 }
 
 
-- 
2.43.0


From f550cc2c94766f3a46f9671ae12f64b50a38f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:38 +0000
Subject: [PATCH 10/16] fix: pow overflowed on the most negative exponent

abs of it is not representable (undefined behaviour), and abs of an unsigned
exponent, such as a std::size_t, did not compile.
---
 matrix/matrix_pow.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matrix/matrix_pow.hpp b/matrix/matrix_pow.hpp
index 2012179..110eb76 100644
--- a/matrix/matrix_pow.hpp
+++ b/matrix/matrix_pow.hpp
@@ -47,12 +47,11 @@ Matrix<T, n, n> pow(Matrix<T, n, n> A, P p)
     if(p < 0)
     {
       A = inv(A);
-      p = std::abs(p);
     }
 
     auto powA { ones<T, n, n>() };
 
-    powA = pow(A, p/2);
+    powA = pow(A, (p < 0) ? -(p/2) : p/2);
     if ((p % 2) == 0)
     {
       return powA * powA;
-- 
2.43.0


From 32f102b436cf9fb00dedcf97941922b429892997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:38 +0000
Subject: [PATCH 11/16] fix: conv2 computed the correlation, not the
 convolution

It is documented to work as conv2 in Octave, which rotates the kernel; the
two differ for kernels that are not symmetric.
---
 matrix/matrix_conv2.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 7845dd4..bdedaf5 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -22,6 +22,28 @@ namespace mlib
 {
 
 
+/**
+ * @brief Kernel rotated by 180 degrees, as convolution applies it
+ *
+ * @param [in] Matrix kernel 3x3
+ *
+ * @return Rotated kernel
+ */
+template<typename T>
+Matrix<T, 3, 3> rotated_kernel(const Matrix<T, 3, 3>& kernel)
+{
+  Matrix<T, 3, 3> result{};
+  for (std::size_t it = 0; it < 3; it++)
+  {
+    for (std::size_t jt = 0; jt < 3; jt++)
+    {
+      result[it][jt] = kernel[2-it][2-jt];
+    }
+  }
+  return result;
+}
+
+
 /**
  * @brief Convolution in two dimensions using kernel of size 3x3
  *         It works as conv2 in Octave with 'same' parameter
@@ -36,8 +58,9 @@ namespace mlib
  * @return Returns the central part of the convolution (of size ixj like A)
  */
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& mask)
 {
+  const auto kernel = rotated_kernel(mask);
   Matrix<T, i, j> result{};
   auto isOutOfRange = [](int a, int b)
   {
@@ -86,8 +109,9 @@ Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 // TODO move in inside conv2() (add parameter 'valid' as option)
 // TODO refactor it so it will look more friendly
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& mask)
 {
+  const auto kernel = rotated_kernel(mask);
   Matrix<T, i+2, j+2> result{};
   // equals 1 because kernel is 3x3, if kernel is 5x5 offset would be 2 
   constexpr std::size_t offset{1};
-- 
2.43.0


From 9dfa3575ef724069de50b03ad1309c7f6a885f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:38 +0000
Subject: [PATCH 12/16] fix: conv2_valid did not compile for matrices that are
 not square

---
 matrix/matrix_conv2.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index bdedaf5..1d45c5c 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -163,8 +163,16 @@ Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>&
 template<typename T, std::size_t i, std::size_t j>
 Matrix<T, i-2, j-2> conv2_valid(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 {
-  Matrix<T, i-1, i-1> tmp1 = getminor(conv2(A,kernel),i-1,j-1); // conv2 means conv2 with -same option
-  return getminor(tmp1,0,0); // conv2 means conv2 with -same option
+  const auto same = conv2(A,kernel); // conv2 means conv2 with -same option
+  Matrix<T, i-2, j-2> result{};
+  for(std::size_t it = 0; it < i-2; it++)
+  {
+    for(std::size_t jt = 0; jt < j-2; jt++)
+    {
+      result[it][jt] = same[it+1][jt+1];
+    }
+  }
+  return result;
 }
 
 
-- 
2.43.0


From e96decd07fb9d5737eee9032339e69c00a81b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:32 +0000
Subject: [PATCH 13/16] fix: determinant of small well conditioned matrices
 could be far off

Only an exact zero made det look for another pivot, so that the rounding
residue of a zero pivot was divided by: det of the double matrix
{-3,-1,2,0,0, 1,0,-3,1,-2, -2,-1,-1,2,2, 0,-3,-3,-1,3, 3,-2,-1,1,-1}
was 288 instead of 460, and others came out as 0, that is, singular.
---
 matrix/matrix_det.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index b1510a8..a31fd5f 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -118,6 +118,21 @@ T det(Matrix<T, n, n> A)
       }
     }
 
+    // exchange rows when the pivot is too small to divide by accurately
+    auto magnitude = [](T value) { return (value < 0) ? -value : value; };
+    std::size_t largest = i;
+    for (std::size_t k = i + 1; k < n; ++k)
+    {
+      if (magnitude(A[largest][pivot]) < magnitude(A[k][pivot]))
+      {
+        largest = k;
+      }
+    }
+    if (magnitude(A[i][pivot]) < magnitude(A[largest][pivot]) / 10)
+    {
+      i = largest;
+    }
+
     if (i != r)
     {
       swap_rows(A, i, r);
-- 
2.43.0


From 45a4c98e7527e56277377962433e75cf1e3f9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 14/16] fix: determinant of integer matrices of 4x4 or more
 truncated its divisions

det of the tridiagonal 4x4 int matrix with 2 and 1 was 16 instead of 5, and
inv of an integer matrix divided by it.
---
 matrix/matrix_det.hpp | 49 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/matrix/matrix_det.hpp b/matrix/matrix_det.hpp
index a31fd5f..039ae15 100644
--- a/matrix/matrix_det.hpp
+++ b/matrix/matrix_det.hpp
@@ -15,6 +15,8 @@
 #ifndef MATRIX_MATRIX_DET_HPP_
 #define MATRIX_MATRIX_DET_HPP_
 
+#include <cstdint>
+#include <type_traits>
 #include "matrix_swap.hpp"
 
 
@@ -71,6 +73,48 @@ T det(const Matrix<T, 3, 3>& A)
 }
 
 
+/**
+ * @brief Determinant of matrix nxn of integers, without division
+ *        (Bird's algorithm), modulo 2^64 in the intermediate results
+ *
+ * @param [in] Square Matrix A with nxn size
+ *
+ * @return Determinant of matrix A
+ */
+template<typename T, std::size_t n>
+T det_integral(const Matrix<T, n, n>& A)
+{
+  Matrix<std::uintmax_t, n, n> F{};
+  for (std::size_t i = 0; i < n; ++i)
+  {
+    for (std::size_t j = 0; j < n; ++j)
+    {
+      F[i][j] = static_cast<std::uintmax_t>(A[i][j]);
+    }
+  }
+  const auto B = F;
+
+  for (std::size_t step = 1; step < n; ++step)
+  {
+    std::uintmax_t trace{0};
+    for (std::size_t i = n; i-- > 0; )
+    {
+      const auto row = F[i];
+      for (std::size_t j = 0; j < n; ++j)
+      {
+        F[i][j] = (0 - trace) * B[i][j];
+        for (std::size_t k = i + 1; k < n; ++k)
+        {
+          F[i][j] += row[k] * B[k][j];
+        }
+      }
+      trace += row[i];
+    }
+  }
+  return static_cast<T>((n % 2) ? F[0][0] : 0 - F[0][0]);
+}
+
+
 /**
  * @brief Determinant of matrix nxn
  *
@@ -81,6 +125,11 @@ T det(const Matrix<T, 3, 3>& A)
 template<typename T, std::size_t n>
 T det(Matrix<T, n, n> A)
 {
+  if (std::is_integral<T>::value)
+  {
+    return det_integral(A);
+  }
+
   T factor{1};
   std::size_t pivot{0};
 
-- 
2.43.0


From bb82b708b1b9e1b416bdeb5b2a2ab6e8b0eac6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:38 +0000
Subject: [PATCH 15/16] fix: rand_major benchmark read past the end of the rows

---
 bench/cache/cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/cache/cache.hpp b/bench/cache/cache.hpp
index ff4324c..611308b 100644
--- a/bench/cache/cache.hpp
+++ b/bench/cache/cache.hpp
@@ -62,7 +62,7 @@ static void rand_major(benchmark::State& state)
   T sum = 0;
 
   const std::size_t min = 0;
-  const std::size_t max = col;
+  const std::size_t max = col - 1;
 
   std::default_random_engine dre {std::random_device{}()};
   std::uniform_int_distribution<std::size_t> ud {min, max};
-- 
2.43.0


From 7f9a437eb50156e853817247ead5c6cc59708d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:41 +0000
Subject: [PATCH 16/16] fix: inv of matrices of narrow integers is rejected by
 clang (narrowing in braces)

---
 matrix/matrix_inv.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index d5f41ea..d6d77ba 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -70,7 +70,7 @@ Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
   {
     throw std::overflow_error("Divide by zero exception");
   }
-  return Matrix<T, 1, 1>{ 1/detA };
+  return Matrix<T, 1, 1>{ static_cast<T>(1/detA) };
 }
 
 
@@ -91,8 +91,8 @@ Matrix<T, 2, 2> inv(const Matrix<T, 2, 2>& A)
   {
     throw std::overflow_error("Divide by zero exception");
   }
-  invA = {A[1][1], -A[0][1],
-         -A[1][0],  A[0][0]};
+  invA = {A[1][1], static_cast<T>(-A[0][1]),
+          static_cast<T>(-A[1][0]),  A[0][0]};
   invA = invA / detA;
   return invA;
 }
@@ -120,9 +120,9 @@ Matrix<T, 3, 3> inv(const Matrix<T, 3, 3>& A)
   auto&& g = A[2][0]; auto&& h = A[2][1]; auto&& i = A[2][2];
 
   const Matrix<T, 3, 3> invA
-  { e*i - f*h, c*h - b*i, b*f - c*e,
-    f*g - d*i, a*i - c*g, c*d - a*f,
-    d*h - e*g, b*g - a*h, a*e - b*d };
+  { static_cast<T>(e*i - f*h), static_cast<T>(c*h - b*i), static_cast<T>(b*f - c*e),
+    static_cast<T>(f*g - d*i), static_cast<T>(a*i - c*g), static_cast<T>(c*d - a*f),
+    static_cast<T>(d*h - e*g), static_cast<T>(b*g - a*h), static_cast<T>(a*e - b*d) };
 
   return invA / detA;
 }
-- 
2.43.0

