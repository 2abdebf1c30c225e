From 40a0672bf4f6027dc768d1d322e6cf9bebd79110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 01/12] fix: horizontal member of square concatenate() dropped
 its second operand

---
 matrix/matrix_concatenate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_concatenate.hpp b/matrix/matrix_concatenate.hpp
index e4b9aac..a12ea30 100644
--- a/matrix/matrix_concatenate.hpp
+++ b/matrix/matrix_concatenate.hpp
@@ -60,7 +60,7 @@ std::pair<Matrix<T, (n+n), n>,Matrix<T, n, (n+n)>> concatenate(const Matrix<T, n
     }
     for (std::size_t j = n; j < n+n; j++)
     {
-      result.second[i][j] = A[i][j-n];
+      result.second[i][j] = B[i][j-n];
     }
   }
 
-- 
2.43.0


From 488ac7a9f417f7fe482be529d5713b63f4428bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 02/12] fix: ones() ignored the requested row or column count

---
 matrix/matrix_ones.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_ones.hpp b/matrix/matrix_ones.hpp
index a7613df..48bbaee 100644
--- a/matrix/matrix_ones.hpp
+++ b/matrix/matrix_ones.hpp
@@ -25,14 +25,14 @@ namespace mlib
  *
  * @return matrix with i, j size
  */
-template<unsigned int, std::size_t i, std::size_t j = i>
+template<std::size_t i, std::size_t j = i>
 Matrix<unsigned int, i, j> ones()
 {
   return fill<unsigned int, i, j>(1);
 }
 
 template<typename T, std::size_t i, std::size_t j = i>
-Matrix<T, i, i> ones()
+Matrix<T, i, j> ones()
 {
   return fill<T, i, j>(1);
 }
-- 
2.43.0


From a2347e7e7b084b10c6bd1eeac84bc2e442226e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 03/12] fix: division by zero terminated the process instead of
 throwing

'throw;' without an active exception calls std::terminate; throw the same
std::overflow_error as inv() and lu() do (and include its header).
---
 matrix/matrix_div.hpp  | 2 +-
 matrix/matrix_type.hpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_div.hpp b/matrix/matrix_div.hpp
index dac5658..21e6681 100644
--- a/matrix/matrix_div.hpp
+++ b/matrix/matrix_div.hpp
@@ -33,7 +33,7 @@ template<typename T, std::size_t n, std::size_t m>
 static Matrix<T, n, m> div(const Matrix<T, n, m>& A, const T scalar)
 {
   if(scalar == 0)
-    throw;
+    throw std::overflow_error("Divide by zero exception");
 
   Matrix<T, n, m> prod{};
 
diff --git a/matrix/matrix_type.hpp b/matrix/matrix_type.hpp
index 127b704..f063804 100644
--- a/matrix/matrix_type.hpp
+++ b/matrix/matrix_type.hpp
@@ -22,6 +22,7 @@
 #include <algorithm>
 #include <map>
 #include <complex>
+#include <stdexcept>
 
 namespace mlib
 {
-- 
2.43.0


From 97237d0a7a78f3c1da83bf10b4562b9a78f8d8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 04/12] fix: inv() of a singular 1x1 matrix divided by zero

---
 matrix/matrix_inv.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index 8a5f19d..d5f41ea 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -65,7 +65,12 @@ static Matrix<T, (n-1), (n-1)> getminor(const Matrix<T, n, n>& A, std::size_t i,
 template<typename T>
 Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
 {
-  return Matrix<T, 1, 1>{ 1/det(A) };
+  const auto detA { det(A) };
+  if (detA == 0)
+  {
+    throw std::overflow_error("Divide by zero exception");
+  }
+  return Matrix<T, 1, 1>{ 1/detA };
 }
 
 
-- 
2.43.0


From cc9b6d449b902bcd6ed1023103808286287b5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 05/12] fix: median() allocated on the heap and needed an
 unincluded <vector>

matrix.hpp alone did not compile, and the library promises no dynamic
memory allocation.
---
 matrix/matrix_median.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/matrix/matrix_median.hpp b/matrix/matrix_median.hpp
index e9a8ca7..f8203b8 100644
--- a/matrix/matrix_median.hpp
+++ b/matrix/matrix_median.hpp
@@ -30,15 +30,14 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T median(const Matrix<T, i, j>& A)
 {
-  std::vector<T> v;
-  const std::size_t size = i*j;
-  v.reserve(size);
+  constexpr std::size_t size = i*j;
+  std::array<T, size> v{};
 
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      v.push_back(A[it][jt]);
+      v[it*j + jt] = A[it][jt];
     }
   }
 
-- 
2.43.0


From 67a03ece5a049d3076c90c0e7e51a88be31e4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 06/12] fix: mean() and var() of negative integers divided as
 unsigned

---
 matrix/matrix_mean.hpp | 2 +-
 matrix/matrix_type.hpp | 1 +
 matrix/matrix_var.hpp  | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index 6e803ac..2e8a0bd 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -39,7 +39,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<typename std::common_type<T, int>::type>(i*j));
 }
 
 
diff --git a/matrix/matrix_type.hpp b/matrix/matrix_type.hpp
index f063804..f6b57c2 100644
--- a/matrix/matrix_type.hpp
+++ b/matrix/matrix_type.hpp
@@ -23,6 +23,7 @@
 #include <map>
 #include <complex>
 #include <stdexcept>
+#include <type_traits>
 
 namespace mlib
 {
diff --git a/matrix/matrix_var.hpp b/matrix/matrix_var.hpp
index 975be59..ebd9078 100644
--- a/matrix/matrix_var.hpp
+++ b/matrix/matrix_var.hpp
@@ -40,7 +40,7 @@ T var(const Matrix<T, i, j>& A)
       result += (A[it][jt] - meanA)*(A[it][jt] - meanA);
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<typename std::common_type<T, int>::type>(i*j));
 }
 
 
-- 
2.43.0


From 5fd76a6f2db2ba22c780c4c0f06b39e9c65b110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 07/12] fix: isIdentity() compiled only for unsigned int
 matrices

---
 matrix/matrix_utils.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index d4aefc9..44afb42 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -32,9 +32,7 @@ namespace mlib
 template<typename T, std::size_t n>
 bool isIdentity(const Matrix<T, n, n>& A)
 {
-  const auto identity {eye<unsigned int, n>()};
-  const auto uiA {static_cast<Matrix<unsigned int, n, n>>(A)};
-  return (uiA == identity);
+  return (A == eye<T, n>());
 }
 
 
-- 
2.43.0


From 6212fc137c583763a55c888ea7edde62fda5b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 08/12] fix: compare() accepted NaN as equal to anything

---
 matrix/matrix_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_utils.hpp b/matrix/matrix_utils.hpp
index 44afb42..845ccd3 100644
--- a/matrix/matrix_utils.hpp
+++ b/matrix/matrix_utils.hpp
@@ -51,7 +51,7 @@ bool compare(const Matrix<T, row, col>& A, const Matrix<T, row, col>& B, const f
   {
     for(std::size_t j = 0; j < col; j++)
     {
-      if(std::abs(A[i][j] - B[i][j]) > epsilon)
+      if(!(std::abs(A[i][j] - B[i][j]) <= epsilon))
       {
         return false;
       }
-- 
2.43.0


From ea57775dc1aa421e25f0a3be5ee2187caf3d2b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 09/12] fix: conv2_valid() did not compile for non-square
 matrices

---
 matrix/matrix_conv2.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 7845dd4..424b168 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -139,8 +139,16 @@ Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>&
 template<typename T, std::size_t i, std::size_t j>
 Matrix<T, i-2, j-2> conv2_valid(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 {
-  Matrix<T, i-1, i-1> tmp1 = getminor(conv2(A,kernel),i-1,j-1); // conv2 means conv2 with -same option
-  return getminor(tmp1,0,0); // conv2 means conv2 with -same option
+  Matrix<T, i-2, j-2> result{};
+  const auto same = conv2(A,kernel); // conv2 means conv2 with -same option
+  for(std::size_t it = 0; it < i-2; it++)
+  {
+    for(std::size_t jt = 0; jt < j-2; jt++)
+    {
+      result[it][jt] = same[it+1][jt+1];
+    }
+  }
+  return result;
 }
 
 
-- 
2.43.0


From a93a100d2f2803f383ae407b76f62909a7c19f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 10/12] fix: conv2() computed correlation instead of
 convolution

It is documented to work as Octave's conv2, which rotates the kernel; the
results differed for every kernel that is not point-symmetric.
---
 matrix/matrix_conv2.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_conv2.hpp b/matrix/matrix_conv2.hpp
index 424b168..1edde61 100644
--- a/matrix/matrix_conv2.hpp
+++ b/matrix/matrix_conv2.hpp
@@ -22,6 +22,19 @@ namespace mlib
 {
 
 
+/**
+ * @brief Kernel rotated by 180 degrees, as convolution needs it
+ */
+template<typename T>
+static Matrix<T, 3, 3> rot180(const Matrix<T, 3, 3>& K)
+{
+  return Matrix<T, 3, 3>
+  { K[2][2], K[2][1], K[2][0],
+    K[1][2], K[1][1], K[1][0],
+    K[0][2], K[0][1], K[0][0] };
+}
+
+
 /**
  * @brief Convolution in two dimensions using kernel of size 3x3
  *         It works as conv2 in Octave with 'same' parameter
@@ -36,8 +49,9 @@ namespace mlib
  * @return Returns the central part of the convolution (of size ixj like A)
  */
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& K)
 {
+  const auto kernel = rot180(K);
   Matrix<T, i, j> result{};
   auto isOutOfRange = [](int a, int b)
   {
@@ -86,8 +100,9 @@ Matrix<T, i, j> conv2(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
 // TODO move in inside conv2() (add parameter 'valid' as option)
 // TODO refactor it so it will look more friendly
 template<typename T, std::size_t i, std::size_t j>
-Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& kernel)
+Matrix<T, i+2, j+2> conv2_full(const Matrix<T, i, j>& A, const Matrix<T, 3, 3>& K)
 {
+  const auto kernel = rot180(K);
   Matrix<T, i+2, j+2> result{};
   // equals 1 because kernel is 3x3, if kernel is 5x5 offset would be 2 
   constexpr std::size_t offset{1};
-- 
2.43.0


From 8e29736ac2817ba8cbbd187245ae2f588f3f1885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 11/12] fix: chol() and stddev() of long double went through
 double sqrt

---
 matrix/matrix_cholesky.hpp | 2 +-
 matrix/matrix_stddev.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/matrix_cholesky.hpp b/matrix/matrix_cholesky.hpp
index f78fed2..39f36f4 100644
--- a/matrix/matrix_cholesky.hpp
+++ b/matrix/matrix_cholesky.hpp
@@ -69,7 +69,7 @@ Matrix<T, n, n> chol(
         {
           sum = sum + L[i][k] * L[i][k];
         }
-        L[i][i] = sqrt( A[i][i] - sum);
+        L[i][i] = std::sqrt( A[i][i] - sum);
       }
       else
       {
diff --git a/matrix/matrix_stddev.hpp b/matrix/matrix_stddev.hpp
index 1cccb9c..5438df1 100644
--- a/matrix/matrix_stddev.hpp
+++ b/matrix/matrix_stddev.hpp
@@ -31,7 +31,7 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T stddev(const Matrix<T, i, j>& A)
 {
-  return sqrt(var(A));
+  return std::sqrt(var(A));
 }
 
 
-- 
2.43.0


From 479296d11ec8124186c406928a9909e5a2fd02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:07 +0000
Subject: [PATCH 12/12] fix: pow() of the most negative exponent gave the
 positive power

---
 matrix/matrix_pow.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/matrix/matrix_pow.hpp b/matrix/matrix_pow.hpp
index 2012179..7ddaa09 100644
--- a/matrix/matrix_pow.hpp
+++ b/matrix/matrix_pow.hpp
@@ -47,12 +47,11 @@ Matrix<T, n, n> pow(Matrix<T, n, n> A, P p)
     if(p < 0)
     {
       A = inv(A);
-      p = std::abs(p);
     }
 
     auto powA { ones<T, n, n>() };
 
-    powA = pow(A, p/2);
+    powA = pow(A, std::abs(p/2));
     if ((p % 2) == 0)
     {
       return powA * powA;
-- 
2.43.0

