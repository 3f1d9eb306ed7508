From d811c9768e92b9579a6e9ebc499dc7aa11ced557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 01/14] fix: iterate over missing off-diagonal hessian elements
 in second order propagation

ConstHessIt with skipzero=false stopped at the elements actually stored, so
a nonlinear function of a sum lost its mixed second derivatives, e.g.
exp(a + b).hess(a, b) was 0.
---
 uncertainties/internal/hessgrad.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index 89567a4..e9a2b3a 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -451,6 +451,19 @@ namespace uncertainties {
                 
                 void operator++() noexcept {
                     assert(diagmin != diagend and diagmax != diagend);
+                    if (not skipmissing) {
+                        // the out of diagonal follows the diagonal
+                        ++diagmax;
+                        if (diagmax == diagend) {
+                            ++diagmin;
+                            diagmax = diagmin;
+                        }
+                        if (diagmin != diagend) {
+                            const IdPair id {diagmin->first, diagmax->first};
+                            for (; tri != triend && tri->first < id; ++tri) ;
+                        }
+                        return;
+                    }
                     if (diagmin == diagmax) {
                         ++diagmax;
                     } else {
@@ -461,7 +474,7 @@ namespace uncertainties {
                     if (tri == triend || tri->first.first > diagmin->first) {
                         ++diagmin;
                         diagmax = diagmin;
-                    } else if (skipmissing) {
+                    } else {
                         for (; diagmax != diagend && diagmax->first < tri->first.second; ++diagmax) ;
                         assert(diagmax != diagend && diagmax->first == tri->first.second);
                     }
-- 
2.43.0


From 0191112df0877ecbafd68c9422e53b3245c81cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 02/14] fix: UReal::grad returned 0 when the variable itself is
 independent

---
 uncertainties/ureal.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index 0b78d4f..8567968 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -582,6 +582,10 @@ namespace uncertainties {
                 throw std::invalid_argument(ss.str());
             }
             const Id xid = x.id > 0 ? x.id : x.sigma.begin()->first;
+            if (this->id > 0) {
+                const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
+                return this->id == xid ? this->sdev / xg : Real(0);
+            }
             const typename std::map<Id, Real>::const_iterator it = this->sigma.find(xid);
             if (it != this->sigma.end()) {
                 const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
-- 
2.43.0


From 606a2b2a530a2600a761c62762c1ed1c1b990483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 03/14] fix: sign of the derivatives of atan2 on UReal, and NaN
 when the first argument is 0

---
 uncertainties/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 5bf1b07..e910220 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -171,9 +171,9 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real yx = y.n() / x.n();
-        const Real dy = Real(1) / ((Real(1) + yx * yx) * x.n());
-        const Real dx = dy * (-yx);
+        const Real xxyy = x.n() * x.n() + y.n() * y.n();
+        const Real dx = y.n() / xxyy;
+        const Real dy = -x.n() / xxyy;
         return binary(x, y, atan2(x.n(), y.n()), dx, dy);
     }
     template<typename Real>
-- 
2.43.0


From 843d0bcf172eadf046d62a1ea8ff45bd22b7478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 04/14] fix: derivative of cbrt on UReal was NaN for negative
 mean

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index e910220..6d381be 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -124,8 +124,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> cbrt(const UReal<Real> &x) {
         using std::cbrt;
-        using std::pow;
-        return unary(x, cbrt(x.n()), pow(x.n(), -Real(2) / Real(3)) / Real(3));
+        const Real c = cbrt(x.n());
+        return unary(x, c, Real(1) / (Real(3) * c * c));
     }
     template<typename Real>
     UReal<Real> hypot(const UReal<Real> &x, const UReal<Real> &y) {
-- 
2.43.0


From dcadd7ffcc0eee354e824e58f95f9b0d915d8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 05/14] fix: derivatives of pow were NaN when the mean of the
 base is 0

---
 uncertainties/math.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 6d381be..8480489 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -114,7 +114,8 @@ namespace uncertainties {
         using std::pow;
         using std::log;
         const Real p = pow(x.n(), y.n());
-        return binary(x, y, p, p * y.n() / x.n(), p * log(x.n()));
+        const Real dx = y.n() == 0 ? Real(0) : Real(y.n() * pow(x.n(), y.n() - 1));
+        return binary(x, y, p, dx, p * log(x.n()));
     }
     template<typename Real>
     UReal<Real> sqrt(const UReal<Real> &x) {
@@ -347,14 +348,14 @@ namespace uncertainties {
         const Real &yn = y.first_order_n();
         const Real x2y = pow(xn, yn);
         const Real logx = log(xn);
-        const Real ix = 1 / xn;
-        const Real x2yix = x2y * ix;
-        const Real x2yixy = x2yix * yn;
+        const Real x2yix = pow(xn, yn - 1);
+        const Real x2yixy = yn == 0 ? Real(0) : Real(x2yix * yn);
+        const Real yy1 = yn * (yn - 1);
         const Real x2ylogx = x2y * logx;
         return binary(x, y, x2y,
                       x2yixy,
                       x2ylogx,
-                      x2yixy * ix * (yn - 1),
+                      yy1 == 0 ? Real(0) : Real(yy1 * pow(xn, yn - 2)),
                       x2ylogx * logx,
                       x2yix + x2yixy * logx);
     }
-- 
2.43.0


From 3df08655cfd77a44ac415b14144a12c0723f9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 06/14] fix: isfinite and isnormal did not compile on UReal2
 (all is a friend, not a member)

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 8480489..2a4831a 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -535,7 +535,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isfinite(const UReal2<Real, prop> &x) {
         using std::isfinite;
-        return x.all(x, [](const Real &n) { return isfinite(n); });
+        return all(x, [](const Real &n) { return isfinite(n); });
     }
     /*!
     \brief Are all the internal coefficients normal?
@@ -543,7 +543,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isnormal(const UReal2<Real, prop> &x) {
         using std::isnormal;
-        return x.all(x, [](const Real &n) { return isnormal(n); });
+        return all(x, [](const Real &n) { return isnormal(n); });
     }
 }
 
-- 
2.43.0


From 8621043a5276709d63f062f8ddcf0154dd9cb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 07/14] fix: format rounded up the uncertainty to the wrong
 power of ten, and io.hpp did not compile after math.hpp

---
 uncertainties/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index ce39600..4097ba0 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -99,11 +99,11 @@ namespace uncertainties {
         int ndigits(Real *const x, const float n) {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
+            using std::pow;
+            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - ndig + 1);
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-                    using std::pow;
                     *x = rounded_x;
                     ndig = rounded_ndig;
                 }
-- 
2.43.0


From 574bfb4e20849ae072a1b2884764695fc9621b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 08/14] fix: format lost the last digit of the mean when it is
 rounded up to a power of ten

---
 uncertainties/io.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 4097ba0..6bdddf6 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -165,8 +165,15 @@ namespace uncertainties {
         int sexp = internal::exponent(s);
         int muexp = mu != 0 ? internal::exponent(mu) : sexp - sndig - 1;
         std::string smant = internal::mantissa(s, sndig, &sexp);
-        const int mundig = sndig + muexp - sexp;
+        int mundig = sndig + muexp - sexp;
+        const int exact_muexp = muexp;
         std::string mumant = internal::mantissa(mu, mundig, &muexp);
+        if (muexp != exact_muexp) {
+            // The mean has been rounded up to a power of ten and the last zero
+            // dropped, put it back to keep the alignment with the uncertainty.
+            mumant.push_back('0');
+            ++mundig;
+        }
         const std::string musign = mu < 0 ? "-" : "";
         bool use_exp;
         int base_exp;
-- 
2.43.0


From 444493fa36541e580657fccbf5696675f1c5859d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 09/14] fix: format aborted or did not terminate when the
 scaling by a power of ten overflows or the exponent is rounded up

---
 uncertainties/io.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 6bdddf6..8baf3b9 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -60,7 +60,14 @@ namespace uncertainties {
         Real int_mantissa(const Real &x, const int n, const int e) {
             using std::round;
             using std::pow;
-            return round(x * pow(Real(10), n - 1 - e));
+            using std::isfinite;
+            const int p = n - 1 - e;
+            const Real scaled = x * pow(Real(10), p);
+            if (not isfinite(scaled)) {
+                // the power may overflow even if the result does not
+                return round(x * pow(Real(10), p / 2) * pow(Real(10), p - p / 2));
+            }
+            return round(scaled);
         }
         
         template<typename Real>
@@ -113,9 +120,19 @@ namespace uncertainties {
     
         template<typename Real>
         std::string mantissa(const Real &x, const int n, int *const e) {
-            const Real m = int_mantissa(x, n, *e);
+            Real m = int_mantissa(x, n, *e);
+            // More digits than those Real can represent are zeros.
+            using std::isfinite;
+            int zeros = 0;
+            while (not isfinite(m)) {
+                ++zeros;
+                m = int_mantissa(x, n - zeros, *e);
+            }
             std::string s = int_mantissa_string(m);
-            assert(s.size() == n or s.size() == n + 1 or (m == 0 and n < 0));
+            s.append(zeros, '0');
+            // s.size() may be n - 1 if the logarithm used to compute the
+            // exponent was rounded up; insert_dot takes that into account.
+            assert(s.size() == n or s.size() == n + 1 or s.size() == n - 1 or (m == 0 and n < 0));
             if (n >= 1 and s.size() == n + 1) {
                 *e += 1;
                 s.pop_back();
-- 
2.43.0


From 14673a744d271b19df01a9dd211952f0dffca451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 10/14] fix: derivative of fmod and remainder was that of the
 neighbouring piece near a multiple, and was rounded to double

---
 uncertainties/math.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 2a4831a..664926a 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -47,13 +47,16 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> fmod(const UReal<Real> &x, const UReal<Real> &y) {
         using std::fmod;
-        return binary(x, y, fmod(x.n(), y.n()), 1, -trunc(x.n() / y.n()));
+        using std::round;
+        const Real r = fmod(x.n(), y.n());
+        return binary(x, y, r, 1, -round((x.n() - r) / y.n()));
     }
     template<typename Real>
     UReal<Real> remainder(const UReal<Real> &x, const UReal<Real> &y) {
         using std::remainder;
         using std::round;
-        return binary(x, y, remainder(x.n(), y.n()), 1, -round(x.n() / y.n()));
+        const Real r = remainder(x.n(), y.n());
+        return binary(x, y, r, 1, -round((x.n() - r) / y.n()));
     }
     template<typename Real>
     UReal<Real> fmax(const UReal<Real> &x, const UReal<Real> &y) {
@@ -259,9 +262,11 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     UReal2<Real, prop> fmod(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
         using std::fmod;
+        using std::round;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
-        return binary(x, y, fmod(xn, yn), 1, -trunc(xn / yn), 0, 0, 0);
+        const Real r = fmod(xn, yn);
+        return binary(x, y, r, 1, -round((xn - r) / yn), 0, 0, 0);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> remainder(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
@@ -269,7 +274,8 @@ namespace uncertainties {
         using std::round;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
-        return binary(x, y, remainder(xn, yn), 1, -round(xn / yn), 0, 0, 0);
+        const Real r = remainder(xn, yn);
+        return binary(x, y, r, 1, -round((xn - r) / yn), 0, 0, 0);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> fmax(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
-- 
2.43.0


From d715941b38261f6c4a7100e434990df5b79075e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 11/14] fix: accept pointers as iterators in cov_matrix and
 corr_matrix

---
 uncertainties/stat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/stat.hpp b/uncertainties/stat.hpp
index 1fb13bc..0356144 100644
--- a/uncertainties/stat.hpp
+++ b/uncertainties/stat.hpp
@@ -114,7 +114,7 @@ namespace uncertainties {
     */
     template<typename InputIt, typename OutputIt>
     OutputIt cov_matrix(InputIt begin, InputIt end, OutputIt matrix) {
-        using Type = typename InputIt::value_type;
+        using Type = typename std::iterator_traits<InputIt>::value_type;
         return internal::outer(begin, end, matrix, [](const Type &x, const Type &y) {
             return cov(x, y);
         });
@@ -147,7 +147,7 @@ namespace uncertainties {
     */
     template<typename InputIt, typename OutputIt>
     OutputIt corr_matrix(InputIt begin, InputIt end, OutputIt matrix) {
-        using Type = typename InputIt::value_type;
+        using Type = typename std::iterator_traits<InputIt>::value_type;
         return internal::outer(begin, end, matrix, [](const Type &x, const Type &y) {
             return corr(x, y);
         });
-- 
2.43.0


From ef425fa7a3509cc25c1d564296b5d234a5ef926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 12/14] fix: format dropped the sign of a negative mean when
 the uncertainty is zero or not finite

---
 uncertainties/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 8baf3b9..d186100 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -160,7 +160,7 @@ namespace uncertainties {
             } else {
                 insert_dot(&m, n, e);
             }
-            return m;
+            return x < 0 ? "-" + m : m;
         }
     }
     
-- 
2.43.0


From 65d8ebf2fb7e8d5b4d492d010d77db635fc3b214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 13/14] fix: format printed a subnormal uncertainty with the
 wrong digits when it is rounded up to a power of ten

---
 uncertainties/io.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index d186100..c2d333c 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -107,7 +107,10 @@ namespace uncertainties {
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
             using std::pow;
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - ndig + 1);
+            const int p = xexp - ndig + 1;
+            const Real m = int_mantissa(*x, ndig, xexp);
+            // a negative power could be subnormal and lose precision
+            const Real rounded_x = p < 0 ? m / pow(Real(10), -p) : m * pow(Real(10), p);
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-- 
2.43.0


From c7ebf066c4a10373b3dbd8b44940f0e1abc7cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:00 +0000
Subject: [PATCH 14/14] fix: 64 bit ids, since int ids become negative after
 2^31 - 1 independent variables

---
 uncertainties/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.hpp b/uncertainties/core.hpp
index 196a4ae..bc5c4e4 100644
--- a/uncertainties/core.hpp
+++ b/uncertainties/core.hpp
@@ -32,7 +32,7 @@ namespace uncertainties {
     /*!
     \brief Type of independent variables ids.
     */
-    using Id = int; // must be signed
+    using Id = long long; // must be signed, and not run out
     
     /*!
     \brief Constant returned by `UReal::indepid` if the variable is dependent.
-- 
2.43.0

