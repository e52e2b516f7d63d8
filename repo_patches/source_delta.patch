From 766893985cb5e6bf6d23af97abfe4188660fc3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 01/21] fix: visit all off-diagonal hessian elements when
 iterating over missing ones too

With skipmissing=false ConstHessIt::operator++ stopped at the end of the
stored off-diagonal elements, so mixed second derivatives were lost in
nonlinear functions (e.g. exp(a + b).hess(a, b) == 0).
---
 uncertainties/internal/hessgrad.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/uncertainties/internal/hessgrad.hpp b/uncertainties/internal/hessgrad.hpp
index 89567a4..16f8919 100644
--- a/uncertainties/internal/hessgrad.hpp
+++ b/uncertainties/internal/hessgrad.hpp
@@ -451,6 +451,19 @@ namespace uncertainties {
                 
                 void operator++() noexcept {
                     assert(diagmin != diagend and diagmax != diagend);
+                    if (not skipmissing) {
+                        // The out of diagonal follows the diagonal.
+                        const IdPair id {diagmin->first, diagmax->first};
+                        if (tri != triend and tri->first == id) {
+                            ++tri;
+                        }
+                        ++diagmax;
+                        if (diagmax == diagend) {
+                            ++diagmin;
+                            diagmax = diagmin;
+                        }
+                        return;
+                    }
                     if (diagmin == diagmax) {
                         ++diagmax;
                     } else {
-- 
2.43.0


From 47b3899f6c2c27fee6c0a02c57d94fb5d6e3265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 02/21] fix: make UReal::grad work on independent and const
 variables

The derivative coefficient of an independent variable is not in the map,
so x.grad(x) and sin(x).grad(x) were 0.
---
 uncertainties/ureal.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/ureal.hpp b/uncertainties/ureal.hpp
index 0b78d4f..99cef23 100644
--- a/uncertainties/ureal.hpp
+++ b/uncertainties/ureal.hpp
@@ -574,7 +574,7 @@ namespace uncertainties {
         \throw std::invalid_argument if `x` is not independent or if it has
         no uncertainty information.
         */
-        Real grad(const UReal<Real> &x) {
+        Real grad(const UReal<Real> &x) const {
             if (not (x.id > 0 or x.sigma.size() == 1)) {
                 std::ostringstream ss;
                 ss << "uncertainties::UReal::grad: ";
@@ -582,6 +582,10 @@ namespace uncertainties {
                 throw std::invalid_argument(ss.str());
             }
             const Id xid = x.id > 0 ? x.id : x.sigma.begin()->first;
+            if (this->id > 0) {
+                const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
+                return this->id == xid ? Real(this->sdev / xg) : Real(0);
+            }
             const typename std::map<Id, Real>::const_iterator it = this->sigma.find(xid);
             if (it != this->sigma.end()) {
                 const Real &xg = x.id > 0 ? x.sdev : x.sigma.begin()->second;
-- 
2.43.0


From 94e3e77990edfc3274a947bf7a8ccd552febadbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 03/21] fix: derivative of UReal cbrt for negative arguments
 (was NaN)

---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 5bf1b07..eccc9a1 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -124,8 +124,8 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> cbrt(const UReal<Real> &x) {
         using std::cbrt;
-        using std::pow;
-        return unary(x, cbrt(x.n()), pow(x.n(), -Real(2) / Real(3)) / Real(3));
+        const Real c = cbrt(x.n());
+        return unary(x, c, Real(1) / (Real(3) * c * c));
     }
     template<typename Real>
     UReal<Real> hypot(const UReal<Real> &x, const UReal<Real> &y) {
-- 
2.43.0


From dbe6bb2ee45aac929c63d19930c59941facea221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 04/21] fix: derivatives of UReal atan2

Both had the wrong sign, and they were NaN when the first argument is 0.
UReal2's atan2 already used these expressions.
---
 uncertainties/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index eccc9a1..56e9fc7 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -171,9 +171,9 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real yx = y.n() / x.n();
-        const Real dy = Real(1) / ((Real(1) + yx * yx) * x.n());
-        const Real dx = dy * (-yx);
+        const Real ixxyy = Real(1) / (x.n() * x.n() + y.n() * y.n());
+        const Real dx = y.n() * ixxyy;
+        const Real dy = -x.n() * ixxyy;
         return binary(x, y, atan2(x.n(), y.n()), dx, dy);
     }
     template<typename Real>
-- 
2.43.0


From 82990901d31e0f7ec53367d911ac82a8b33b0a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 05/21] fix: isfinite and isnormal on UReal2 did not compile

`all` is a friend function, not a member.
---
 uncertainties/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 56e9fc7..6681249 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -534,7 +534,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isfinite(const UReal2<Real, prop> &x) {
         using std::isfinite;
-        return x.all(x, [](const Real &n) { return isfinite(n); });
+        return all(x, [](const Real &n) { return isfinite(n); });
     }
     /*!
     \brief Are all the internal coefficients normal?
@@ -542,7 +542,7 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     bool isnormal(const UReal2<Real, prop> &x) {
         using std::isnormal;
-        return x.all(x, [](const Real &n) { return isnormal(n); });
+        return all(x, [](const Real &n) { return isnormal(n); });
     }
 }
 
-- 
2.43.0


From 1dab0dba4541e10cd6b5882b7480a23145e47c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 06/21] fix: do not drop the minus sign when formatting with
 null or nonfinite uncertainty

---
 uncertainties/io.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index ce39600..26296e0 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -130,6 +130,7 @@ namespace uncertainties {
         std::string tostring(const Real &x) {
             using std::isnan;
             using std::isinf;
+            if (x < 0) return "-" + tostring(Real(-x));
             if (isnan(x)) return "nan";
             if (isinf(x)) return x > 0 ? "inf" : "-inf";
             if (x == 0) return "0";
-- 
2.43.0


From 6dcdb7e6683b44bebde9c6cacd57fa19cb243b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 07/21] fix: rounded uncertainty was too large by 10^(digits -
 1) in ndigits

E.g. 1 +/- 0.999 with errdig=2.5 was formatted as "1.0 +/- 10.0". Also
look up std::pow where it is called: including math.hpp before io.hpp
made `format` fail to compile.
---
 uncertainties/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 26296e0..b1cf096 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -97,13 +97,13 @@ namespace uncertainties {
         
         template<typename Real>
         int ndigits(Real *const x, const float n) {
+            using std::pow;
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp);
+            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - (ndig - 1));
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
-                    using std::pow;
                     *x = rounded_x;
                     ndig = rounded_ndig;
                 }
-- 
2.43.0


From 787716e39ee678929c1fe3c8003ef7e787eff5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 08/21] fix: keep the mean aligned with the uncertainty when it
 rounds up to a power of ten

E.g. 9.9996 +/- 0.05 with errdig=2 was formatted as "10.00 +/- 0.050".
---
 uncertainties/io.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index b1cf096..034a9f4 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -166,8 +166,14 @@ namespace uncertainties {
         int sexp = internal::exponent(s);
         int muexp = mu != 0 ? internal::exponent(mu) : sexp - sndig - 1;
         std::string smant = internal::mantissa(s, sndig, &sexp);
-        const int mundig = sndig + muexp - sexp;
+        int mundig = sndig + muexp - sexp;
+        const int muexp_unrounded = muexp;
         std::string mumant = internal::mantissa(mu, mundig, &muexp);
+        if (muexp > muexp_unrounded) {
+            // rounded up to a power of ten, keep aligned with the uncertainty
+            mumant.push_back('0');
+            ++mundig;
+        }
         const std::string musign = mu < 0 ? "-" : "";
         bool use_exp;
         int base_exp;
-- 
2.43.0


From e4ad6d074844db612659d735efeb06e3ee5e78bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 09/21] fix: derivatives of pow with null base

E.g. pow(x, 2) had NaN uncertainty when the mean of x is 0.
---
 uncertainties/math.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 6681249..4907f9f 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -114,7 +114,9 @@ namespace uncertainties {
         using std::pow;
         using std::log;
         const Real p = pow(x.n(), y.n());
-        return binary(x, y, p, p * y.n() / x.n(), p * log(x.n()));
+        // not p * y / x because x may be 0
+        const Real dx = y.n() == 0 ? Real(0) : Real(y.n() * pow(x.n(), Real(y.n() - 1)));
+        return binary(x, y, p, dx, p * log(x.n()));
     }
     template<typename Real>
     UReal<Real> sqrt(const UReal<Real> &x) {
@@ -349,12 +351,14 @@ namespace uncertainties {
         const Real logx = log(xn);
         const Real ix = 1 / xn;
         const Real x2yix = x2y * ix;
-        const Real x2yixy = x2yix * yn;
+        // not x2yix * yn because xn may be 0
+        const Real x2yixy = yn == 0 ? Real(0) : Real(yn * pow(xn, Real(yn - 1)));
+        const Real ddfdxdx = yn == 0 or yn == 1 ? Real(0) : Real(yn * (yn - 1) * pow(xn, Real(yn - 2)));
         const Real x2ylogx = x2y * logx;
         return binary(x, y, x2y,
                       x2yixy,
                       x2ylogx,
-                      x2yixy * ix * (yn - 1),
+                      ddfdxdx,
                       x2ylogx * logx,
                       x2yix + x2yixy * logx);
     }
-- 
2.43.0


From 9bdd52edd003a50b466498ca9b2ac2fa72e52108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 10/21] fix: formatting numbers just below a power of ten
 failed an assertion

---
 uncertainties/io.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 034a9f4..0567a42 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -53,7 +53,11 @@ namespace uncertainties {
             using std::floor;
             using std::log10;
             using std::abs;
-            return int(floor(log10(abs(x))));
+            using std::pow;
+            const Real absx = abs(x);
+            const int e = int(floor(log10(absx)));
+            // just below a power of ten the logarithm may round up
+            return absx < pow(Real(10), e) ? e - 1 : e;
         }
         
         template<typename Real>
@@ -115,6 +119,10 @@ namespace uncertainties {
         std::string mantissa(const Real &x, const int n, int *const e) {
             const Real m = int_mantissa(x, n, *e);
             std::string s = int_mantissa_string(m);
+            if (n >= 2 and s.size() == n - 1) {
+                // x is equal to 10^e up to rounding
+                s = "1" + std::string(n - 1, '0');
+            }
             assert(s.size() == n or s.size() == n + 1 or (m == 0 and n < 0));
             if (n >= 1 and s.size() == n + 1) {
                 *e += 1;
-- 
2.43.0


From 7df359082e2444a5412fd6767840eda38468ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 11/21] fix: formatting very large or small numbers or many
 digits

The scale factor overflowed or underflowed, e.g. with 1e300 +/- 1e-10 or
1e-310 +/- 1e-310, failing assertions or looping forever.
---
 uncertainties/io.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 0567a42..0d0c3ca 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -43,6 +43,7 @@ significative digits, \f$ 1 \pm 0.31 \f$ is `"1.00 +/- 0.31"` while \f$ 1 \pm
 #include <cassert>
 #include <stdexcept>
 #include <algorithm>
+#include <limits>
 
 #include "core.hpp"
 
@@ -60,11 +61,22 @@ namespace uncertainties {
             return absx < pow(Real(10), e) ? e - 1 : e;
         }
         
+        // x * 10^p; 10^p can be out of range also when the result is not
+        template<typename Real>
+        Real scale10(Real x, int p) {
+            using std::pow;
+            const int max = std::numeric_limits<Real>::max_exponent10;
+            if (max > 0) {
+                for (; p > max; p -= max) x *= pow(Real(10), max);
+                for (; p < -max; p += max) x *= pow(Real(10), -max);
+            }
+            return x * pow(Real(10), p);
+        }
+        
         template<typename Real>
         Real int_mantissa(const Real &x, const int n, const int e) {
             using std::round;
-            using std::pow;
-            return round(x * pow(Real(10), n - 1 - e));
+            return round(scale10(x, n - 1 - e));
         }
         
         template<typename Real>
@@ -101,10 +113,11 @@ namespace uncertainties {
         
         template<typename Real>
         int ndigits(Real *const x, const float n) {
-            using std::pow;
             int ndig = naive_ndigits(*x, n);
             const int xexp = exponent(*x);
-            const Real rounded_x = int_mantissa(*x, ndig, xexp) * pow(Real(10), xexp - (ndig - 1));
+            const int max = std::numeric_limits<Real>::max_exponent10;
+            if (max > 0 and ndig > max) return ndig; // no rounding
+            const Real rounded_x = scale10(int_mantissa(*x, ndig, xexp), xexp - (ndig - 1));
             if (rounded_x > *x) {
                 const int rounded_ndig = naive_ndigits(rounded_x, n);
                 if (rounded_ndig > ndig) {
@@ -117,6 +130,11 @@ namespace uncertainties {
     
         template<typename Real>
         std::string mantissa(const Real &x, const int n, int *const e) {
+            const int max = std::numeric_limits<Real>::max_exponent10;
+            if (max > 0 and n > max) {
+                // the integer mantissa would be out of range
+                return mantissa(x, max, e) + std::string(n - max, '0');
+            }
             const Real m = int_mantissa(x, n, *e);
             std::string s = int_mantissa_string(m);
             if (n >= 2 and s.size() == n - 1) {
-- 
2.43.0


From 24cebc29048de15d4e63947a151819c57443b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 12/21] fix: reject NaN, infinite and out of range errdig in
 format

It was converted to int, which is undefined behaviour.
---
 uncertainties/io.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 0d0c3ca..83d85d6 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -179,9 +179,12 @@ namespace uncertainties {
     std::string format(const Number &x,
                        const float errdig,
                        const std::string &sep) {
-        if (errdig <= 1.0f) {
+        if (not (errdig > 1.0f)) {
             throw std::invalid_argument("uncertainties::format: errdig <= 1.0");
         }
+        if (errdig > float(std::numeric_limits<int>::max() / 2)) {
+            throw std::invalid_argument("uncertainties::format: errdig too large");
+        }
         const auto mu = nom(x);
         auto s = sdev(x);
         using std::isfinite;
-- 
2.43.0


From f1d768d669ebbf13403ee7f1a4565f9fcecc5e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 13/21] fix: inexact scaling by negative powers of ten in
 format

E.g. 0.999999999999 with errdig=11.001 rounded to 11 digits was slightly
less than 1, so it did not get the 12th digit.
---
 uncertainties/io.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/io.hpp b/uncertainties/io.hpp
index 83d85d6..d68320b 100644
--- a/uncertainties/io.hpp
+++ b/uncertainties/io.hpp
@@ -68,8 +68,9 @@ namespace uncertainties {
             const int max = std::numeric_limits<Real>::max_exponent10;
             if (max > 0) {
                 for (; p > max; p -= max) x *= pow(Real(10), max);
-                for (; p < -max; p += max) x *= pow(Real(10), -max);
+                for (; p < -max; p += max) x /= pow(Real(10), max);
             }
+            if (p < 0) return x / pow(Real(10), -p); // 10^p is not exact
             return x * pow(Real(10), p);
         }
         
-- 
2.43.0


From 7219da13611ee3fb396f104fc630d65f02b8012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 14/21] fix: ureals rejected singular covariance matrices and
 aborted on NaN

Because of rounding the decomposition of a singular positive semidefinite
matrix, e.g. with two identical or fully correlated variables, was often
found to be indefinite. With NaN in the matrix an assertion failed.
---
 uncertainties/ureals.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/uncertainties/ureals.hpp b/uncertainties/ureals.hpp
index 2ce5be6..5df2a00 100644
--- a/uncertainties/ureals.hpp
+++ b/uncertainties/ureals.hpp
@@ -32,7 +32,7 @@ this header.
 #include <cmath>
 #include <string>
 #include <sstream>
-#include <cassert>
+#include <limits>
 
 #include <Eigen/Dense>
 
@@ -95,7 +95,13 @@ namespace uncertainties {
                 V(i, j) = cov[i + n * j];
             }
         }
-        const Eigen::LDLT<Matrix> ldlt(V);
+        Eigen::LDLT<Matrix> ldlt(V);
+        if (ldlt.info() != Eigen::Success or not ldlt.isPositive()) {
+            // a singular matrix can seem indefinite because of rounding
+            const Real eps = std::numeric_limits<Real>::epsilon();
+            V.diagonal() *= Real(1 + 4 * Real(n) * eps);
+            ldlt.compute(V);
+        }
         if (ldlt.info() != Eigen::Success) {
             std::ostringstream ss;
             ss << "uncertainties::ureals: ";
@@ -113,7 +119,11 @@ namespace uncertainties {
         OutVector x;
         for (std::size_t i = 0; i < n; ++i) {
             const Real &v = D(i);
-            assert(v >= 0);
+            if (not (v >= 0)) {
+                throw std::runtime_error(
+                    "uncertainties::ureals: covariance matrix is not a number"
+                );
+            }
             using std::sqrt;
             x.emplace_back(0, sqrt(v));
         }
-- 
2.43.0


From e287a54619736087924a462056d4cc284b3a3243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:02 +0000
Subject: [PATCH 15/21] fix: NaN moments threshold failed an assertion instead
 of rejecting the moments

---
 uncertainties/internal/checkmoments.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/internal/checkmoments.hpp b/uncertainties/internal/checkmoments.hpp
index 061f91f..ae9880d 100644
--- a/uncertainties/internal/checkmoments.hpp
+++ b/uncertainties/internal/checkmoments.hpp
@@ -115,9 +115,9 @@ namespace uncertainties {
         void check_moments_throw(const std::array<Real, n> & moments,
                                  const Real &threshold) {
             static_assert(n == 6 or n == 7, "n != 6 and 7");
-            assert(threshold >= 0);
+            assert(not (threshold < 0));
             const Real cond = check_moments(moments);
-            if (cond < -threshold or cond > 0) {
+            if (not (cond >= -threshold) or cond > 0) {
                 std::ostringstream ss;
                 ss << "uncertainties::UReal2::UReal2: ";
                 if (n == 6) {
-- 
2.43.0


From d9027acbd3bd1697a272fec51acb55b8c4ce5428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:36 +0000
Subject: [PATCH 16/21] fix: derivative of fmod and remainder where the
 quotient is rounded

The number of periods was computed from the rounded quotient, which can be an
integer also if the exact one is less: fmod(1.0, 0.1) is 0.09999..., ten
periods were subtracted in the derivative but nine in the value.
---
 uncertainties/math.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 4907f9f..6ff32b8 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -47,13 +47,17 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> fmod(const UReal<Real> &x, const UReal<Real> &y) {
         using std::fmod;
-        return binary(x, y, fmod(x.n(), y.n()), 1, -trunc(x.n() / y.n()));
+        using std::round;
+        const Real m = fmod(x.n(), y.n());
+        // not trunc(x / y) because the quotient can be rounded to an integer
+        return binary(x, y, m, 1, -round(x.n() / y.n() - m / y.n()));
     }
     template<typename Real>
     UReal<Real> remainder(const UReal<Real> &x, const UReal<Real> &y) {
         using std::remainder;
         using std::round;
-        return binary(x, y, remainder(x.n(), y.n()), 1, -round(x.n() / y.n()));
+        const Real m = remainder(x.n(), y.n());
+        return binary(x, y, m, 1, -round(x.n() / y.n() - m / y.n()));
     }
     template<typename Real>
     UReal<Real> fmax(const UReal<Real> &x, const UReal<Real> &y) {
@@ -260,9 +264,11 @@ namespace uncertainties {
     template<typename Real, Prop prop>
     UReal2<Real, prop> fmod(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
         using std::fmod;
+        using std::round;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
-        return binary(x, y, fmod(xn, yn), 1, -trunc(xn / yn), 0, 0, 0);
+        const Real m = fmod(xn, yn);
+        return binary(x, y, m, 1, -round(xn / yn - m / yn), 0, 0, 0);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> remainder(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
@@ -270,7 +276,8 @@ namespace uncertainties {
         using std::round;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
-        return binary(x, y, remainder(xn, yn), 1, -round(xn / yn), 0, 0, 0);
+        const Real m = remainder(xn, yn);
+        return binary(x, y, m, 1, -round(xn / yn - m / yn), 0, 0, 0);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> fmax(const UReal2<Real, prop> &x, const UReal2<Real, prop> &y) {
-- 
2.43.0


From 677afbd2b2baadb379002e20f2ec31cce9b48389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:51 +0000
Subject: [PATCH 17/21] fix: derivatives of atan2, asinh, acosh and tanh null
 or infinite at large or small arguments

---
 uncertainties/math.hpp | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/uncertainties/math.hpp b/uncertainties/math.hpp
index 6ff32b8..bef50ca 100644
--- a/uncertainties/math.hpp
+++ b/uncertainties/math.hpp
@@ -177,9 +177,10 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> atan2(const UReal<Real> &x, const UReal<Real> &y) {
         using std::atan2;
-        const Real ixxyy = Real(1) / (x.n() * x.n() + y.n() * y.n());
-        const Real dx = y.n() * ixxyy;
-        const Real dy = -x.n() * ixxyy;
+        using std::hypot;
+        const Real h = hypot(x.n(), y.n());
+        const Real dx = y.n() / h / h;
+        const Real dy = -x.n() / h / h;
         return binary(x, y, atan2(x.n(), y.n()), dx, dy);
     }
     template<typename Real>
@@ -197,20 +198,21 @@ namespace uncertainties {
     template<typename Real>
     UReal<Real> tanh(const UReal<Real> &x) {
         using std::tanh;
-        const Real t = tanh(x.n());
-        return unary(x, t, Real(1) - t * t);
+        using std::cosh;
+        const Real c = cosh(x.n());
+        return unary(x, tanh(x.n()), Real(1) / c / c);
     }
     template<typename Real>
     UReal<Real> asinh(const UReal<Real> &x) {
         using std::asinh;
-        using std::sqrt;
-        return unary(x, asinh(x.n()), Real(1) / sqrt(x.n() * x.n() + 1));
+        using std::hypot;
+        return unary(x, asinh(x.n()), Real(1) / hypot(x.n(), Real(1)));
     }
     template<typename Real>
     UReal<Real> acosh(const UReal<Real> &x) {
         using std::acosh;
         using std::sqrt;
-        return unary(x, acosh(x.n()), Real(1) / sqrt(x.n() * x.n() - 1));
+        return unary(x, acosh(x.n()), Real(1) / sqrt(x.n() - 1) / sqrt(x.n() + 1));
     }
     template<typename Real>
     UReal<Real> atanh(const UReal<Real> &x) {
@@ -454,19 +456,17 @@ namespace uncertainties {
         using std::atan2;
         const Real &xn = x.first_order_n();
         const Real &yn = y.first_order_n();
-        const Real x2 = xn * xn;
-        const Real y2 = yn * yn;
-        const Real xxyy = x2 + y2;
-        const Real ixxyy = 1 / xxyy;
-        const Real xixxyy = xn * ixxyy;
-        const Real yixxyy = yn * ixxyy;
+        using std::hypot;
+        const Real h = hypot(xn, yn);
+        const Real xixxyy = xn / h / h;
+        const Real yixxyy = yn / h / h;
         const Real xy2ixxyy2 = 2 * xixxyy * yixxyy;
         return binary(x, y, atan2(xn, yn),
                       yixxyy,
                       -xixxyy,
                       -xy2ixxyy2,
                       xy2ixxyy2,
-                      (x2 - y2) * ixxyy * ixxyy);
+                      (xixxyy - yixxyy) * (xixxyy + yixxyy));
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> sinh(const UReal2<Real, prop> &x) {
@@ -488,27 +488,27 @@ namespace uncertainties {
     UReal2<Real, prop> tanh(const UReal2<Real, prop> &x) {
         using std::tanh;
         const Real &xn = x.first_order_n();
+        using std::cosh;
         const Real t = tanh(xn);
-        const Real tt1 = 1 - t * t;
+        const Real c = cosh(xn);
+        const Real tt1 = 1 / c / c;
         return unary(x, t, tt1, -2 * t * tt1);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> asinh(const UReal2<Real, prop> &x) {
         using std::asinh;
-        using std::sqrt;
+        using std::hypot;
         const Real &xn = x.first_order_n();
-        const Real i1xx = 1 / (1 + xn * xn);
-        const Real sqrti1xx = sqrt(i1xx);
-        return unary(x, asinh(xn), sqrti1xx, -xn * i1xx * sqrti1xx);
+        const Real sqrti1xx = 1 / hypot(xn, Real(1));
+        return unary(x, asinh(xn), sqrti1xx, -xn * sqrti1xx * sqrti1xx * sqrti1xx);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> acosh(const UReal2<Real, prop> &x) {
         using std::acosh;
         using std::sqrt;
         const Real &xn = x.first_order_n();
-        const Real ixx1 = 1 / (xn * xn - 1);
-        const Real sqrtixx1 = sqrt(ixx1);
-        return unary(x, acosh(xn), sqrtixx1, -xn * ixx1 * sqrtixx1);
+        const Real sqrtixx1 = 1 / sqrt(xn - 1) / sqrt(xn + 1);
+        return unary(x, acosh(xn), sqrtixx1, -xn * sqrtixx1 * sqrtixx1 * sqrtixx1);
     }
     template<typename Real, Prop prop>
     UReal2<Real, prop> atanh(const UReal2<Real, prop> &x) {
-- 
2.43.0


From af3593a9fee0b3a51675d40c06e8b58d2f9980b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:00 +0000
Subject: [PATCH 18/21] fix: derivatives of the quotient of UReal2 null or
 infinite for large or small denominators

---
 uncertainties/ureal2.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/uncertainties/ureal2.hpp b/uncertainties/ureal2.hpp
index 62af817..557526e 100644
--- a/uncertainties/ureal2.hpp
+++ b/uncertainties/ureal2.hpp
@@ -1024,11 +1024,11 @@ namespace uncertainties {
             const Real xn = x.first_order_n();
             const Real yn = y.first_order_n();
             const Real invy = 1 / yn;
-            const Real invy2 = invy * invy;
+            const Real mu = xn / yn;
             return binary(x, y,
-                          xn / yn,
-                          invy, -xn * invy2,
-                          0, 2 * xn * invy2 * invy, -invy2);
+                          mu,
+                          invy, -mu * invy,
+                          0, 2 * mu * invy * invy, -invy * invy);
         }
 
         template<typename Predicate>
-- 
2.43.0


From b9a491b1fc8913efeeb8a53d59a5ebef73de9947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 19/21] fix: identities wrapped around after 2^31 - 1
 independent variables, losing the covariances

---
 uncertainties/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.hpp b/uncertainties/core.hpp
index 196a4ae..562386e 100644
--- a/uncertainties/core.hpp
+++ b/uncertainties/core.hpp
@@ -32,7 +32,7 @@ namespace uncertainties {
     /*!
     \brief Type of independent variables ids.
     */
-    using Id = int; // must be signed
+    using Id = long long; // must be signed
     
     /*!
     \brief Constant returned by `UReal::indepid` if the variable is dependent.
-- 
2.43.0


From 65899ff4ff8cd6948d05086b5a4039dc9255a71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 20/21] fix: cov_matrix, corr_matrix of pointers and corr2cov
 of forward-iterable containers did not compile

---
 uncertainties/stat.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/uncertainties/stat.hpp b/uncertainties/stat.hpp
index 1fb13bc..c858d66 100644
--- a/uncertainties/stat.hpp
+++ b/uncertainties/stat.hpp
@@ -114,7 +114,7 @@ namespace uncertainties {
     */
     template<typename InputIt, typename OutputIt>
     OutputIt cov_matrix(InputIt begin, InputIt end, OutputIt matrix) {
-        using Type = typename InputIt::value_type;
+        using Type = typename std::iterator_traits<InputIt>::value_type;
         return internal::outer(begin, end, matrix, [](const Type &x, const Type &y) {
             return cov(x, y);
         });
@@ -147,7 +147,7 @@ namespace uncertainties {
     */
     template<typename InputIt, typename OutputIt>
     OutputIt corr_matrix(InputIt begin, InputIt end, OutputIt matrix) {
-        using Type = typename InputIt::value_type;
+        using Type = typename std::iterator_traits<InputIt>::value_type;
         return internal::outer(begin, end, matrix, [](const Type &x, const Type &y) {
             return corr(x, y);
         });
@@ -194,9 +194,13 @@ namespace uncertainties {
             );
         }
         OutVector cov(n * n);
-        for (Index i = 0; i < n; ++i) {
-            for (Index j = 0; j < n; ++j) {
-                cov[n * i + j] = sigma[i] * sigma[j] * corr[n * i + j];
+        Index k = 0;
+        auto c = std::begin(corr);
+        for (const auto &si : sigma) {
+            for (const auto &sj : sigma) {
+                cov[k] = si * sj * *c;
+                ++k;
+                ++c;
             }
         }
         return cov;
-- 
2.43.0


From 9bc5768a47df38d2da9512aab915261c151f941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 21/21] fix: ureals did not compile for output containers with
 push_back but no size constructor or subscript

---
 uncertainties/ureals.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/uncertainties/ureals.hpp b/uncertainties/ureals.hpp
index 5df2a00..09709bc 100644
--- a/uncertainties/ureals.hpp
+++ b/uncertainties/ureals.hpp
@@ -33,6 +33,8 @@ this header.
 #include <string>
 #include <sstream>
 #include <limits>
+#include <utility>
+#include <vector>
 
 #include <Eigen/Dense>
 
@@ -116,7 +118,7 @@ namespace uncertainties {
         }
         const auto L = ldlt.matrixL();
         const auto D = ldlt.vectorD();
-        OutVector x;
+        std::vector<UType> x;
         for (std::size_t i = 0; i < n; ++i) {
             const Real &v = D(i);
             if (not (v >= 0)) {
@@ -127,7 +129,7 @@ namespace uncertainties {
             using std::sqrt;
             x.emplace_back(0, sqrt(v));
         }
-        OutVector out(n);
+        std::vector<UType> out(n);
         for (std::size_t i = 0; i < n; ++i) {
             UType &y = out[i];
             for (std::size_t j = 0; j < i; ++j) { // L is lower triangular
@@ -143,7 +145,11 @@ namespace uncertainties {
         for (std::size_t i = 0; i < n; ++i) {
             out[i] += mu[i];
         }
-        return out;
+        OutVector result;
+        for (auto &y : out) {
+            result.push_back(std::move(y));
+        }
+        return result;
     }
 }
 
-- 
2.43.0

