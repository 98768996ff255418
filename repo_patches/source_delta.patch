From 441449572899f2a690c7fff6317cc5eb1f0144a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:33 +0000
Subject: [PATCH 01/86] fix: round the quotient of an interval and a number
 outwards

1.0/other was rounded to nearest before the multiplication, so X / c did
not have to contain {x / c}.
---
 intvalpy/kernel/interval_arithmetics.pyx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6751af6..22662ab 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -463,6 +463,12 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            return self.__truediv__(ClassicalArithmetic(other, other))
+
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+
         else:
             return 1.0/other * self
     
@@ -614,8 +620,14 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = 1.0/other.a
             return self.__mul__(KaucherArithmetic(inf, sup))
         
+        elif isinstance(other, Number):
+            return self.__truediv__(ClassicalArithmetic(other, other))
+
+        elif isinstance(other, np.ndarray):
+            return np.vectorize(lambda o: self / o)(other)
+
         else:
-            return 1/other * self
+            return 1.0/other * self
     
     def __pow__(self, other): #TODO, debug
         cdef double_t inf, sup
-- 
2.43.0


From 2a4a0b3bb30179f47d8a005e5c26d795fe30350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 02/86] fix: round integer products and narrow float scalars
 outwards

Products of integer endpoints were exact Python integers, rounded to
nearest when stored; float32 scalars pulled the operation down to single
precision.
---
 intvalpy/kernel/interval_arithmetics.pyx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 22662ab..0a1a7f3 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -413,14 +413,17 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __mul__(self, other):
         cdef double_t inf, sup
+        cdef object c, d
         cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
         cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
+            # float(): the product of integer endpoints would be rounded to nearest on conversion
+            c, d = float(other.a), float(other.b)
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a * other.a, self.a * other.b, self.b * other.a, self.b * other.b)
+                inf = min(self.a * c, self.a * d, self.b * c, self.b * d)
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a * other.a, self.a * other.b, self.b * other.a, self.b * other.b)
+                sup = max(self.a * c, self.a * d, self.b * c, self.b * d)
             return ClassicalArithmetic(inf, sup)
         
         elif isinstance(other, KaucherArithmetic):
@@ -490,6 +493,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __radd__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = float(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other
             with RoundingContext(FE_UPWARD):
@@ -502,6 +506,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __rsub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = float(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = other - self.b
             with RoundingContext(FE_UPWARD):
@@ -513,6 +518,7 @@ cdef class ClassicalArithmetic(BaseTools):
     def __rmul__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = float(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = min(other * self.a, other * self.b)
             with RoundingContext(FE_UPWARD):
@@ -653,6 +659,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __radd__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = float(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = self.a + other
             with RoundingContext(FE_UPWARD):
@@ -664,6 +671,7 @@ cdef class KaucherArithmetic(BaseTools):
     def __rsub__(self, other):
         cdef double_t inf, sup
         if isinstance(other, Number):
+            other = float(other)
             with RoundingContext(FE_DOWNWARD):
                 inf = other - self.b
             with RoundingContext(FE_UPWARD):
@@ -678,6 +686,7 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, Number):
+            other = float(other)
             selfInfPlus = max(self.a, 0.0)
             selfSupPlus = max(self.b, 0.0)
             selfInfMinus = selfInfPlus - self.a
-- 
2.43.0


From b64a07354ef3d74e6fc23b2535605b8310b7b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 03/86] fix: multiply by a Kaucher interval with the Kaucher
 formula

ClassicalArithmetic * KaucherArithmetic added the two products of each
Lakeyev term where the maximum is meant, so the result depended on which
class held the operand and on the order of the operands.
---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 0a1a7f3..b6550fe 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -438,9 +438,9 @@ cdef class ClassicalArithmetic(BaseTools):
             otherSupMinus = otherSupPlus - other.b
             
             with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
+                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
             with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
             return KaucherArithmetic(inf, sup)
         
         else:
-- 
2.43.0


From 2754357f52846b88284dadb28fd2fb5223245c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 04/86] fix: reject division by improper intervals that contain
 zero

[1, -1] passed the zero check, and number / interval through NumPy scalars
had no check at all, so the quotient was a meaningless interval.
---
 intvalpy/kernel/interval_arithmetics.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index b6550fe..b06f5c8 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -363,11 +363,9 @@ cdef class BaseTools:
             return self.__rmul__(args[2])
 
         elif args[0].__name__ in ['true_divide', 'divide']:
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1/self.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1/self.a
-            return type(self)(inf, sup).__rmul__(args[2])
+            if isinstance(args[2], Number):
+                return self.__rtruediv__(args[2])
+            return np.vectorize(lambda o: o / self)(args[2])
 
         elif args[0].__name__ in ['sqrt']: 
             return self.sqrt()
@@ -458,7 +456,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -618,7 +616,7 @@ cdef class KaucherArithmetic(BaseTools):
             return KaucherArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-            if 0.0 in other:
+            if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
             with RoundingContext(FE_DOWNWARD):
                 inf = 1.0/other.b
@@ -707,7 +705,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rtruediv__(self, other):
         cdef double_t inf, sup
-        if 0.0 in self:
+        if 0.0 in self.pro:
             raise ValueError('It is impossible to divide by zero containing intervals!')
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
-- 
2.43.0


From e6b6a98731754035c2763a18f62ffa0eede78ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 05/86] fix: keep exp() an enclosure when an endpoint overflows

exp of an interval whose upper end overflows was [inf, inf], and an infinite
upper end was rounded 'up' to the largest finite number.
---
 intvalpy/kernel/interval_arithmetics.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index b06f5c8..b854120 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -51,11 +51,11 @@ cdef class RoundingContext:
 
 
 cdef double round_down(double x) nogil:
-    return nextafter(x, -DBL_MAX)
+    return nextafter(x, NEGINF)
 
 
 cdef double round_up(double x) nogil:
-    return nextafter(x, DBL_MAX)    
+    return nextafter(x, INF)
 #######################################################################################
 
 
@@ -259,10 +259,13 @@ cdef class BaseTools:
         cdef double_t inf, sup
         try:
             inf = round_down(math.exp(self.a))
+        except OverflowError:
+            inf = DBL_MAX
+        try:
             sup = round_up(math.exp(self.b))
-            return type(self)(inf, sup)
         except OverflowError:
-            return type(self)(INF, INF)
+            sup = INF
+        return type(self)(inf, sup)
 
     def log(self):
         cdef double_t inf, sup
-- 
2.43.0


From 700f68c29f1b1d69553e241fc2e28118b5c6fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:21 +0000
Subject: [PATCH 06/86] fix: round natural powers of an interval outwards

libm's pow ignores the rounding direction (for negative bases it rounds the
wrong way), so X ** n did not have to contain x ** n; X ** 0 was [0, 1] for X
containing zero.
---
 intvalpy/kernel/interval_arithmetics.pyx | 67 ++++++++++++++++--------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index b854120..cccffba 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -56,6 +56,44 @@ cdef double round_down(double x) nogil:
 
 cdef double round_up(double x) nogil:
     return nextafter(x, INF)
+
+
+cdef object _pow_positive(object x, object n, int mode):
+    """x ** n for x >= 0, every product rounded in the given direction."""
+    cdef object result = 1.0
+    with RoundingContext(mode):
+        while n:
+            if n & 1:
+                result = result * x
+            n >>= 1
+            if n:
+                x = x * x
+    return result
+
+
+cdef object _pow_down(object x, object n):
+    if x < 0 and n & 1:
+        return -_pow_positive(-x, n, FE_UPWARD)
+    return _pow_positive(abs(x), n, FE_DOWNWARD)
+
+
+cdef object _pow_up(object x, object n):
+    if x < 0 and n & 1:
+        return -_pow_positive(-x, n, FE_DOWNWARD)
+    return _pow_positive(abs(x), n, FE_UPWARD)
+
+
+cdef object _pow_endpoints(object a, object b, object n):
+    """Endpoints of [a, b] ** n, where n is a natural number or zero."""
+    a, b = <object> float(a), <object> float(b)
+    if n & 1 or n == 0 or (a >= 0 and b >= 0):
+        return _pow_down(a, n), _pow_up(b, n)
+    elif a <= 0 and b <= 0:
+        return (_pow_down(b, n), _pow_up(a, n)) if a <= b else (_pow_down(a, n), _pow_up(b, n))
+    elif a <= b:
+        return 0.0, max(_pow_up(a, n), _pow_up(b, n))
+    else:
+        return max(_pow_down(a, n), _pow_down(b, n)), 0.0
 #######################################################################################
 
 
@@ -477,15 +515,10 @@ cdef class ClassicalArithmetic(BaseTools):
             return 1.0/other * self
     
     def __pow__(self, other):
+        cdef double_t inf, sup
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a ** other, self.b ** other)
-            with RoundingContext(FE_UPWARD):
-                sup = max(self.a ** other, self.b ** other)
-            if (other % 2 == 0) and (0 in self):
-                return ClassicalArithmetic(0.0, sup)
-            else:
-                return ClassicalArithmetic(inf, sup)
+            inf, sup = _pow_endpoints(self.a, self.b, int(other))
+            return ClassicalArithmetic(inf, sup)
         elif self >= 0:
             return np.exp(other * np.log(self))
         else:
@@ -636,22 +669,14 @@ cdef class KaucherArithmetic(BaseTools):
         else:
             return 1.0/other * self
     
-    def __pow__(self, other): #TODO, debug
+    def __pow__(self, other):
         cdef double_t inf, sup
         if isinstance(other, (int, np.int_)) and other >= 0:
-            with RoundingContext(FE_DOWNWARD):
-                inf = self.a ** other
-            with RoundingContext(FE_UPWARD):
-                sup = self.b ** other
-            if (other % 2 == 0) and (0 in self):
-                return ClassicalArithmetic(0.0, max(inf, sup))
-            elif (other % 2 == 0) and (0 in self.pro):
-                return KaucherArithmetic(max(inf, sup), 0.0)
+            inf, sup = _pow_endpoints(self.a, self.b, int(other))
+            if inf > sup:
+                return KaucherArithmetic(inf, sup)
             else:
-                if inf > sup:
-                    return KaucherArithmetic(inf, sup)
-                else:
-                    return ClassicalArithmetic(inf, sup)
+                return ClassicalArithmetic(inf, sup)
         elif self >= 0:
             return np.exp(other * np.log(self))
         else:
-- 
2.43.0


From 169b10f489e3b1a52ef34910b3b7ee17b417ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 07/86] fix: find the extrema of sin and cos for large
 arguments

The quotients locating the extrema carry the rounding error of the argument
reduction; beyond 1e9 the maximum or minimum could be missed.
---
 intvalpy/kernel/interval_arithmetics.pyx | 26 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index cccffba..aee6ff3 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -58,6 +58,16 @@ cdef double round_up(double x) nogil:
     return nextafter(x, INF)
 
 
+cdef bint _hits(double a, double b, double point):
+    """
+    May the interval [a, b] contain one of the points  point + 2*PI*k ?
+    The quotients are widened by the error of the reduction, which grows with the argument.
+    """
+    cdef double left = (a - point) / (2*PI)
+    cdef double right = (b - point) / (2*PI)
+    return ceil(left - 1e-15*(1 + fabs(left))) <= floor(right + 1e-15*(1 + fabs(right)))
+
+
 cdef object _pow_positive(object x, object n, int mode):
     """x ** n for x >= 0, every product rounded in the given direction."""
     cdef object result = 1.0
@@ -333,26 +343,26 @@ cdef class BaseTools:
 
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if _hits(x.a, x.b, -PI/2):
                     inf = -1
                 else:
                     inf = round_down(min(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if _hits(x.a, x.b, PI/2):
                     sup = 1
                 else:
                     sup = round_up(max(sin_inf, sin_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI/2) / (2*PI)) <= floor((x.b - PI/2) / (2*PI)):
+                if _hits(x.a, x.b, PI/2):
                     sup = 1
                 else:
                     sup = round_down(max(sin_inf, sin_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a + PI/2) / (2*PI)) <= floor((x.b + PI/2) / (2*PI)):
+                if _hits(x.a, x.b, -PI/2):
                     inf = -1
                 else:
                     inf = round_up(min(sin_inf, sin_sup))
@@ -366,26 +376,26 @@ cdef class BaseTools:
         
         if self.a <= self.b:
             with RoundingContext(FE_DOWNWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if _hits(x.a, x.b, PI):
                     inf = -1
                 else:
                     inf = round_down(min(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if _hits(x.a, x.b, 0.0):
                     sup = 1
                 else:
                     sup = round_up(max(cos_inf, cos_sup))
             return type(self)(inf, sup)
         else:
             with RoundingContext(FE_DOWNWARD):
-                if ceil(x.a / (2*PI)) <= floor(x.b / (2*PI)):
+                if _hits(x.a, x.b, 0.0):
                     sup = 1
                 else:
                     sup = round_down(max(cos_inf, cos_sup))
 
             with RoundingContext(FE_UPWARD):
-                if ceil((x.a - PI) / (2*PI)) <= floor((x.b - PI) / (2*PI)):
+                if _hits(x.a, x.b, PI):
                     inf = -1
                 else:
                     inf = round_up(min(cos_inf, cos_sup))
-- 
2.43.0


From ebf8aaafdc9197710f3a045b4699fc316442f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 08/86] fix: Interval(4) builds the degenerate interval it
 documents

---
 intvalpy/kernel/real_intervals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index d00ecba..9e98409 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -461,11 +461,11 @@ def Interval(*args, sortQ=True, midRadQ=False):
     else:
         if isinstance(args[0], INTERVAL_CLASSES):
             return args[0]
+        elif isinstance(args[0], single_type):
+            return SingleInterval(args[0], args[0], sortQ=sortQ)
         elif len(args[0]) == 2:
             if isinstance(args[0][0], single_type) and isinstance(args[0][1], single_type):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
-        elif isinstance(args[0], single_type):
-            return SingleInterval(args[0], args[0], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
 
     return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
-- 
2.43.0


From 408ae565b7c1a09a6281dbedaa01d558c42bd1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 09/86] fix: intersection() converts its operands as documented

---
 intvalpy/kernel/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index 6e977b1..ab4d7bf 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -132,6 +132,7 @@ def intersection(x, y):
         else:
             return Interval(nan, nan)
 
+    x, y = asinterval(x), asinterval(y)
     if isinstance(x, ArrayInterval) and isinstance(y, ArrayInterval):
         assert x.shape == y.shape, 'Не совпадают размерности входных массивов!'
         return ArrayInterval(np.vectorize(intersect)(x.data, y.data))
-- 
2.43.0


From bc2069ae042aabb36c86d22e66556cd164acfbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 10/86] fix: supercontain() compares element by element, as
 contain() does

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 3f7a3e5..1c21ae5 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -198,4 +198,4 @@ proper_subset = lambda a, b: np.array(((a.a > b.a) & (a.b < b.b)), dtype=np.bool
 proper_superset = lambda a, b: proper_subset(b, a)
 
 contain = lambda a, b: np.array(((a.a >= b.a) & (a.b <= b.b)), dtype=np.bool)
-supercontain = lambda a, b: subset(b, a)
+supercontain = lambda a, b: contain(b, a)
-- 
2.43.0


From 8e42343e14935f9591345b84ee367d33254ff789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 11/86] fix: reversed() of an interval array

---
 intvalpy/kernel/real_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 9e98409..fd5f7ff 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -146,7 +146,7 @@ class ArrayInterval:
         return ArrayInterval(-self._data)
 
     def __reversed__(self):
-        return iter(self.storage[::-1])
+        return iter(self._data[::-1])
 
     def __abs__(self):
         """Range of absolute value."""
-- 
2.43.0


From 753275a997c79214c48a385e19b36ae747f742bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 12/86] fix: del A[key] for slices, index lists and NumPy
 integers

---
 intvalpy/kernel/real_intervals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index fd5f7ff..21b5a11 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -2,7 +2,7 @@
 
 import math
 from mpmath import mp, mpf
-from numbers import Number
+from numbers import Integral, Number
 
 import itertools
 
@@ -229,12 +229,12 @@ class ArrayInterval:
                 self._data[key] = ArrayInterval(np.vectorize(lambda v: SingleInterval(v, v))(value))._data
 
     def __delitem__(self, key):
-        if isinstance(key, int):
+        if isinstance(key, (Integral, slice, list, np.ndarray)):
             self._data = np.delete(self._data, key, axis=0)
             self._shape = self._data.shape
             self._ndim = self._data.ndim
             self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
-        elif isinstance(key, (slice, tuple, list, np.ndarray)):
+        elif isinstance(key, tuple):
             self._data = np.delete(self._data, key[-1], axis=len(key)-1)
             self._shape = self._data.shape
             self._ndim = self._data.ndim
-- 
2.43.0


From c759167d56b0d98b1607413de71abcab1edc0712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 13/86] fix: keep shape, ndim and ranges in step after in-place
 operations

---
 intvalpy/kernel/real_intervals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 21b5a11..95a86b7 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -305,19 +305,19 @@ class ArrayInterval:
             return ArrayInterval(matmul)
 
     def __iadd__(self, other):
-        self._data = np.array(self._data + other)
+        self.__init__((self + other)._data)
         return self
 
     def __isub__(self, other):
-        self._data = np.array(self._data - other)
+        self.__init__((self - other)._data)
         return self
 
     def __imul__(self, other):
-        self._data = np.array(self._data * other)
+        self.__init__((self * other)._data)
         return self
 
     def __itruediv__(self, other):
-        self._data = np.array(self._data / other)
+        self.__init__((self / other)._data)
         return self
 
     def __array_ufunc__(self, *args):
-- 
2.43.0


From 25b38bb7d48c8481a1f1b1cbde94dbdddecf80ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:10 +0000
Subject: [PATCH 14/86] fix: NumPy functions with an interval as first operand

np.add(X, 2) ignored its second argument and returned X + X; for interval
arrays it raised TypeError.
---
 intvalpy/kernel/interval_arithmetics.pyx | 12 ++++++++++--
 intvalpy/kernel/real_intervals.py        |  7 +++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index aee6ff3..29a35fa 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -8,6 +8,7 @@ from numbers import Number
 cimport cython
 
 import math
+import operator
 cimport cython
 from libc.math cimport nextafter, nexttoward
 from libc.float cimport DBL_MAX, DBL_MIN
@@ -23,6 +24,11 @@ cdef double PI = 3.14159265358979323846
 cdef double INF = float('inf')
 cdef double NEGINF = float('-inf')
 ARITHMETICS = (ClassicalArithmetic, KaucherArithmetic)
+# NumPy functions that get an interval as the first of two operands
+BINARY_UFUNCS = {
+    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul,
+    'divide': operator.truediv, 'true_divide': operator.truediv, 'matmul': operator.matmul
+}
 
 
 #######################################################################################
@@ -403,8 +409,10 @@ cdef class BaseTools:
 
 
     def __array_ufunc__(self, *args):
-        cdef double_t inf, sup
-        if args[0].__name__ in ['add']:
+        if len(args) == 4 and isinstance(args[2], BaseTools) and args[0].__name__ in BINARY_UFUNCS:
+            return BINARY_UFUNCS[args[0].__name__](args[2], args[3])
+
+        elif args[0].__name__ in ['add']:
             return self.__radd__(args[2])
 
         elif args[0].__name__ in ['subtract']:
diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 95a86b7..f7103eb 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -6,7 +6,7 @@ from numbers import Integral, Number
 
 import itertools
 
-from .interval_arithmetics import ARITHMETICS, ClassicalArithmetic, KaucherArithmetic
+from .interval_arithmetics import ARITHMETICS, ClassicalArithmetic, KaucherArithmetic, BINARY_UFUNCS
 
 
 class ArrayInterval:
@@ -321,7 +321,10 @@ class ArrayInterval:
         return self
 
     def __array_ufunc__(self, *args):
-        if args[0].__name__ in ['add']:
+        if len(args) == 4 and isinstance(args[2], INTERVAL_CLASSES) and args[0].__name__ in BINARY_UFUNCS:
+            return BINARY_UFUNCS[args[0].__name__](args[2], args[3])
+
+        elif args[0].__name__ in ['add']:
             return ArrayInterval(self._data + args[2])
 
         elif args[0].__name__ in ['subtract']:
-- 
2.43.0


From b8746e90273b90de6ab2468253d31d968a61e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 15/86] fix: inv of a zero-containing improper interval stays
 improper

It was returned as a ClassicalArithmetic with swapped endpoints, on which the
proper-interval formulas then worked.
---
 intvalpy/kernel/interval_arithmetics.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 29a35fa..6ff21d2 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -228,7 +228,7 @@ cdef class BaseTools:
             inf = 1.0/self.a
         with RoundingContext(FE_UPWARD):
             sup = 1.0/self.b
-        if self.b <= self.a:
+        if inf <= sup:
             return ClassicalArithmetic(inf, sup)
         else:
             return KaucherArithmetic(inf, sup)
-- 
2.43.0


From d93972d59275b6dc3b8bd76f4809bf6788bedd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:36 +0000
Subject: [PATCH 16/86] fix: add the to_float() that interval arrays and the
 nonlinear solvers call

HansenSengupta and Krawczyk raised AttributeError on every system.
---
 intvalpy/kernel/interval_arithmetics.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 6ff21d2..cd303cd 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -172,6 +172,9 @@ cdef class BaseTools:
         else:
             return self
     
+    def to_float(self):
+        return type(self)(float(self.a), float(self.b))
+    
     @property
     def wid(self):
         """Width of the non-empty interval."""
-- 
2.43.0


From c5eed9e3c2a3b964c74e4c411fae45e10af3ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 17/86] fix: eliminate with the outer product in Gauss

r[i] * A[j, k] was computed element by element as r[k] * A[j, k], so from
three unknowns on the result did not enclose the solution set (and neither
did PSS and PPS, which start from it).
---
 intvalpy/linear/Gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 55f2513..76cdeb5 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -43,7 +43,7 @@ def Gauss(A, b):
 
         # transformations of the forward step of the Gauss method
         r[j+1:, j] = A[j+1:, j]/A[j, j]
-        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j] * A[j, j+1:]
+        A[j+1:, j+1:] = A[j+1:, j+1:] - r[j+1:, j:j+1] * A[j:j+1, j+1:]
         b[j+1:] = b[j+1:] - r[j+1:, j] * b[j]
 
     # backward step of the Gauss method
-- 
2.43.0


From a147fab5464802c97d056670ec21e42cfafaab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 18/86] fix: HBR accepts H-matrices only

The test passed as soon as one component of the vector was positive; the
procedure then returned a box that does not enclose the solution set.
---
 intvalpy/linear/HBR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index dda456d..d585a4f 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -39,7 +39,7 @@ def HBR(A, b):
     B = np.linalg.inv(np.array(A, dtype=np.float64))
     v = abs(B @ np.ones(n))
     u = A @ v
-    assert (u > 0).any(), 'Matrix of the system not an H-matrix'
+    assert (u > 0).all(), 'Matrix of the system not an H-matrix'
 
     # проводим процедуру Хансена-Блика-Рона
     dAc = np.diag(A)
-- 
2.43.0


From 64e4a29a20d6bc8291229b8c60b2c34dca3a4d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 19/86] fix: PSS returns the best estimate when no box is left
 to split

With every remaining box at or above the record the work list is empty, and
the estimate is the record itself; PSS raised IndexError.
---
 intvalpy/linear/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 166ef6b..6bbfd78 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -302,7 +302,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
                     Q, q, Ar = L[item]
                     break
                 except IndexError:
-                    return L[0][1]
+                    return L[0][1] if L else omega
                 except:
                     item += 1
 
-- 
2.43.0


From 43dd248533a05f07c8344edd00ec085bd6d4f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 20/86] fix: PSS handles coefficients that are exactly zero

Dividing by the zero coefficient of a decoupled row raised ZeroDivisionError;
such a row has no solution when its right-hand side excludes zero.
---
 intvalpy/linear/PSS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 6bbfd78..0a37c1e 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -7,7 +7,7 @@ cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
 
 from ..kernel.real_intervals import Interval
 from ..kernel.preprocessing import intersection
-from ..kernel.utils import infinity
+from ..kernel.utils import infinity, nan
 from .Rohn import Rohn
 from .Gauss import Gauss
 
@@ -84,6 +84,8 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
         if 0 in a:
             return Interval(-infinity, infinity, sortQ=False)
+        elif b.a == 0 and b.b == 0:
+            return Interval(nan, nan, sortQ=False)
         elif a.b<0:
             return kdiv_result[num_func](a, b)
         elif 0<a.a:
-- 
2.43.0


From 80e38ace9ea5af50156431be770534f902b3e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 21/86] fix: PSS looks at an orthant when the start box touches
 zero

With an endpoint of the start box equal to zero its sign zeroed the objective
of the linear program, so the estimate was not optimal.
---
 intvalpy/linear/PSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 0a37c1e..5e95637 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -165,7 +165,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         return np.array(result['x']).reshape(c.shape[0])
 
     def ExactOmega(midA, radA, b, Q):
-        S = np.eye(m) * np.insert(np.sign(Q.a), _nu, np.sign(V[_nu].a))
+        S = np.eye(m) * np.insert(np.sign(Q.a), _nu, np.sign(V[_nu].a) or 1)
         midAS = midA @ S
 
         p[:m] = np.insert(-Q.a, _nu, 1e15)
@@ -189,7 +189,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         except Exception:
             pass
 
-        S[_nu, _nu] = np.sign(V[_nu].b)
+        S[_nu, _nu] = np.sign(V[_nu].b) or 1
         midAS = midA @ S
 
         c[_nu] = S[_nu, _nu]
-- 
2.43.0


From dd24e71939bf786b93e994683d72e9d5f82ae89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 22/86] fix: PPS takes no sign from derivatives that are
 identically zero

The sign recorded for a zero derivative was used to deduce the signs of other
elements, and the estimate missed part of the solution set.
---
 intvalpy/linear/PPS.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index a4042c5..585a5e6 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -201,15 +201,19 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
 
             index_upper_zero, index_lower_zero = dQ >= 0, dQ <= 0
             if index_upper_zero.any():
-                L[0].Q[index_upper_zero], L[0].W[index_upper_zero] = L[0].Q[index_upper_zero].a, 1
+                L[0].Q[index_upper_zero] = L[0].Q[index_upper_zero].a
+                L[0].W[index_upper_zero & ~index_lower_zero] = 1
             if index_lower_zero.any():
-                L[0].Q[index_lower_zero], L[0].W[index_lower_zero] = L[0].Q[index_lower_zero].b, -1
+                L[0].Q[index_lower_zero] = L[0].Q[index_lower_zero].b
+                L[0].W[index_lower_zero & ~index_upper_zero] = -1
 
             index_upper_zero, index_lower_zero = L[0].Y[nu] >= 0, L[0].Y[nu] <= 0
             if index_upper_zero.any():
-                L[0].r[index_upper_zero], L[0].s[index_upper_zero] = L[0].r[index_upper_zero].a, -1
+                L[0].r[index_upper_zero] = L[0].r[index_upper_zero].a
+                L[0].s[index_upper_zero & ~index_lower_zero] = -1
             if index_lower_zero.any():
-                L[0].r[index_lower_zero], L[0].s[index_lower_zero] = L[0].r[index_lower_zero].b, 1
+                L[0].r[index_lower_zero] = L[0].r[index_lower_zero].b
+                L[0].s[index_lower_zero & ~index_upper_zero] = 1
 
 
             #############################################################################################
-- 
2.43.0


From 875c5c0532d007db3f6a7f8a19590948f3d0e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 23/86] fix: PPS for a point matrix

No step is needed then, and the result was an unbound variable.
---
 intvalpy/linear/PPS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/linear/PPS.py b/intvalpy/linear/PPS.py
index 585a5e6..36bd9df 100644
--- a/intvalpy/linear/PPS.py
+++ b/intvalpy/linear/PPS.py
@@ -189,6 +189,7 @@ def PPS(A, b, tol=1e-12, maxiter=2000, nu=None):
         L.append(PPSLstEl(vx[nu].a, A.copy(), b.copy(), invA.copy(), vx.copy(),
                           np.zeros((n, n), dtype=int), np.zeros(n, dtype=int), np.zeros(n)))
 
+        ocenka = L[0].gamma
         Lk = []
         cstL = float('inf')
         nit = 0
-- 
2.43.0


From 89cbad2f5428d829eef56a8d2db60ac0db679c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 24/86] fix: PSS mirrors the start box for the upper endpoints

The upper endpoints are computed from A x = -b, whose solutions are the
negated ones, but the search was still confined to x0 instead of -x0.
---
 intvalpy/linear/PSS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 5e95637..b4d3c31 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -134,7 +134,7 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def StartBar(A, b):
         if not (x0 is None):
-            return x0.copy()
+            return endint * x0.copy()
 
         if n > m:
             try:
-- 
2.43.0


From 1c5e23894fc081b25b79ffe756d4b86b6608a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 25/86] fix: PSS intersects every piece of the Kahan quotients

Two rows with a zero-containing coefficient give two pieces each; only the
first with the first and the second with the second were intersected, so
parts of the solution set were lost.
---
 intvalpy/linear/PSS.py | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index b4d3c31..6874ac1 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -1,3 +1,4 @@
+import itertools
 import numpy as np
 from bisect import bisect_left
 
@@ -5,9 +6,9 @@ import cvxopt
 cvxopt.solvers.options['show_progress'] = False
 cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
 
-from ..kernel.real_intervals import Interval
+from ..kernel.real_intervals import Interval, ARITHMETICS
 from ..kernel.preprocessing import intersection
-from ..kernel.utils import infinity, nan
+from ..kernel.utils import infinity, nan, isnan
 from .Rohn import Rohn
 from .Gauss import Gauss
 
@@ -104,28 +105,14 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
         for k in index_kahan_div:
             pdiv.append(kdiv(bAr[k], Anu[k], num_func[k]))
 
-        try:
-            result = intersection(div[0], V[_nu])
-            for el in div[1:]:
-                result = intersection(result, el)
-        except:
-            result = intersection(pdiv[0], V[_nu])
-
-        for el in pdiv:
-            result = intersection(result, el)
+        # a quotient in Kahan arithmetic may consist of two pieces
+        pieces = [V[_nu]]
+        for el in itertools.chain(div, pdiv):
+            parts = [el] if isinstance(el, ARITHMETICS) else el
+            pieces = [intersection(piece, part) for piece in pieces for part in parts]
+            pieces = [piece for piece in pieces if not isnan(piece)]
 
-        if 2 in num_func:
-            if np.isnan(np.array(result.b, dtype=np.float64)).all():
-                return infinity
-            elif np.isnan(np.array(result.b, dtype=np.float64)).any():
-                return np.nanmax(result.a)
-            else:
-                return np.nanmin(result.a)
-        else:
-            if np.isnan(np.array(result.b, dtype=np.float64)):
-                return infinity
-            else:
-                return result.a
+        return min((piece.a for piece in pieces), default=infinity)
 
 
     n, m = A.shape
-- 
2.43.0


From 4839ddaad6793043a100ff1515e56a74b387449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 26/86] fix: PSS for a single unknown

There is nothing to split then; the maximum over an empty box raised ValueError.
---
 intvalpy/linear/PSS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 6874ac1..eca3608 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -212,6 +212,9 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
             else:
                  num_func[index] = 2
 
+        if m == 1:
+            return Omega(WorkListb, _nu, Anu, index_classic_div, index_kahan_div, num_func)
+
         L = [(Q, q)]
         Ar = WorkListA @ Q
 
-- 
2.43.0


From 740c55c0508dcc41074a733c784ddd636310c51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 27/86] fix: Rohn does not return an estimate that is not
 guaranteed

When the iterations had not converged within maxiter steps the box of the
last step was returned, although it need not contain the solution set.
---
 intvalpy/linear/Rohn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index ed1ed38..18ad069 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -86,6 +86,8 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
         result = G @ d + g + tol
         error = np.amax(abs(result-d))
         nit += 1
+    if error >= tol:
+        raise Exception('The iterations did not converge, no outer estimate is obtained.')
     return Interval(x0-result, x0+result)
 
 
-- 
2.43.0


From 6488c7b4343a25b28a98e559e32f9dfdb04b50ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 28/86] fix: Neumaier returns a box inside the tolerable
 solution set

The radius is the minimum over the rows of the system, not one per row, and
the weights scale the box, not its centre.
---
 intvalpy/linear/Neumaier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index fd7813f..e0547aa 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -39,5 +39,5 @@ def Neumaier(A, b, y, w = None):
     else:
         A_w = A
         estimation_box = np.ones_like(y)
-    r = (b.rad - (b.mid - A_w @ y).mag) / np.sum(A_w.mag, axis=1)
+    r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
     return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
-- 
2.43.0


From e3da5f0e7fa4790dceff30aaffedbaf0afad8616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 29/86] fix: Neumaier rejects a centre outside the tolerable
 solution set

The radius is negative then, and a box around the centre was returned all the same.
---
 intvalpy/linear/Neumaier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index e0547aa..4c562e6 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -40,4 +40,6 @@ def Neumaier(A, b, y, w = None):
         A_w = A
         estimation_box = np.ones_like(y)
     r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
+    if r < 0:
+        raise Exception('The center point does not belong to the tolerable solution set!')
     return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
-- 
2.43.0


From 9e2a73c7d0ecc6687242198614473747af9d81e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 30/86] fix: respect two-sided linear constraints in the
 recognizing functionals

---
 intvalpy/kernel/abstract.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index e95c309..8f76a66 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -1,6 +1,8 @@
-import numpy as np
+import copy
 import itertools
 
+import numpy as np
+
 from .ralgb5 import ralgb5
 from .utils import rad, mid, inf, sup, mag
 
@@ -51,8 +53,11 @@ class BaseRecFun(object):
             calcfg = lambda x: recfunc.calcfg(x, infA, supA, Am, Ar, bm, br, weight)
         else:
             if linear_constraint.mu is None:
-                mag_value = mag(A)
-                linear_constraint.mu = linear_constraint.find_mu(np.max(mag_value))
+                # the coefficient depends on the system, so the caller's object is left as it is
+                linear_constraint = copy.copy(linear_constraint)
+                mag_value = mag(A) * np.max(np.abs(weight))
+                # the penalty has to be strictly steeper than the functional
+                linear_constraint.find_mu(2 * np.max(mag_value))
 
             calcfg = lambda x: recfunc.calcfg_constr(x, infA, supA, Am, Ar, bm, br, weight, linear_constraint)
 
@@ -225,23 +230,11 @@ class LinearConstraint:
                         self.C.append(C[k])
                         self.b.append(ub[k])
 
-            n = len(self.C)
-            if n == 0:
-                self.C.append(C[0])
-                self.b.append(ub[0])
-            else:
-                w = np.random.uniform(1, 1, n) # TODO
-                # TODO
-                # переписать более оптимальным способом
-                W = np.zeros( (n, C.shape[1]), dtype=np.float64)
-                for k in range(W.shape[1]):
-                    W[:, k] = w
-
-            self.C, self.b = np.array(self.C)*W, np.array(self.b)*w
-
+            self.C = np.array(self.C, dtype=np.float64).reshape(-1, C.shape[1])
+            self.b = np.array(self.b, dtype=np.float64)
 
         else:
-            self.C, self.b = C[0], np.array([np.inf])
+            self.C, self.b = np.zeros((0, C.shape[1])), np.zeros(0)
 
         self.mu = mu
 
@@ -252,6 +245,8 @@ class LinearConstraint:
     def find_mu(self, numerator):
         # solve |sum(C[:, k] * x)| -> min, for x
         # sum(x) >= 1, x_i \in {0, 1} \forall i = 1,..., len(C)
+        # the rows of a consistent system that are violated at the same time
+        # do not add up to zero in every column, so zero sums are left out
         denominator = []
         for c in self.C.T:
             c = c[ c!=0 ]
@@ -263,7 +258,8 @@ class LinearConstraint:
             for x in itertools.product([0, 1], repeat=n):
                 dot[k] = c @ x
                 k += 1
-            denominator.append(min(abs(dot[1:])))
+            dot = abs(dot)
+            denominator.append(min(dot[dot > 1e-13 * np.sum(abs(c))]))
 
-        self.mu = numerator / min(denominator)
+        self.mu = numerator / min(denominator, default=1.0)
         return self.mu
\ No newline at end of file
-- 
2.43.0


From 3b91326775578237ab98beff9a35f759d8b7cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 31/86] fix: fit() leaves the weights of the caller unchanged

---
 intvalpy/models/ISPAE.py | 2 ++
 intvalpy/models/WILS.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 85f08af..28b83be 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -348,6 +348,8 @@ class ISPAE(object):
         # Initialize weights
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         weight[0] = self.beta * weight[0] * (1 - self.alpha)
         for k in range(1, n):
             weight[k] = self.beta * (weight[k] * (1 - self.alpha) + self.alpha * weight[k - 1])
diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 20911d2..0c9ec4e 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -108,6 +108,8 @@ class WILS(object):
         
         if weight is None:
             weight = np.ones(n)
+        else:
+            weight = np.array(weight, dtype=np.float64)
         # делаем сглаживание
         weight[0] = self.beta * weight[0]*(1 - self.alpha)
         for k in range(1, n):
-- 
2.43.0


From da913f910ba3ff32ca22bbed9720e280a4749c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 32/86] fix: WILS finds the penalty coefficient of a linear
 constraint

---
 intvalpy/models/WILS.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 0c9ec4e..087b7fe 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -1,4 +1,5 @@
 import numpy as np
+import copy
 from ..kernel.utils import inf, sup, mid, rad
 from ..kernel.abstract import BaseRecFun
 from ..kernel.ralgb5 import ralgb5
@@ -116,6 +117,13 @@ class WILS(object):
             weight[k] = self.beta * (weight[k]*(1 - self.alpha) + self.alpha*weight[k-1])
 
 
+        if constraint is not None and constraint.mu is None:
+            constraint = copy.copy(constraint)
+            slopes = weight[:, np.newaxis] * np.maximum(abs(infX), abs(supX))
+            slope = np.max(slopes) if norm == 'inf' else np.max(np.sum(slopes, axis=0))
+            constraint.find_mu(2 * slope)
+
+
         #+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+-----+
         def calcfg(beta):
             if objective == 'Tol':
-- 
2.43.0


From bc182941ddc739d53f24be6eb7ede811d8304d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 33/86] fix: round the Kaucher product and quotient outwards

---
 intvalpy/kernel/interval_arithmetics.pyx | 129 ++++++++---------------
 1 file changed, 42 insertions(+), 87 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index cd303cd..fe6e233 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -110,6 +110,36 @@ cdef object _pow_endpoints(object a, object b, object n):
         return 0.0, max(_pow_up(a, n), _pow_up(b, n))
     else:
         return max(_pow_down(a, n), _pow_down(b, n)), 0.0
+
+
+cdef object _kaucher_product(object a, object b, object c, object d):
+    """
+    Endpoints of the Kaucher product of [a, b] and [c, d], rounded outwards: what is subtracted
+    changes its sign first, so that it is rounded in the same direction. The operands are Python
+    objects, whose operations the compiler cannot move across a change of the rounding mode.
+    """
+    a, b, c, d = <object> float(a), <object> float(b), <object> float(c), <object> float(d)
+    aPlus, bPlus, cPlus, dPlus = max(a, 0.0), max(b, 0.0), max(c, 0.0), max(d, 0.0)
+    aMinus, bMinus, cMinus, dMinus = aPlus - a, bPlus - b, cPlus - c, dPlus - d
+
+    with RoundingContext(FE_DOWNWARD):
+        inf = max(aPlus * cPlus, bMinus * dMinus) + min(-bPlus * cMinus, -aMinus * dPlus)
+    with RoundingContext(FE_UPWARD):
+        sup = max(bPlus * dPlus, aMinus * cMinus) + min(-aPlus * dMinus, -bMinus * cPlus)
+    return inf, sup
+
+
+cdef object _kaucher_quotient(object a, object b, object c, object d):
+    """Endpoints of the Kaucher quotient of [a, b] and [c, d], where c and d have the same sign."""
+    a, b, c, d = <object> float(a), <object> float(b), <object> float(c), <object> float(d)
+    if d < 0:
+        a, b, c, d = -b, -a, -d, -c
+
+    with RoundingContext(FE_DOWNWARD):
+        inf = a / d if a >= 0 else a / c
+    with RoundingContext(FE_UPWARD):
+        sup = b / c if b >= 0 else b / d
+    return inf, sup
 #######################################################################################
 
 
@@ -474,8 +504,6 @@ cdef class ClassicalArithmetic(BaseTools):
     def __mul__(self, other):
         cdef double_t inf, sup
         cdef object c, d
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, ClassicalArithmetic):
             # float(): the product of integer endpoints would be rounded to nearest on conversion
@@ -487,20 +515,7 @@ cdef class ClassicalArithmetic(BaseTools):
             return ClassicalArithmetic(inf, sup)
         
         elif isinstance(other, KaucherArithmetic):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
-            with RoundingContext(FE_UPWARD):
-                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
+            inf, sup = _kaucher_product(self.a, self.b, other.a, other.b)
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -520,11 +535,8 @@ cdef class ClassicalArithmetic(BaseTools):
         if isinstance(other, KaucherArithmetic):
             if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1.0/other.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1.0/other.a
-            return self.__mul__(KaucherArithmetic(inf, sup))
+            inf, sup = _kaucher_quotient(self.a, self.b, other.a, other.b)
+            return KaucherArithmetic(inf, sup)
         
         elif isinstance(other, Number):
             return self.__truediv__(ClassicalArithmetic(other, other))
@@ -586,6 +598,8 @@ cdef class ClassicalArithmetic(BaseTools):
         cdef double_t inf, sup
         if 0.0 in self:
             raise ValueError('It is impossible to divide by zero containing intervals!')
+        if isinstance(other, Number):
+            return ClassicalArithmetic(float(other), float(other)) / self
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
         with RoundingContext(FE_UPWARD):
@@ -618,24 +632,9 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __mul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = max(selfInfPlus * otherInfPlus, selfSupMinus * otherSupMinus) - max(selfSupPlus * otherInfMinus, selfInfMinus * otherSupPlus)
-            with RoundingContext(FE_UPWARD):
-                sup = max(selfSupPlus * otherSupPlus, selfInfMinus * otherInfMinus) - max(selfInfPlus * otherSupMinus, selfSupMinus * otherInfPlus)
+            inf, sup = _kaucher_product(self.a, self.b, other.a, other.b)
             return KaucherArithmetic(inf, sup)
         
         else:
@@ -643,43 +642,12 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __truediv__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
-        if isinstance(other, ClassicalArithmetic):
-            if 0.0 in other:
-                raise ValueError('It is impossible to divide by zero containing intervals!')
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1.0/other.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1.0/other.a
-            other = ClassicalArithmetic(inf, sup)
-            
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other.a, 0.0)
-            otherSupPlus = max(other.b, 0.0)
-            otherInfMinus = otherInfPlus - other.a
-            otherSupMinus = otherSupPlus - other.b
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
-            return KaucherArithmetic(inf, sup)
-        
-        if isinstance(other, KaucherArithmetic):
+        if isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             if 0.0 in other.pro:
                 raise ValueError('It is impossible to divide by zero containing intervals!')
-            with RoundingContext(FE_DOWNWARD):
-                inf = 1.0/other.b
-            with RoundingContext(FE_UPWARD):
-                sup = 1.0/other.a
-            return self.__mul__(KaucherArithmetic(inf, sup))
+            inf, sup = _kaucher_quotient(self.a, self.b, other.a, other.b)
+            return KaucherArithmetic(inf, sup)
         
         elif isinstance(other, Number):
             return self.__truediv__(ClassicalArithmetic(other, other))
@@ -729,25 +697,10 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __rmul__(self, other):
         cdef double_t inf, sup
-        cdef double_t selfInfPlus, selfSupPlus, otherInfPlus, otherSupPlus
-        cdef double_t selfInfMinus, selfSupMinus, otherInfMinus, otherSupMinus
         
         if isinstance(other, Number):
             other = float(other)
-            selfInfPlus = max(self.a, 0.0)
-            selfSupPlus = max(self.b, 0.0)
-            selfInfMinus = selfInfPlus - self.a
-            selfSupMinus = selfSupPlus - self.b
-            
-            otherInfPlus = max(other, 0.0)
-            otherSupPlus = otherInfPlus
-            otherInfMinus = otherInfPlus - other
-            otherSupMinus = otherSupPlus - other
-            
-            with RoundingContext(FE_DOWNWARD):
-                inf = selfInfPlus * otherInfPlus + selfSupMinus * otherSupMinus - selfSupPlus * otherInfMinus - selfInfMinus * otherSupPlus
-            with RoundingContext(FE_UPWARD):
-                sup = selfSupPlus * otherSupPlus + selfInfMinus * otherInfMinus - selfInfPlus * otherSupMinus - selfSupMinus * otherInfPlus
+            inf, sup = _kaucher_product(self.a, self.b, other, other)
             return KaucherArithmetic(inf, sup)
         else:
             return np.vectorize(lambda o: o * self)(other)
@@ -756,6 +709,8 @@ cdef class KaucherArithmetic(BaseTools):
         cdef double_t inf, sup
         if 0.0 in self.pro:
             raise ValueError('It is impossible to divide by zero containing intervals!')
+        if isinstance(other, Number):
+            return ClassicalArithmetic(float(other), float(other)) / self
         with RoundingContext(FE_DOWNWARD):
             inf = 1.0/self.b
         with RoundingContext(FE_UPWARD):
-- 
2.43.0


From 930969e4be96e7d08a69779f9bff18bb87af96fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 34/86] fix: round quotients of integer endpoints outwards

---
 intvalpy/kernel/interval_arithmetics.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index fe6e233..66d1132 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -523,13 +523,16 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __truediv__(self, other):
         cdef double_t inf, sup
+        cdef object c, d
         if isinstance(other, ClassicalArithmetic):
             if 0.0 in other:
                 raise ValueError('It is impossible to divide by zero containing intervals.')
+            # float(): the quotient of integer endpoints is not rounded in the given direction
+            c, d = float(other.a), float(other.b)
             with RoundingContext(FE_DOWNWARD):
-                inf = min(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                inf = min(self.a / c, self.a / d, self.b / c, self.b / d)
             with RoundingContext(FE_UPWARD):
-                sup = max(self.a / other.a, self.a / other.b, self.b / other.a, self.b / other.b)
+                sup = max(self.a / c, self.a / d, self.b / c, self.b / d)
             return ClassicalArithmetic(inf, sup)
         
         if isinstance(other, KaucherArithmetic):
-- 
2.43.0


From b58dc6dcd65a80728a783ea62b3eceebaeb26c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:55 +0000
Subject: [PATCH 35/86] fix: the width of a number is zero

---
 intvalpy/kernel/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 1c21ae5..0795a6c 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -91,7 +91,7 @@ def wid(x):
         if isinstance(x, ARITHMETICS):
             return x.wid
         else:
-            return float(x)
+            return 0.0
     
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
-- 
2.43.0


From ec23277ab583d649a9f71ab9bd7537353798f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 36/86] fix: compare interval arrays with a single interval

---
 intvalpy/kernel/interval_arithmetics.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 66d1132..7a85025 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -29,6 +29,11 @@ BINARY_UFUNCS = {
     'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul,
     'divide': operator.truediv, 'true_divide': operator.truediv, 'matmul': operator.matmul
 }
+# NumPy comparisons that get an interval as the second operand, with the operands exchanged
+COMPARISON_UFUNCS = {
+    'equal': operator.eq, 'not_equal': operator.ne, 'less': operator.gt,
+    'less_equal': operator.ge, 'greater': operator.lt, 'greater_equal': operator.le
+}
 
 
 #######################################################################################
@@ -445,6 +450,12 @@ cdef class BaseTools:
         if len(args) == 4 and isinstance(args[2], BaseTools) and args[0].__name__ in BINARY_UFUNCS:
             return BINARY_UFUNCS[args[0].__name__](args[2], args[3])
 
+        elif len(args) == 4 and not isinstance(args[2], BaseTools) and args[0].__name__ in COMPARISON_UFUNCS:
+            compare = COMPARISON_UFUNCS[args[0].__name__]
+            if isinstance(args[2], Number):
+                return compare(self, args[2])
+            return np.vectorize(lambda o: compare(self, o), otypes=[bool])(args[2])
+
         elif args[0].__name__ in ['add']:
             return self.__radd__(args[2])
 
-- 
2.43.0


From 818b551de849921ef54675afa89c5cb610df536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 37/86] fix: order endpoints of different float widths exactly

---
 intvalpy/kernel/real_intervals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index f7103eb..720c865 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -374,6 +374,10 @@ def SingleInterval(left, right, sortQ=True, midRadQ=False):
     assert isinstance(left, Number), 'The left end of the interval should be a number.'
     assert isinstance(right, Number), 'The right end of the interval should be a number.'
     
+    # NumPy compares a narrow float with a Python float after narrowing the latter
+    left = float(left) if isinstance(left, np.floating) else left
+    right = float(right) if isinstance(right, np.floating) else right
+
     # if precision.extendedPrecisionQ:
     #     left, right = mpf(str(left)), mpf(str(right))
     # else:
-- 
2.43.0


From 435a9e257e98ac316fac841a56d599d300f0dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:55 +0000
Subject: [PATCH 38/86] fix: Rohn checks that the estimate is mapped into its
 interior

---
 intvalpy/linear/Rohn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index 18ad069..558f691 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -86,7 +86,8 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
         result = G @ d + g + tol
         error = np.amax(abs(result-d))
         nit += 1
-    if error >= tol:
+    # the estimate is guaranteed if the iteration maps it into its interior
+    if error >= tol or not (G @ result + g < result).all():
         raise Exception('The iterations did not converge, no outer estimate is obtained.')
     return Interval(x0-result, x0+result)
 
-- 
2.43.0


From 30e484367d5dacd9c24b365e5951e558e022d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:15 +0000
Subject: [PATCH 39/86] fix: sign of the Subdiff subgradient for two improper
 zero-crossing intervals

---
 intvalpy/linear/Subdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/Subdiff.py b/intvalpy/linear/Subdiff.py
index ab501fa..4a0a2c5 100644
--- a/intvalpy/linear/Subdiff.py
+++ b/intvalpy/linear/Subdiff.py
@@ -113,7 +113,7 @@ def Subdiff(A, b, tol=1e-12, maxiter=500, tau=1, norm_min_val=1e-12):
             if a.a*b.a > a.b*b.b:
                 F[i, j] = a.a
             else:
-                F[i, j + n] = -a.b
+                F[i, j + n] = a.b
 
             if a.a*b.b < a.b*b.a:
                 F[i + n, j + n] = a.a
-- 
2.43.0


From d107b133949615b527967ed2975709c4695914e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 40/86] fix: accept a number as the weight when a recognizing
 functional is maximized

---
 intvalpy/kernel/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 8f76a66..64dc9a6 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -46,6 +46,9 @@ class BaseRecFun(object):
 
         if weight is None:
             weight = np.ones(n)
+        else:
+            # a number is the common weight of all formings
+            weight = np.broadcast_to(weight, n)
 
         # для штрафной функции alpha = sum G x - c, где G-матрица ограничений, c-вектор ограничений
         # находим значение весового коэффициента mu, чтобы гарантировано не выходить за пределы ограничений
-- 
2.43.0


From e8d73f2933782a4815b3eda418714628c94f5639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:11 +0000
Subject: [PATCH 41/86] fix: make the penalty for several linear constraints
 exact

---
 intvalpy/kernel/abstract.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 64dc9a6..43e1ddd 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -246,23 +246,15 @@ class LinearConstraint:
         return Cix, Cix > self.b[i]
 
     def find_mu(self, numerator):
-        # solve |sum(C[:, k] * x)| -> min, for x
-        # sum(x) >= 1, x_i \in {0, 1} \forall i = 1,..., len(C)
-        # the rows of a consistent system that are violated at the same time
-        # do not add up to zero in every column, so zero sums are left out
-        denominator = []
-        for c in self.C.T:
-            c = c[ c!=0 ]
-            n = c.shape[0]
-            if n == 0: continue
-
-            dot = np.zeros(2**n)
-            k = 0
-            for x in itertools.product([0, 1], repeat=n):
-                dot[k] = c @ x
-                k += 1
-            dot = abs(dot)
-            denominator.append(min(dot[dot > 1e-13 * np.sum(abs(c))]))
-
-        self.mu = numerator / min(denominator, default=1.0)
+        # the penalty is exact when mu is not less than the multipliers of the constraints
+        # at the maximum: these solve C[J].T @ multipliers = g for linearly independent
+        # active rows J and a subgradient g of the functional, |g| <= numerator
+        bound = 0.0
+        for k in range(1, min(self.C.shape) + 1):
+            for J in itertools.combinations(range(self.C.shape[0]), k):
+                CJ = self.C[list(J)]
+                if np.linalg.matrix_rank(CJ) == k:
+                    bound = max(bound, np.max(np.sum(abs(np.linalg.pinv(CJ.T)), axis=1)))
+
+        self.mu = numerator * bound
         return self.mu
\ No newline at end of file
-- 
2.43.0


From d883411f5df2285ea9ab86c8d9d05f4468925d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:56 +0000
Subject: [PATCH 42/86] fix: Neumaier returns an interval vector

---
 intvalpy/linear/Neumaier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/Neumaier.py b/intvalpy/linear/Neumaier.py
index 4c562e6..d051970 100644
--- a/intvalpy/linear/Neumaier.py
+++ b/intvalpy/linear/Neumaier.py
@@ -1,6 +1,7 @@
 import numpy as np
 
 from ..kernel.real_intervals import Interval
+from ..kernel.preprocessing import asinterval
 
 
 def Neumaier(A, b, y, w = None):
@@ -42,4 +43,4 @@ def Neumaier(A, b, y, w = None):
     r = np.min((b.rad - (b.mid - A @ y).mag) / np.sum(A_w.mag, axis=1))
     if r < 0:
         raise Exception('The center point does not belong to the tolerable solution set!')
-    return y + estimation_box * r * Interval(-1, 1)
\ No newline at end of file
+    return asinterval(y + estimation_box * r * Interval(-1, 1))
\ No newline at end of file
-- 
2.43.0


From 32e6623445498e3775bab442f0155defaf4fa23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 43/86] fix: lineqs has no solutions when a zero row cannot
 hold

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 51cb2e2..d78f66d 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -182,6 +182,8 @@ def lineqs(
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
     A, b, cnmty = clear_zero_rows(A, b)
+    if not cnmty:
+        return []
 
     S = BoundaryIntervals(A, b)
     if len(S) == 0:
-- 
2.43.0


From c9e304e482434dee6ba20bab95d75b86a6f4ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 44/86] fix: lineqs with bounds that miss the solution set

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index d78f66d..2f72e9d 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -207,6 +207,8 @@ def lineqs(
                           [-bounds[1][0], -bounds[1][1]])
 
         S = BoundaryIntervals(A, b)
+        if len(S) == 0:
+            return S
 
     vertices = Intervals2Path(S)
 
-- 
2.43.0


From 00cb493f6c04a6339d9e3a2d2edba9f4ae8690b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 45/86] fix: keep the vertices on boundary lines that coincide
 up to rounding

---
 intvalpy/linear/boundary_intervals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 2f72e9d..878222a 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -23,6 +23,9 @@ def BoundaryIntervals(A, b):
                 continue
             Akx = np.dot(A[k], dotx)
             c = np.dot(A[k], p)
+            # the lines are parallel up to rounding
+            if abs(c) <= 1e-14 * np.linalg.norm(A[k]) * np.linalg.norm(p):
+                c = 0
 
             if np.sign(c) == -1:
                 tmp = (b[k] - Akx) / c
@@ -31,7 +34,8 @@ def BoundaryIntervals(A, b):
                 tmp = (b[k] - Akx) / c
                 q[0] = q[0] if tmp < q[0] else tmp
             else:
-                if Akx < b[k]:
+                # lines that coincide up to rounding do not exclude each other
+                if b[k] - Akx > 1e-12 * (abs(b[k]) + abs(Akx)):
                     if np.dot(A[k], A[i]) > 0:
                         si = False
                         break
-- 
2.43.0


From 14f40496a6f00a578dc774e4726d4b87fc1582c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 46/86] fix: draw a window of non-zero size around an unbounded
 cone

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 878222a..bd4fd34 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -201,6 +201,8 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
+            if rm <= 1e-14:
+                rm = rm + 1
             __center_rm.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
-- 
2.43.0


From f1df9fe9467b79294cd1dbf88c457ae56c7e2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 47/86] fix: windows of earlier calls do not change later
 solution sets

---
 intvalpy/linear/boundary_intervals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index bd4fd34..d3ff5fe 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -332,11 +332,13 @@ def IntLinIncR2(
                 raise Exception(msg)
 
             vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds))
+    # отрисовочные окна предыдущих вызовов к этой системе не относятся
+    global __center_rm
+    __center_rm = []
     algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
@@ -653,11 +655,13 @@ def IntLinIncR3(
                 gzmax = max(gzmax, np.max(v[:, 2]))
         return gxmin, gymin, gzmin, gxmax, gymax, gzmax
 
+    # отрисовочные окна предыдущих вызовов к этой системе не относятся
+    global __center_rm
+    __center_rm = []
     gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    global __center_rm
     if len(__center_rm) > 0:
         vertices = []
         _max = max(np.array(__center_rm))
-- 
2.43.0


From affd3623a0a1778aff7025f705189b03eb35f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:31 +0000
Subject: [PATCH 48/86] fix: the window around an unbounded set shows its
 vertices

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index d3ff5fe..ac41991 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -64,6 +64,8 @@ def ParticularPoints(S, A, b):
         for k in S[:, 4]:
             k = int(k)
             PP.append((A[k]*b[k])/np.dot(A[k], A[k]))
+        # the window has to show the vertices, too
+        PP.extend(V[~binf])
     else:
         nV = 0
         PP = V
-- 
2.43.0


From 1a54b48ef4dbeb7db46acb886772ab29ed131cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:31 +0000
Subject: [PATCH 49/86] fix: do not list the first vertex twice because of
 rounding

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index ac41991..66d5898 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -88,6 +88,8 @@ def Intervals2Path(S):
             P.append(es)
 
             if np.max(np.abs(bp-es)) < 1e-8:
+                # the same vertex up to rounding
+                P[-1] = bp
                 return np.array(P)
             bs = es
         S = np.delete(S, index, axis=0)
-- 
2.43.0


From 5312e5530c17d9eeeada294da760985a3aaba9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:24 +0000
Subject: [PATCH 50/86] fix: non_repeat keeps different inequalities whose a -
 b coincide

---
 intvalpy/kernel/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/kernel/preprocessing.py b/intvalpy/kernel/preprocessing.py
index ab4d7bf..d52a0f7 100644
--- a/intvalpy/kernel/preprocessing.py
+++ b/intvalpy/kernel/preprocessing.py
@@ -26,7 +26,7 @@ def non_repeat(a, b):
     a = np.copy(np.ascontiguousarray(a))
     a = np.around(a, decimals=12)
     b = np.around(np.copy(b), decimals=12)
-    a1 = (a.T - b).T
+    a1 = np.column_stack((a, b))
     _, index = np.unique(a1.view([('', a1.dtype)]*a1.shape[1]), return_index=True)
     index = sorted(index)
     return a[index], b[index]
-- 
2.43.0


From 36c9663831349aaf209bcf5d658df7f2b5c73063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:02 +0000
Subject: [PATCH 51/86] fix: ChebNorm takes the farther end of every residual

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 4673d27..6f341b0 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -39,7 +39,7 @@ class ChebNorm:
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
             f_min = x_min @ x
             x_max = ChebNorm.__calc_lp_on_box(-x, infA[j], supA[j])
-            f_max = x_max @ (-x)
+            f_max = x_max @ x
             if bm[j] - f_min >= f_max - bm[j]:
                 A_opt[j] = x_min
             else:
-- 
2.43.0


From 8d11a6f672bc1e46bac7ce3e28a89e3f88d9097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:02 +0000
Subject: [PATCH 52/86] fix: weight the subgradient of ChebNorm like its value

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index 6f341b0..d0b67f5 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -54,7 +54,7 @@ class ChebNorm:
         A_opt = ChebNorm.__calc_opt_A(x, infA, supA, bm)
         index = (weight * (br.T + abs(bm.T - A_opt @ x))).argmax()
         val =(weight * (br.T + abs(bm.T - A_opt @ x))).max()
-        grad = A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
+        grad = weight[index] * A_opt[index,:] * np.sign(A_opt[index] @ x - bm[index])
 
         return val, grad
 
-- 
2.43.0


From a89a84ef2fa7c2d827d3017efe27d33bb78c1a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:59 +0000
Subject: [PATCH 53/86] fix: exact corners in ChebNorm, also for point
 coefficients

---
 intvalpy/linear/ChebNorm.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index d0b67f5..d57c0d8 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -1,9 +1,5 @@
 import numpy as np
 
-import cvxopt
-cvxopt.solvers.options['show_progress'] = False
-cvxopt.solvers.options['glpk'] = {'msg_lev': 'GLP_MSG_OFF'}
-
 from ..kernel.abstract import BaseRecFun
 
 
@@ -26,11 +22,8 @@ class ChebNorm:
 
     @staticmethod
     def __calc_lp_on_box(c_, x_min, x_max):
-        c = cvxopt.matrix(c_)
-        G = cvxopt.matrix(np.vstack([-np.eye(len(x_min)), np.eye(len(x_min))]))
-        h = cvxopt.matrix(np.hstack([-x_min, x_max]).astype(np.double))
-        sol = cvxopt.solvers.lp(c, G, h, verbose=True)
-        return np.array(sol['x']).T
+        # the minimum of c x over a box is attained at a vertex, also when the box has no interior
+        return np.where(c_ >= 0, x_min, x_max)
 
     @staticmethod
     def __calc_opt_A(x, infA, supA, bm):
-- 
2.43.0


From e1b03d6a5d74e4920f98ac2a4d404f8ed0788421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 54/86] fix: find_mu positive for a zero matrix, bounded effort
 for many constraints

---
 intvalpy/kernel/abstract.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index 43e1ddd..c887296 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -249,12 +249,24 @@ class LinearConstraint:
         # the penalty is exact when mu is not less than the multipliers of the constraints
         # at the maximum: these solve C[J].T @ multipliers = g for linearly independent
         # active rows J and a subgradient g of the functional, |g| <= numerator
+        # of rows with the same direction the shortest one has the largest multiplier
+        rows = {}
+        for row in sorted(self.C.tolist(), key=np.linalg.norm):
+            unit = np.round(row / np.linalg.norm(row), 12) + 0.0
+            if tuple(unit) not in rows and tuple(-unit + 0.0) not in rows:
+                rows[tuple(unit)] = row
+        C = np.array(list(rows.values())).reshape(-1, self.C.shape[1])
+
+        # the number of subsets is limited, otherwise it grows exponentially
+        subsets = itertools.chain.from_iterable(
+            itertools.combinations(range(C.shape[0]), k) for k in range(1, min(C.shape) + 1)
+        )
         bound = 0.0
-        for k in range(1, min(self.C.shape) + 1):
-            for J in itertools.combinations(range(self.C.shape[0]), k):
-                CJ = self.C[list(J)]
-                if np.linalg.matrix_rank(CJ) == k:
-                    bound = max(bound, np.max(np.sum(abs(np.linalg.pinv(CJ.T)), axis=1)))
+        for J in itertools.islice(subsets, 10000):
+            CJ = C[list(J)]
+            if np.linalg.matrix_rank(CJ) == len(J):
+                bound = max(bound, np.max(np.sum(abs(np.linalg.pinv(CJ.T)), axis=1)))
 
-        self.mu = numerator * bound
+        # a constant functional needs any positive weight
+        self.mu = (numerator if numerator > 0 else 1.0) * bound
         return self.mu
\ No newline at end of file
-- 
2.43.0


From d1a0674438477d50a60aa6365baba4470c20007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 55/86] fix: ralgb5 never evaluates nan points when the
 transformed subgradients vanish

---
 intvalpy/kernel/ralgb5.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/intvalpy/kernel/ralgb5.py b/intvalpy/kernel/ralgb5.py
index bf3d8b1..145d5d7 100644
--- a/intvalpy/kernel/ralgb5.py
+++ b/intvalpy/kernel/ralgb5.py
@@ -78,7 +78,8 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
         - 2: Stopped based on the norm of the subgradient (tolg).
         - 3: Stopped based on the change in the argument (tolx).
         - 4: Maximum number of iterations reached (maxiter).
-        - 5: Emergency stop due to too many steps in the line search.
+        - 5: Emergency stop due to too many steps in the line search or because the
+             transformed subgradients vanish.
 
     Notes:
     ------
@@ -117,7 +118,11 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
         # Compute the direction of movement in the transformed space
         g1 = B.T @ g0
-        dx = B @ (g1 / np.linalg.norm(g1))
+        normg1 = np.linalg.norm(g1)
+        if normg1 == 0:
+            ccode = 5 # Stopping code: the space is dilated so far that no direction is left
+            return xr, fr, nit, ncalls, ccode
+        dx = B @ (g1 / normg1)
         normdx = np.linalg.norm(dx)
 
         d = 1 # Initialize the inner loop condition
@@ -167,7 +172,11 @@ def ralgb5(calcfg, x0, tolx=1e-12, tolg=1e-12, tolf=1e-12, maxiter=2000, alpha=2
 
         # Update the transformation matrix B and the subgradient
         dg = B.T @ (g1 - g0)
-        xi = dg / np.linalg.norm(dg)
+        normdg = np.linalg.norm(dg)
+        if normdg == 0:
+            ccode = 5 # Stopping code: the subgradients do not differ, no direction to dilate
+            return xr, fr, nit, ncalls, ccode
+        xi = dg / normdg
         B = B + w * np.outer((B @ xi), xi)
         g0 = g1
 
-- 
2.43.0


From 96ba0cd02edba0f1b327723cd9e25cad305b0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 56/86] fix: true subgradients of interval data of order two
 and more in ISPAE

---
 intvalpy/models/ISPAE.py | 45 ++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 28b83be..79f14c8 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -147,6 +147,41 @@ class ISPAE(object):
         return sum(vals_by_cols)
 
     
+    def _gradient_of_end(self, beta, dataframe, row, upper):
+        """
+        Gradient with respect to beta of an end of the interval value of one row.
+
+        Parameters:
+        -----------
+        beta : np.ndarray
+            Coefficients of the polynomial.
+        dataframe : pd.DataFrame
+            Input data.
+        row : int
+            Number of the row.
+        upper : bool
+            Whether the upper or the lower end is differentiated.
+
+        Returns:
+        --------
+        grad : np.ndarray
+            Values of the basis polynomials where the end is attained.
+        """
+        grad = []
+        for k, col in enumerate(self.columns):
+            coef = beta[sum(self.order[:k]): sum(self.order[:k + 1])]
+            basis = np.array([self.basis(d) for d in range(1, len(coef) + 1)])
+            poly = coef @ basis
+
+            x = dataframe[col].iloc[row]
+            left, right = inf(x), sup(x)
+            dots = np.append([left, right], poly.deriv(1).roots().real)
+            dots = dots[(left <= dots) & (dots <= right)]
+            dot = dots[np.argmax(poly(dots)) if upper else np.argmin(poly(dots))]
+            grad.extend(b(dot) for b in basis)
+        return np.array(grad, dtype=float)
+
+
     def _uni_calcfg_extend(self, beta, X_train, infX, supX, Xm, Xr, ym, yr, weight, norm):
         """
         Compute objective and subgradient for the 'Uni' objective function.
@@ -175,7 +210,6 @@ class ISPAE(object):
         sub_diff : np.ndarray
             Subgradient of the objective.
         """
-        index = beta >= 0
         centered_mval = ym - self.value(beta, X_train)
         infs, sups = centered_mval.inf, centered_mval.sup
         mig = np.array([
@@ -188,9 +222,9 @@ class ISPAE(object):
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
             if -infs[mc] <= sups[mc]:
-                diff = weight[mc] * (supX[mc] * index + infX[mc] * (~index))
+                diff = weight[mc] * self._gradient_of_end(beta, X_train, mc, upper=True)
             else:
-                diff = -weight[mc] * (infX[mc] * index + supX[mc] * (~index))
+                diff = -weight[mc] * self._gradient_of_end(beta, X_train, mc, upper=False)
             sub_diff = sub_diff + diff
         return -obj, -sub_diff
 
@@ -223,7 +257,6 @@ class ISPAE(object):
         sub_diff : np.ndarray
             Subgradient of the objective.
         """
-        index = beta >= 0
         centered_mval = ym - self.value(beta, X_train)
         infs, sups = centered_mval.inf, centered_mval.sup
         residual = weight * (yr - np.maximum(abs(infs), abs(sups)))
@@ -232,9 +265,9 @@ class ISPAE(object):
         sub_diff = np.zeros(len(beta), dtype=float)
         for mc in mcs:
             if -infs[mc] <= sups[mc]:
-                diff = weight[mc] * (infX[mc] * index + supX[mc] * (~index))
+                diff = weight[mc] * self._gradient_of_end(beta, X_train, mc, upper=False)
             else:
-                diff = -weight[mc] * (supX[mc] * index + infX[mc] * (~index))
+                diff = -weight[mc] * self._gradient_of_end(beta, X_train, mc, upper=True)
             sub_diff = sub_diff + diff
         return -obj, -sub_diff
 
-- 
2.43.0


From 87d60932c4fbaae630d7d1733c49ecb0524ea9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 57/86] fix: the bias of a Laguerre model is not multiplied by
 zero

---
 intvalpy/models/ISPAE.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 79f14c8..560ef36 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -40,6 +40,8 @@ class ISPAE(object):
             'legendre': np.polynomial.legendre.Legendre.basis,
         }
         self.basis = self.__bases[basis]
+        # the point where the first basis polynomial is equal to one (Laguerre: it vanishes at 1)
+        self._one = (self.basis(1) - 1).roots()[0]
 
     
     def _wrap_norm(self, residual, norm):
@@ -337,7 +339,7 @@ class ISPAE(object):
         n, m = X_train.shape
         self.bias = bias
         if self.bias:
-            X_train.insert(loc=0, column='bias', value=[1]*n)
+            X_train.insert(loc=0, column='bias', value=[self._one]*n)
         self.columns = X_train.columns
 
         # Validate and set polynomial order
@@ -425,5 +427,5 @@ class ISPAE(object):
         X_test = pd.DataFrame(X_test)
         n, m = X_test.shape
         if self.bias:
-            X_test.insert(loc=0, column='bias', value=[1]*n)
+            X_test.insert(loc=0, column='bias', value=[self._one]*n)
         return self._expand_dataframe(X_test) @ self.estimator['xr']
\ No newline at end of file
-- 
2.43.0


From d7c460e3e2697d66266704d6038ffd03f40007b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 58/86] fix: Rohn reaches its stop test for systems of large
 magnitude

---
 intvalpy/linear/Rohn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/linear/Rohn.py b/intvalpy/linear/Rohn.py
index 558f691..3515ac9 100644
--- a/intvalpy/linear/Rohn.py
+++ b/intvalpy/linear/Rohn.py
@@ -78,6 +78,9 @@ def _Rohn_Uni(A, b, tol=1e-12, maxiter=2000):
     G = abs(np.eye(m) - R @ Amid) + abs(R) @ A.rad
     g = abs(R @ (Amid @ x0 - b.mid)) + abs(R) @ (A.rad @ abs(x0) + b.rad)
 
+    # the error is relative to the size of the estimate if that is large
+    tol = tol * max(1, np.amax(g))
+
     result = np.zeros(m)
     error = infinity
     nit = 0
-- 
2.43.0


From 0bd1db9ef69e5f44c56498d04b4a979802984fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 59/86] fix: PSS solves its linear programs for right-hand
 sides of large magnitude

---
 intvalpy/linear/PSS.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index eca3608..664d11b 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -144,12 +144,14 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
     def solve_lp(c, A_ub, b_ub):
         asmatrix = lambda A: A if isinstance(A, cvxopt.matrix) else cvxopt.matrix(A)
-        args = [asmatrix(c), asmatrix(A_ub), asmatrix(b_ub)]
+        # the tolerances of the solver do not suit right-hand sides of large magnitude
+        scale = max(1, np.amax(abs(b_ub[:2*n])) / 2**20)
+        args = [asmatrix(c), asmatrix(A_ub), asmatrix(b_ub / scale)]
 
         result = cvxopt.solvers.lp(*args, solver='glpk')
         if 'optimal' not in result['status']:
             raise Exception("LP optimum not found: %s" % result['status'])
-        return np.array(result['x']).reshape(c.shape[0])
+        return np.array(result['x']).reshape(c.shape[0]) * scale
 
     def ExactOmega(midA, radA, b, Q):
         S = np.eye(m) * np.insert(np.sign(Q.a), _nu, np.sign(V[_nu].a) or 1)
-- 
2.43.0


From 5d128255c8ede23224ad9ac88e9a7384672fc856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 60/86] fix: IntLinIncR3 draws the faces that only touch a
 coordinate plane

---
 intvalpy/linear/boundary_intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 66d5898..03adf46 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -692,7 +692,7 @@ def IntLinIncR3(
                 xmin, ymin, zmin = np.min(abs(x)), np.min(abs(y)), np.min(abs(z))
                 xmax, ymax, zmax = np.max(abs(x)), np.max(abs(y)), np.max(abs(z))
 
-                if n <= l and l < n + 3 and (xmin * ymin * zmin == 0):
+                if n <= l and l < n + 3 and (xmax * ymax * zmax == 0):
                     l += 1
                     continue
 
-- 
2.43.0


From 1b81c49f3f42c66f11f63236532b04fd96af0096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 61/86] fix: follow the boundary of solution sets with large
 coordinates

---
 intvalpy/linear/boundary_intervals.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 03adf46..57a9acb 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -77,17 +77,21 @@ def Intervals2Path(S):
     bs, bp = S[0, :2], S[0, :2]
     P = [bp]
 
+    # points that coincide up to rounding, whatever the size of the set and its place
+    V = S[:, :4][np.isfinite(S[:, :4])]
+    eps = max(1e-8, 1e-8 * np.ptp(V), 1e-12 * np.max(np.abs(V))) if len(V) else 1e-8
+
     while len(S) > 0:
         for k in range(len(S)):
-            if np.max(np.abs(bs - S[k, :2])) < 1e-8:
+            if np.max(np.abs(bs - S[k, :2])) < eps:
                 index = k
                 break
         es = S[index, 2:4]
 
-        if np.max(np.abs(bs-es)) > 1e-8:
+        if np.max(np.abs(bs-es)) > eps:
             P.append(es)
 
-            if np.max(np.abs(bp-es)) < 1e-8:
+            if np.max(np.abs(bp-es)) < eps:
                 # the same vertex up to rounding
                 P[-1] = bp
                 return np.array(P)
-- 
2.43.0


From 041c13caa964c861a609d2a5b2714eff928820ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 62/86] fix: overlapping calls of the boundary interval methods
 share no windows

---
 intvalpy/linear/boundary_intervals.py | 37 +++++++++++++--------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 57a9acb..dcc3c93 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -120,7 +120,6 @@ def ChangeVariable(A, b, k):
     return xi, At, bt, y1, y2
 
 
-__center_rm = []
 def lineqs(
         A, 
         b, 
@@ -131,7 +130,8 @@ def lineqs(
         alpha=0.5, 
         s=10, 
         size=(15, 15), 
-        save=False
+        save=False,
+        _windows=None
     ):
     """
     The function visualizes the set of solutions of a system of linear algebraic
@@ -211,7 +211,8 @@ def lineqs(
             rm = max((PPmax - PPmin)/2)
             if rm <= 1e-14:
                 rm = rm + 1
-            __center_rm.append([max(abs(center) + 5*rm)])
+            if _windows is not None:
+                _windows.append([max(abs(center) + 5*rm)])
             A = np.append(np.append(A, np.eye(2)), -np.eye(2)).reshape((len(A)+4, 2))
             b = np.append(np.append(b, center-5*rm), -(center+5*rm))
 
@@ -339,20 +340,18 @@ def IntLinIncR2(
                 msg = "Неверно указан тип согласования системы! Используйте 'uni' или 'tol'."
                 raise Exception(msg)
 
-            vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds))
-    # отрисовочные окна предыдущих вызовов к этой системе не относятся
-    global __center_rm
-    __center_rm = []
+            vertices.append(lineqs(-WorkListA, -WorkListb, show=False, bounds=bounds, _windows=windows))
+    # отрисовочные окна ортантов этой системы
+    windows = []
     algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    if len(__center_rm) > 0:
+    if len(windows) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(np.array(windows))
         bounds = np.array([[-_max, -_max], [_max, _max]])
         algo(bounds)
-    __center_rm = []
 
     if show:
         fig = plt.figure(figsize=size)
@@ -377,7 +376,8 @@ def lineqs3D(
         alpha=0.5, 
         s=10, 
         size=(8, 8),
-        bounds=None
+        bounds=None,
+        _windows=None
     ):
     """
     The function visualizes the set of solutions of a system of linear algebraic
@@ -492,7 +492,8 @@ def lineqs3D(
 
             if rm <= 1e-14:
                 rm = rm + 1
-            __center_rm.append([max(abs(center) + 1*rm)])
+            if _windows is not None:
+                _windows.append([max(abs(center) + 1*rm)])
             A = np.append(np.append(A, np.eye(3)), -np.eye(3)).reshape((len(A)+6, 3))
             b = np.append(np.append(b, center-rm), -(center+rm))
         else:
@@ -652,7 +653,7 @@ def IntLinIncR3(
                 else:
                     WorkListb[k] += 1e-15
 
-            vertices.append(lineqs3D(-WorkListA, -WorkListb, show=False, bounds=bounds))
+            vertices.append(lineqs3D(-WorkListA, -WorkListb, show=False, bounds=bounds, _windows=windows))
             for v in vertices[-1]:
                 gxmin = min(gxmin, np.min(v[:, 0]))
                 gymin = min(gymin, np.min(v[:, 1]))
@@ -663,19 +664,17 @@ def IntLinIncR3(
                 gzmax = max(gzmax, np.max(v[:, 2]))
         return gxmin, gymin, gzmin, gxmax, gymax, gzmax
 
-    # отрисовочные окна предыдущих вызовов к этой системе не относятся
-    global __center_rm
-    __center_rm = []
+    # отрисовочные окна ортантов этой системы
+    windows = []
     gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
 
     # Если в каком-либо ортанте множество решений неограничено, то создаём
     # новое отрисовочное окно, чтобы срез решений был одинаковым.
-    if len(__center_rm) > 0:
+    if len(windows) > 0:
         vertices = []
-        _max = max(np.array(__center_rm))
+        _max = max(np.array(windows))
         bounds = np.array([[-_max, -_max, -_max], [_max, _max, _max]])
         gxmin, gymin, gzmin, gxmax, gymax, gzmax = algo(bounds)
-    __center_rm = []
 
     if show:
         fig = plt.figure(figsize=size)
-- 
2.43.0


From 9b0ad589585c89346446db4608f4359a1ab6aaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 63/86] fix: an interval minus a NumPy integer negates no
 number that has no negative; an interval minus a list

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 7a85025..3d730ae 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -510,7 +510,7 @@ cdef class ClassicalArithmetic(BaseTools):
                 sup = self.b - other.a
             return type(other)(inf, sup)
         else:
-            return -other + self
+            return -(other - self)
     
     def __mul__(self, other):
         cdef double_t inf, sup
@@ -642,7 +642,7 @@ cdef class KaucherArithmetic(BaseTools):
                 sup = self.b - other.a
             return KaucherArithmetic(inf, sup)
         else:
-            return -other + self
+            return -(other - self)
     
     def __mul__(self, other):
         cdef double_t inf, sup
-- 
2.43.0


From 615b50f9e34e90ac485bcba547b04aebc9bb773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 64/86] fix: an interval divided by a list of numbers

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 3d730ae..f321093 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -555,7 +555,7 @@ cdef class ClassicalArithmetic(BaseTools):
         elif isinstance(other, Number):
             return self.__truediv__(ClassicalArithmetic(other, other))
 
-        elif isinstance(other, np.ndarray):
+        elif isinstance(other, (np.ndarray, list, tuple)):
             return np.vectorize(lambda o: self / o)(other)
 
         else:
@@ -666,7 +666,7 @@ cdef class KaucherArithmetic(BaseTools):
         elif isinstance(other, Number):
             return self.__truediv__(ClassicalArithmetic(other, other))
 
-        elif isinstance(other, np.ndarray):
+        elif isinstance(other, (np.ndarray, list, tuple)):
             return np.vectorize(lambda o: self / o)(other)
 
         else:
-- 
2.43.0


From 916296e325710e698d5d7aae0ce2dbbfc728e7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 65/86] fix: powers of intervals with NumPy integer exponents
 of every size

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index f321093..684a24d 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -563,7 +563,7 @@ cdef class ClassicalArithmetic(BaseTools):
     
     def __pow__(self, other):
         cdef double_t inf, sup
-        if isinstance(other, (int, np.int_)) and other >= 0:
+        if isinstance(other, (int, np.integer)) and other >= 0:
             inf, sup = _pow_endpoints(self.a, self.b, int(other))
             return ClassicalArithmetic(inf, sup)
         elif self >= 0:
@@ -674,7 +674,7 @@ cdef class KaucherArithmetic(BaseTools):
     
     def __pow__(self, other):
         cdef double_t inf, sup
-        if isinstance(other, (int, np.int_)) and other >= 0:
+        if isinstance(other, (int, np.integer)) and other >= 0:
             inf, sup = _pow_endpoints(self.a, self.b, int(other))
             if inf > sup:
                 return KaucherArithmetic(inf, sup)
-- 
2.43.0


From 9bf066ee05694b72a70fd08217c337038a3e2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 66/86] fix: midpoint and radius given as NumPy integers of few
 bits

---
 intvalpy/kernel/real_intervals.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 720c865..4fd6608 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -377,6 +377,9 @@ def SingleInterval(left, right, sortQ=True, midRadQ=False):
     # NumPy compares a narrow float with a Python float after narrowing the latter
     left = float(left) if isinstance(left, np.floating) else left
     right = float(right) if isinstance(right, np.floating) else right
+    # the sum and the difference of NumPy integers may overflow
+    left = int(left) if isinstance(left, np.integer) else left
+    right = int(right) if isinstance(right, np.integer) else right
 
     # if precision.extendedPrecisionQ:
     #     left, right = mpf(str(left)), mpf(str(right))
-- 
2.43.0


From 3c699b8f749989aa0eeeee8bf4331dac3e3a489f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:45 +0000
Subject: [PATCH 67/86] fix: the window chosen for an unbounded set in three
 dimensions shows its vertices and faces

---
 intvalpy/linear/boundary_intervals.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index dcc3c93..7445e5e 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -111,7 +111,7 @@ def ChangeVariable(A, b, k):
     y1[l1], y1[l2] = A[k, l2], -A[k, l1]
     y2 = np.cross(A[k], y1)
 
-    index = np.array([l for l in range(len(A)) if l != k])
+    index = np.arange(len(A)) != k
     A, b = A[index], b[index]
 
     At = np.array([A @ y1, A @ y2]).T
@@ -209,7 +209,7 @@ def lineqs(
             PPmin, PPmax = np.min(PP, axis=0), np.max(PP, axis=0)
             center = (PPmin + PPmax)/2
             rm = max((PPmax - PPmin)/2)
-            if rm <= 1e-14:
+            if rm <= 1e-9 * max(1, max(abs(center))):
                 rm = rm + 1
             if _windows is not None:
                 _windows.append([max(abs(center) + 5*rm)])
@@ -447,7 +447,7 @@ def lineqs3D(
             continue
 
         if len(bt) == 0:
-            PP.append(xi)
+            PP.append([xi])
             cfinite = False
             continue
 
@@ -487,10 +487,10 @@ def lineqs3D(
             xmin, ymin, zmin = np.min(x), np.min(y), np.min(z)
             xmax, ymax, zmax = np.max(x), np.max(y), np.max(z)
 
-            center = np.array([0, 0, 0]) + (x + y + z).mean()
+            center = np.array([x.mean(), y.mean(), z.mean()])
             rm = (xmax-xmin) + (ymax-ymin) + (zmax-zmin)
 
-            if rm <= 1e-14:
+            if rm <= 1e-9 * max(1, max(abs(center))):
                 rm = rm + 1
             if _windows is not None:
                 _windows.append([max(abs(center) + 1*rm)])
-- 
2.43.0


From c95b913a810bda5306661d7a5252ea0879e2caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 68/86] fix: Gauss refuses matrices that are not square and
 right-hand sides of another length

---
 intvalpy/linear/Gauss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/linear/Gauss.py b/intvalpy/linear/Gauss.py
index 76cdeb5..4df783f 100644
--- a/intvalpy/linear/Gauss.py
+++ b/intvalpy/linear/Gauss.py
@@ -23,7 +23,9 @@ def Gauss(A, b):
     """
 
     A, b = A.copy(), b.copy()
-    n, _ = A.shape
+    n, m = A.shape
+    assert n == m, 'Matrix is not square'
+    assert n == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
 
     r = zeros((n, n))
     x = zeros(n)
-- 
2.43.0


From ea897cd2a381a019cdbeab1e1ba039cbf6b9a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:37 +0000
Subject: [PATCH 69/86] fix: PSS and Gauss_Seidel refuse right-hand sides and
 start boxes of another length

---
 intvalpy/linear/Gauss_Seidel.py | 1 +
 intvalpy/linear/PSS.py          | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/intvalpy/linear/Gauss_Seidel.py b/intvalpy/linear/Gauss_Seidel.py
index d246033..a3109dc 100644
--- a/intvalpy/linear/Gauss_Seidel.py
+++ b/intvalpy/linear/Gauss_Seidel.py
@@ -41,6 +41,7 @@ def Gauss_Seidel(A, b, x0=None, C=None, tol=1e-12, maxiter=2000):
     n, m = A.shape
     assert n == m, 'Matrix is not square'
     assert n == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
+    assert x0 is None or n == len(x0), 'Inconsistent dimensions of matrix and start box'
 
     A, b = A.copy(), b.copy()
     C = np.linalg.inv(A.mid) if C is None else C
diff --git a/intvalpy/linear/PSS.py b/intvalpy/linear/PSS.py
index 664d11b..b08a115 100644
--- a/intvalpy/linear/PSS.py
+++ b/intvalpy/linear/PSS.py
@@ -116,6 +116,9 @@ def PSS(A, b, x0=None, tol=1e-12, maxiter=2000, nu=None):
 
 
     n, m = A.shape
+    assert n == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
+    assert x0 is None or m == len(x0), 'Inconsistent dimensions of matrix and start box'
+
     midA = A.mid
     radA = A.rad
 
-- 
2.43.0


From e952ef5e08e54dae3c960fedffad6b6a7f5af907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 70/86] fix: Tol, Uni and Uss refuse right-hand sides and
 weights of another length

---
 intvalpy/linear/Tol.py | 2 ++
 intvalpy/linear/Uni.py | 2 ++
 intvalpy/linear/Uss.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/intvalpy/linear/Tol.py b/intvalpy/linear/Tol.py
index 06aedc3..c93a04d 100644
--- a/intvalpy/linear/Tol.py
+++ b/intvalpy/linear/Tol.py
@@ -11,6 +11,8 @@ class Tol(BaseRecFun):
 
     @staticmethod
     def _constituent(A, b, x, weight=None):
+        assert A.shape[0] == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
+        assert np.size(weight) in (1, len(b)), 'Inconsistent dimensions of matrix and weights'
         if weight is None:
             weight = np.ones(len(b))
         return weight * (b.rad - (b.mid - A @ x).mag)
diff --git a/intvalpy/linear/Uni.py b/intvalpy/linear/Uni.py
index 1c49056..f211421 100644
--- a/intvalpy/linear/Uni.py
+++ b/intvalpy/linear/Uni.py
@@ -11,6 +11,8 @@ class Uni(BaseRecFun):
 
     @staticmethod
     def _constituent(A, b, x, weight=None):
+        assert A.shape[0] == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
+        assert np.size(weight) in (1, len(b)), 'Inconsistent dimensions of matrix and weights'
         if weight is None:
             weight = np.ones(len(b))
         return weight * (b.rad - (b.mid - A @ x).mig)
diff --git a/intvalpy/linear/Uss.py b/intvalpy/linear/Uss.py
index 43d5105..2736f5f 100644
--- a/intvalpy/linear/Uss.py
+++ b/intvalpy/linear/Uss.py
@@ -11,6 +11,8 @@ class Uss(BaseRecFun):
 
     @staticmethod
     def _constituent(A, b, x, weight=None):
+        assert A.shape[0] == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
+        assert np.size(weight) in (1, len(b)), 'Inconsistent dimensions of matrix and weights'
         if weight is None:
             weight = np.ones(len(b))
         return weight * (b.rad + A.rad @ np.abs(x) - np.abs(b.mid - A.mid @ x))
-- 
2.43.0


From 7865591d4ba61c41b01808d87d75e71025f483df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 71/86] fix: HBR encloses the solutions for every column of a
 matrix of right-hand sides

---
 intvalpy/linear/HBR.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/HBR.py b/intvalpy/linear/HBR.py
index d585a4f..e73c045 100644
--- a/intvalpy/linear/HBR.py
+++ b/intvalpy/linear/HBR.py
@@ -54,6 +54,5 @@ def HBR(A, b):
         beta = u / dlow - b.mag
         return (b + Interval(-beta, beta)) / (dA + Interval(-alpha, alpha))
     else:
-        v = np.ones(n)
-        beta = u / (d @ v) - b.mag
-        return (b + Interval(-beta, beta)) / ( (dA + Interval(-alpha, alpha)) @ v )
+        beta = u / dlow[:, np.newaxis] - b.mag
+        return (b + Interval(-beta, beta)) / (dA + Interval(-alpha, alpha)).reshape((n, 1))
-- 
2.43.0


From 14946dbec05b4021eb64bbffeeef9f633e8c6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:57 +0000
Subject: [PATCH 72/86] fix: nothing is in an empty interval array

---
 intvalpy/kernel/real_intervals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 4fd6608..5cc33b9 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -153,6 +153,7 @@ class ArrayInterval:
         return ArrayInterval(np.vectorize(abs)(self._data))
 
     def __contains__(self, other):
+        contain = False
         if isinstance(other, single_type) or isinstance(other, (ClassicalArithmetic, KaucherArithmetic)):
             for index in itertools.product(*self._ranges):
                 contain = other in self._data[index]
-- 
2.43.0


From 7033b85f7e2c8b04cf31734677bebf090db732f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:34 +0000
Subject: [PATCH 73/86] fix: Interval refuses lists that are not pairs of
 endpoints

---
 intvalpy/kernel/real_intervals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 5cc33b9..3923b29 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -478,5 +478,6 @@ def Interval(*args, sortQ=True, midRadQ=False):
             if isinstance(args[0][0], single_type) and isinstance(args[0][1], single_type):
                 return SingleInterval(args[0][0], args[0][1], sortQ=sortQ, midRadQ=midRadQ)
         data = np.array(args[0])
+        assert data.shape[-1] == 2, "Every interval is given by two endpoints."
 
     return ArrayInterval(np.vectorize(lambda l, r: SingleInterval(l, r, sortQ=sortQ, midRadQ=midRadQ))(data[..., 0], data[..., 1]))
-- 
2.43.0


From f0f543705308ebcdbbd0cf0e7672540dbdd45d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 74/86] fix: lineqs3D refuses right-hand sides of another
 length

---
 intvalpy/linear/boundary_intervals.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 7445e5e..8498f0b 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -428,13 +428,14 @@ def lineqs3D(
     A = np.asarray(A)
     b = np.asarray(b)
 
-    A, b, cnmty = clear_zero_rows(A, b, ndim=3)
-    A, b = non_repeat(A, b)
-
     n, m = A.shape
     assert m == 3, "There should be three columns in matrix A."
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
+    A, b, cnmty = clear_zero_rows(A, b, ndim=3)
+    A, b = non_repeat(A, b)
+    n, m = A.shape
+
     V = []
     PP = []
     cfinite = True
-- 
2.43.0


From 3241ff8f38697decfda571457d22a845c103fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 75/86] fix: lineqs3D has no solutions when a zero row cannot
 hold

---
 intvalpy/linear/boundary_intervals.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 8498f0b..00bb736 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -433,6 +433,8 @@ def lineqs3D(
     assert b.shape[0] == n, "The size of the matrix A must be consistent with the size of the vector of the right part of b."
 
     A, b, cnmty = clear_zero_rows(A, b, ndim=3)
+    if not cnmty:
+        return []
     A, b = non_repeat(A, b)
     n, m = A.shape
 
-- 
2.43.0


From ff54432cbb9235b8d84ed4f4f139a290efb86155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 76/86] fix: WILS refuses weights of another length

---
 intvalpy/models/WILS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/models/WILS.py b/intvalpy/models/WILS.py
index 087b7fe..faada2b 100644
--- a/intvalpy/models/WILS.py
+++ b/intvalpy/models/WILS.py
@@ -111,6 +111,7 @@ class WILS(object):
             weight = np.ones(n)
         else:
             weight = np.array(weight, dtype=np.float64)
+            assert n == len(weight), 'Inconsistent dimensions of matrix and weights'
         # делаем сглаживание
         weight[0] = self.beta * weight[0]*(1 - self.alpha)
         for k in range(1, n):
-- 
2.43.0


From 6faa451e3447e1f5f854b6a5a56f372854fd18df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:13 +0000
Subject: [PATCH 77/86] fix: ISPAE refuses weights of another length

---
 intvalpy/models/ISPAE.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intvalpy/models/ISPAE.py b/intvalpy/models/ISPAE.py
index 560ef36..64afc65 100644
--- a/intvalpy/models/ISPAE.py
+++ b/intvalpy/models/ISPAE.py
@@ -385,6 +385,7 @@ class ISPAE(object):
             weight = np.ones(n)
         else:
             weight = np.array(weight, dtype=np.float64)
+            assert n == len(weight), "Weights must match the number of observations."
         weight[0] = self.beta * weight[0] * (1 - self.alpha)
         for k in range(1, n):
             weight[k] = self.beta * (weight[k] * (1 - self.alpha) + self.alpha * weight[k - 1])
-- 
2.43.0


From 2bf5d57541ca586d38f1c0b8dc7d4185f643031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 78/86] fix: characteristics of arrays of intervals with both
 integer and fractional endpoints are not truncated

---
 intvalpy/kernel/real_intervals.py | 28 ++++++++++++++++++----------
 intvalpy/kernel/utils.py          | 16 ++++++++--------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 3923b29..fca0efc 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -9,6 +9,14 @@ import itertools
 from .interval_arithmetics import ARITHMETICS, ClassicalArithmetic, KaucherArithmetic, BINARY_UFUNCS
 
 
+def collect(func, data):
+    """
+    The values of func for all elements of data. Their common type is determined by all of them,
+    whereas np.vectorize takes the type of the first one and truncates the others to it.
+    """
+    return np.array([func(el) for el in data.flat]).reshape(data.shape)
+
+
 class ArrayInterval:
 
     def __init__(self, intervals):
@@ -26,19 +34,19 @@ class ArrayInterval:
 
     @property
     def a(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return collect(lambda el: el.a, self._data)
 
     @property
     def b(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return collect(lambda el: el.b, self._data)
 
     @property
     def inf(self):
-        return np.vectorize(lambda el: el.a)(self._data)
+        return collect(lambda el: el.a, self._data)
 
     @property
     def sup(self):
-        return np.vectorize(lambda el: el.b)(self._data)
+        return collect(lambda el: el.b, self._data)
 
     @property
     def data(self):
@@ -61,23 +69,23 @@ class ArrayInterval:
 
     @property
     def rad(self):
-        return np.vectorize(lambda el: el.rad)(self._data)
+        return collect(lambda el: el.rad, self._data)
 
     @property
     def mid(self):
-        return np.vectorize(lambda el: el.mid)(self._data)
+        return collect(lambda el: el.mid, self._data)
 
     @property
     def wid(self):
-        return np.vectorize(lambda el: el.wid)(self._data)
+        return collect(lambda el: el.wid, self._data)
 
     @property
     def mig(self):
-        return np.vectorize(lambda el: el.mig)(self._data)
+        return collect(lambda el: el.mig, self._data)
 
     @property
     def mag(self):
-        return np.vectorize(lambda el: el.mag)(self._data)
+        return collect(lambda el: el.mag, self._data)
 
     @property
     def dual(self):
@@ -97,7 +105,7 @@ class ArrayInterval:
 
     @property
     def khi(self):
-        return np.vectorize(lambda el: el.khi)(self._data)
+        return collect(lambda el: el.khi, self._data)
 
     @property
     def vertex(self):
diff --git a/intvalpy/kernel/utils.py b/intvalpy/kernel/utils.py
index 0795a6c..577d04c 100644
--- a/intvalpy/kernel/utils.py
+++ b/intvalpy/kernel/utils.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from .real_intervals import Interval, ARITHMETICS, INTERVAL_CLASSES
+from .real_intervals import Interval, ARITHMETICS, INTERVAL_CLASSES, collect
 from .preprocessing import asinterval
 
 
@@ -96,7 +96,7 @@ def wid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_wid)(x)
+        return collect(_wid, np.asarray(x, dtype=object))
     else:
         return _wid(x)
     
@@ -111,7 +111,7 @@ def mid(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mid)(x)
+        return collect(_mid, np.asarray(x, dtype=object))
     else:
         return _mid(x)
     
@@ -126,7 +126,7 @@ def rad(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_rad)(x)
+        return collect(_rad, np.asarray(x, dtype=object))
     else:
         return _rad(x)
     
@@ -141,7 +141,7 @@ def inf(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_inf)(x)
+        return collect(_inf, np.asarray(x, dtype=object))
     else:
         return _inf(x)
     
@@ -156,7 +156,7 @@ def sup(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_sup)(x)
+        return collect(_sup, np.asarray(x, dtype=object))
     else:
         return _sup(x)
     
@@ -171,7 +171,7 @@ def mag(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_mag)(x)
+        return collect(_mag, np.asarray(x, dtype=object))
     else:
         return _mag(x)
 
@@ -186,7 +186,7 @@ def khi(x):
     if hasattr(x, '__iter__'):
         if isinstance(x, INTERVAL_CLASSES):
             x = x.data
-        return np.vectorize(_khi)(x)
+        return collect(_khi, np.asarray(x, dtype=object))
     else:
         return _khi(x)
 
-- 
2.43.0


From 1084c26d668dce34b29dd5c6e803abefa3754ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 79/86] fix: lineqs and lineqs3D compute with floats whatever
 the type of the arrays given

---
 intvalpy/linear/boundary_intervals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/intvalpy/linear/boundary_intervals.py b/intvalpy/linear/boundary_intervals.py
index 00bb736..6a433ad 100644
--- a/intvalpy/linear/boundary_intervals.py
+++ b/intvalpy/linear/boundary_intervals.py
@@ -186,8 +186,8 @@ def lineqs(
     if isinstance(A, INTERVAL_CLASSES) or isinstance(b, INTERVAL_CLASSES):
         raise Exception('Interval type system!')
 
-    A = np.asarray(A)
-    b = np.asarray(b)
+    A = np.asarray(A, dtype=np.float64)
+    b = np.asarray(b, dtype=np.float64)
 
     n, m = A.shape
     assert m <= 2, "There should be two columns in matrix A."
@@ -425,8 +425,8 @@ def lineqs3D(
             If show = True, then the graph is drawn.
     """
 
-    A = np.asarray(A)
-    b = np.asarray(b)
+    A = np.asarray(A, dtype=np.float64)
+    b = np.asarray(b, dtype=np.float64)
 
     n, m = A.shape
     assert m == 3, "There should be three columns in matrix A."
-- 
2.43.0


From 0d1cf7e091cfbacacaee565c775660a0e66fe539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 80/86] fix: LinearConstraint accepts array_like and does not
 wrap unsigned numbers

---
 intvalpy/kernel/abstract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index c887296..ae4fea3 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -216,6 +216,10 @@ class LinearConstraint:
         # идёт преобразование C x <= b
         # надо удалить все строки, где значение inf, а также, где нет зависимости от x
 
+        C = np.asarray(C, dtype=np.float64)
+        lb = None if lb is None else np.asarray(lb, dtype=np.float64)
+        ub = None if ub is None else np.asarray(ub, dtype=np.float64)
+
         assert C.shape[0] >= 1, 'Inconsistent dimension of matrix'
         if (not lb is None) or (not ub is None):
             self.C, self.b = [], []
-- 
2.43.0


From 0393e153fa48986142516e3119f3f91232666b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 81/86] fix: weights and starting points of unsigned integers
 do not wrap in the recognizing functionals

---
 intvalpy/kernel/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/intvalpy/kernel/abstract.py b/intvalpy/kernel/abstract.py
index ae4fea3..a08af7b 100644
--- a/intvalpy/kernel/abstract.py
+++ b/intvalpy/kernel/abstract.py
@@ -48,7 +48,7 @@ class BaseRecFun(object):
             weight = np.ones(n)
         else:
             # a number is the common weight of all formings
-            weight = np.broadcast_to(weight, n)
+            weight = np.broadcast_to(np.asarray(weight, dtype=np.float64), n)
 
         # для штрафной функции alpha = sum G x - c, где G-матрица ограничений, c-вектор ограничений
         # находим значение весового коэффициента mu, чтобы гарантировано не выходить за пределы ограничений
@@ -77,7 +77,7 @@ class BaseRecFun(object):
             else:
                 x0 = np.zeros(m)
         else:
-            x0 = np.copy(x0)
+            x0 = np.array(x0, dtype=np.float64)
 
         return ralgb5(calcfg, x0, **kwargs)
 
-- 
2.43.0


From b66082059c985422f6c6ed069a3c5dbfd3cb0d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:33 +0000
Subject: [PATCH 82/86] fix: ChebNorm refuses inconsistent sizes and accepts
 points of any numeric type

---
 intvalpy/linear/ChebNorm.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index d57c0d8..f5b70c1 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -9,6 +9,12 @@ class ChebNorm:
     """
     @staticmethod
     def constituent(A, b, x, weight=None):
+        n, m = A.shape
+        assert n == len(b), 'Inconsistent dimensions of matrix and right-hand side vector'
+        assert m == len(x), 'Inconsistent dimensions of matrix and x'
+        assert np.size(weight) in (1, n), 'Inconsistent dimensions of matrix and weights'
+
+        x = np.asarray(x, dtype=np.float64)
         if weight is None:
             weight = np.ones(len(b))
 
-- 
2.43.0


From ba14ef9fcf479d6662a47d0bcd4ef28b74f481b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 83/86] fix: the product y @ array of a single interval is
 refused instead of recursing until the process dies

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 684a24d..3ecf5c5 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -447,7 +447,9 @@ cdef class BaseTools:
 
 
     def __array_ufunc__(self, *args):
-        if len(args) == 4 and isinstance(args[2], BaseTools) and args[0].__name__ in BINARY_UFUNCS:
+        # a single interval has no `@` of its own: dispatching it would come back here endlessly
+        if (len(args) == 4 and isinstance(args[2], BaseTools)
+                and args[0].__name__ in BINARY_UFUNCS and args[0].__name__ != 'matmul'):
             return BINARY_UFUNCS[args[0].__name__](args[2], args[3])
 
         elif len(args) == 4 and not isinstance(args[2], BaseTools) and args[0].__name__ in COMPARISON_UFUNCS:
-- 
2.43.0


From df7acccd9df942b8f5c80d44eeec5f385107bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:38 +0000
Subject: [PATCH 84/86] fix: del A[i, :] deletes the entry i, not every column

---
 intvalpy/kernel/real_intervals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index fca0efc..3e3431e 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -244,7 +244,11 @@ class ArrayInterval:
             self._ndim = self._data.ndim
             self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
         elif isinstance(key, tuple):
-            self._data = np.delete(self._data, key[-1], axis=len(key)-1)
+            # full slices after the index only say that every other axis is kept whole
+            axis = len(key) - 1
+            while axis > 0 and isinstance(key[axis], slice) and key[axis] == slice(None):
+                axis -= 1
+            self._data = np.delete(self._data, key[axis], axis=axis)
             self._shape = self._data.shape
             self._ndim = self._data.ndim
             self._ranges = [range(0, self._shape[k]) for k in range(self._ndim)]
-- 
2.43.0


From 40dbaca7dc38cb01bdfb99d306fb9ba2599b5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:39 +0000
Subject: [PATCH 85/86] fix: ChebNorm does not truncate the matrix when all its
 lower ends are integers

---
 intvalpy/linear/ChebNorm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intvalpy/linear/ChebNorm.py b/intvalpy/linear/ChebNorm.py
index f5b70c1..ae2c61b 100644
--- a/intvalpy/linear/ChebNorm.py
+++ b/intvalpy/linear/ChebNorm.py
@@ -33,7 +33,7 @@ class ChebNorm:
 
     @staticmethod
     def __calc_opt_A(x, infA, supA, bm):
-        A_opt = np.zeros_like(infA)
+        A_opt = np.zeros(infA.shape)
         for j in range(len(bm)):
             x_min = ChebNorm.__calc_lp_on_box(x, infA[j], supA[j])
             f_min = x_min @ x
-- 
2.43.0


From 79d88aadedced64e02758b4a5249b646420da6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:13 +0000
Subject: [PATCH 86/86] fix: reduce, accumulate and outer of NumPy functions
 are not answered with the function itself

---
 intvalpy/kernel/interval_arithmetics.pyx | 4 ++++
 intvalpy/kernel/real_intervals.py        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/intvalpy/kernel/interval_arithmetics.pyx b/intvalpy/kernel/interval_arithmetics.pyx
index 3ecf5c5..4f69228 100644
--- a/intvalpy/kernel/interval_arithmetics.pyx
+++ b/intvalpy/kernel/interval_arithmetics.pyx
@@ -447,6 +447,10 @@ cdef class BaseTools:
 
 
     def __array_ufunc__(self, *args):
+        if args[1] != '__call__':
+            # reduce, accumulate, outer, ... are not the function itself
+            raise NotImplementedError(f"Calculation of {args[0].__name__}.{args[1]} is not provided!")
+
         # a single interval has no `@` of its own: dispatching it would come back here endlessly
         if (len(args) == 4 and isinstance(args[2], BaseTools)
                 and args[0].__name__ in BINARY_UFUNCS and args[0].__name__ != 'matmul'):
diff --git a/intvalpy/kernel/real_intervals.py b/intvalpy/kernel/real_intervals.py
index 3e3431e..1f5a341 100644
--- a/intvalpy/kernel/real_intervals.py
+++ b/intvalpy/kernel/real_intervals.py
@@ -334,6 +334,10 @@ class ArrayInterval:
         return self
 
     def __array_ufunc__(self, *args):
+        if args[1] != '__call__':
+            # reduce, accumulate, outer, ... are not the function itself
+            raise NotImplementedError(f"Calculation of {args[0].__name__}.{args[1]} is not provided!")
+
         if len(args) == 4 and isinstance(args[2], INTERVAL_CLASSES) and args[0].__name__ in BINARY_UFUNCS:
             return BINARY_UFUNCS[args[0].__name__](args[2], args[3])
 
-- 
2.43.0

