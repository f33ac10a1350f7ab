From a0be81e339d2f5a1aad26f1b8b6aff329d3aa812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:09 +0000
Subject: [PATCH 01/40] fix: rounding mode halves the doubled quotient/product
 and rounds floats up

With rounding = true, operator*, *=, /, /=, divide and divide_by computed the
doubled result and forgot to halve it (2 * 1.5 gave 6), and construction from
a non-negative floating value multiplied by 0.5 instead of adding it.
---
 include/eirin/fixed.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 5e03f7d..3defd2b 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -163,7 +163,7 @@ public:
             {
                 m_value = static_cast<Type>(
                     val >= 0.0 ?
-                        (val * T{0.5} * fraction_multiplier) :
+                        (val * fraction_multiplier + T{0.5}) :
                         (val * fraction_multiplier - T{0.5})
                 );
             }
@@ -177,7 +177,7 @@ public:
         else
         {
             m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier * T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
+                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
             );
         }
     };
@@ -337,7 +337,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -350,7 +350,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = (static_cast<IntermediateType>(m_value) * other.m_value) / (fraction_multiplier / 2);
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -371,7 +371,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -384,7 +384,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
@@ -617,7 +617,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            return fixed_num(static_cast<Type>(_value + (_value % 2)), raw_value_construct_tag{});
+            return fixed_num(static_cast<Type>(_value / 2 + (_value % 2)), raw_value_construct_tag{});
         }
         else
         {
@@ -642,7 +642,7 @@ public:
         if constexpr(rounding)
         {
             auto _value = ((static_cast<IntermediateType>(m_value) << fraction) * 2) / other.m_value;
-            m_value = static_cast<Type>(_value + (_value % 2));
+            m_value = static_cast<Type>(_value / 2 + (_value % 2));
         }
         else
         {
-- 
2.43.0


From 8b0326ef5e265027a2067ababef620905e666564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:09 +0000
Subject: [PATCH 02/40] fix: widening fixed_num conversion no longer overflows
 the source type

Converting to a type with more fraction bits multiplied in the source's raw
type, so fixed64(fixed32(1)) overflowed and returned 0.
---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 3defd2b..bae4fab 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -497,7 +497,7 @@ public:
     template <unsigned int _fraction, typename T, typename std::enable_if_t<(_fraction <= fraction), T*> = nullptr>
     EIRIN_ALWAYS_INLINE static constexpr fixed_num from_fixed_num_value(T inner_value) noexcept
     {
-        return fixed_num(static_cast<Type>(inner_value * (T(1) << (fraction - _fraction))), raw_value_construct_tag{});
+        return fixed_num(static_cast<Type>(static_cast<IntermediateType>(inner_value) * (IntermediateType(1) << (fraction - _fraction))), raw_value_construct_tag{});
     }
 
     static constexpr fixed_num from_internal_value(Type internal_value) noexcept
-- 
2.43.0


From 3144d486bfc04a59aca640dc42ecf2fd33e81d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:09 +0000
Subject: [PATCH 03/40] fix: integral_part() of negative non-integers

integral_part() rounded the magnitude up (-0.5 gave 1, so std::format printed
-1.5) and overflowed for the lowest value.
---
 include/eirin/fixed.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index bae4fab..bea6076 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -264,15 +264,13 @@ public:
 
     EIRIN_ALWAYS_INLINE constexpr Type integral_part() const noexcept
     {
-        Type result = m_value;
+        // use the unsigned magnitude, so the lowest value does not overflow.
+        auto result = static_cast<std::make_unsigned_t<Type>>(m_value);
         if(signbit(*this))
-        {
-            result = ~result;
-            result += static_cast<Type>(1) << fraction;
-        }
+            result = 0 - result;
         result >>= fraction; // Drop fractional part
 
-        return result;
+        return static_cast<Type>(result);
     }
 
     EIRIN_ALWAYS_INLINE constexpr Type fractional_part() const noexcept
-- 
2.43.0


From b0d60e8952ed20ec506242d3c532f55882182071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:09 +0000
Subject: [PATCH 04/40] fix: ceil() of negative values and overflow in
 ceil()/floor()

ceil(-1.5) returned -0.0000153 because every negative input took the overflow
branch; near the ends of the range both functions overflowed the store type.
---
 include/eirin/math.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ec12281..61145ea 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -34,11 +34,11 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> ceil(fixed_num<T, I, f, r> f
     using fixed = fixed_num<T, I, f, r>;
     constexpr auto frac_mult = T(1) << f;
     auto value = fp.internal_value();
+    // overflow check.
+    if(value > std::numeric_limits<T>::max() / frac_mult * frac_mult)
+        return std::numeric_limits<fixed>::max();
     if(value > 0)
         value += frac_mult - 1;
-    // overflow check.
-    if(value < 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult + frac_mult - 1);
     return fixed::from_internal_value(value / frac_mult * frac_mult);
 }
 
@@ -48,13 +48,10 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> floor(fixed_num<T, I, f, r>
     using fixed = fixed_num<T, I, f, r>;
     constexpr auto frac_mult = T(1) << f;
     auto value = fp.internal_value();
-    auto neg = value < 0;
-    if(value < 0)
-        value -= frac_mult - 1;
-    // underflow check.
-    if(neg && value > 0)
-        return fixed::from_internal_value(fp.internal_value() / frac_mult * frac_mult - frac_mult + 1);
-    return fixed::from_internal_value(value / frac_mult * frac_mult);
+    auto rem = value % frac_mult;
+    if(rem < 0)
+        rem += frac_mult;
+    return fixed::from_internal_value(value - rem);
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 73ce22a613a7334d1e88b9229f9693f369d7487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:54 +0000
Subject: [PATCH 05/40] fix: nearly_* comparisons of distant values

The raw difference overflowed the store type, so nearly_gt(max, min) was false.
---
 include/eirin/fixed.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index bea6076..7761a6a 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -450,25 +450,25 @@ public:
 
     constexpr inline bool nearly_eq(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div >= -nearly_compare_epsilon().m_value && div <= nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_ne(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div < -nearly_compare_epsilon().m_value || div > nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_gt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div > nearly_compare_epsilon().m_value;
     }
 
     constexpr inline bool nearly_lt(const fixed_num& other) const noexcept
     {
-        auto div = m_value - other.m_value;
+        auto div = static_cast<IntermediateType>(m_value) - other.m_value;
         return div < -nearly_compare_epsilon().m_value;
     }
 
-- 
2.43.0


From a2e4b049f591348041e92a11cb398dced566a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:51 +0000
Subject: [PATCH 06/40] fix: dividing by, and taking the remainder of, integral
 operands

Mixed signed/unsigned operands converted the raw value to unsigned first
(fixed32(-6) / 2u gave 32765), and fixed_num % integral did not compile.
---
 include/eirin/fixed.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 7761a6a..4054874 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -135,6 +135,17 @@ class fixed_num
     constexpr inline fixed_num(Type val, raw_value_construct_tag) noexcept
         : m_value(val) {};
 
+    // divide a raw value by an integer of any width and signness.
+    template <std::integral T>
+    static constexpr inline Type divide_raw(Type value, T val) noexcept
+    {
+        const auto div = static_cast<IntermediateType>(val);
+        // a divisor that does not fit is larger than any raw value.
+        if(static_cast<T>(div) != val || (div < 0) != (val < 0))
+            return Type(0);
+        return static_cast<Type>(static_cast<IntermediateType>(value) / div);
+    }
+
 public:
     typedef Type value_type;
     typedef IntermediateType intermediate_type;
@@ -393,7 +404,7 @@ public:
 
     constexpr inline fixed_num& operator/=(const std::integral auto& val) noexcept
     {
-        m_value /= val;
+        m_value = divide_raw(m_value, val);
         return *this;
     }
 
@@ -604,7 +615,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        return fixed_num(m_value / val, raw_value_construct_tag{});
+        return fixed_num(divide_raw(m_value, val), raw_value_construct_tag{});
     }
 
     EIRIN_ALWAYS_INLINE constexpr fixed_num divide(const fixed_num& other) const
@@ -628,7 +639,7 @@ public:
         if(val == 0) [[unlikely]]
             EIRIN_THROW_EXCEPTION(divide_by_zero);
 
-        m_value /= val;
+        m_value = divide_raw(m_value, val);
         return *this;
     }
 
@@ -870,7 +881,7 @@ constexpr inline fixed_num<T, I, f, r> operator/(const std::integral auto& val,
 template <typename T, typename I, unsigned int f, bool r>
 constexpr inline fixed_num<T, I, f, r> operator%(const fixed_num<T, I, f, r>& fp, const std::integral auto& val) noexcept
 {
-    return fixed_num<T, I, f, r>(fp) %= val;
+    return fixed_num<T, I, f, r>(fp) %= fixed_num<T, I, f, r>(val);
 }
 
 template <typename T, typename I, unsigned int f, bool r>
-- 
2.43.0


From 0f4ca48f10408828c5012b06042b1add8a95d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:51 +0000
Subject: [PATCH 07/40] fix: conversion to floating point keeps the fraction

static_cast<double>(fixed32(1.5)) returned 1.0.
---
 include/eirin/fixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 4054874..b12df8f 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -304,7 +304,7 @@ public:
     {
         // MSVC might warn about precision loss here, but it's expected.
         // SO I JUST FUCK IT BEFORE.
-        return static_cast<T>(static_cast<value_type>(m_value / fraction_multiplier));
+        return static_cast<T>(m_value) / static_cast<T>(fraction_multiplier);
     }
 
     constexpr inline fixed_num operator+(const fixed_num& other) const noexcept
-- 
2.43.0


From 17de74e598dac3f2440f9221be8338c845f8a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 08/40] fix: sin() of tiny negative angles and of the lowest
 value

The small angle branch negated negative angles (sin(-0.0001) was positive) and
abs() of the lowest value overflowed, so sin(lowest) returned the input.
---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 61145ea..14d7086 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -219,8 +219,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sin(fixed_num<T, I, f, r> fp
     // we reconginzed the sin(x) = x when x is small enough.
     // sin(0.00015) = 0.000149999999437, so we use 0.0001 as the threshold.
     // TODO: replace it with fixed::template from_fixed_num_value<61>(0x13A92A0000000)
-    if(abs(fp) < fixed(0.00015))
-        return negative ? -fp : fp;
+    if(fp < fixed(0.00015) && fp > fixed(-0.00015))
+        return fp;
 
     // reduce the range to [0, 1] due to sin is
     // symmetrical around PI / 2 in the domain [0, PI].
-- 
2.43.0


From 1beba44550e10875a0e5c5f59bf84b5cf43bf8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 09/40] fix: tan() next to the poles

With a cosine of two units in the last place the quotient does not fit fixed32,
so tan() returned the lowest value instead of reporting the domain error.
---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 14d7086..6a046a8 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -262,7 +262,9 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> tan(fixed_num<T, I, f, r> fp)
 {
     auto cosx = cos(fp);
-    if(abs(cosx).internal_value() > 1)
+    // below this, the quotient does not fit the store type.
+    constexpr T limit = 2 * f + 1 > sizeof(T) * 8 ? T(1) << (2 * f + 1 - sizeof(T) * 8) : T(1);
+    if(abs(cosx).internal_value() > limit)
         return sin(fp) / cosx;
     else
         EIRIN_THROW_EXCEPTION(std::domain_error, "tan() domain error");
-- 
2.43.0


From 27b6e3e1e09461bb16ffb6e35ec4f490e5f68015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 10/40] fix: atan() outside [-1, 1]

The polynomial only fits [-1, 1]; atan(2) returned 1.61 and larger inputs
overflowed, which also broke asin() and acos() above sqrt(2) / 2.
---
 include/eirin/math.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 6a046a8..ad2ab31 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -291,10 +291,13 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> atan(fixed_num<T, I, f, r> f
     constexpr auto b = fixed::template from_fixed_num_value<61>(0X5191A2296020A80); // 0.15931422
     constexpr auto c = fixed::template from_fixed_num_value<61>(0XA7BE2BC19C39800); // 0.327622764
     // TODO: because fixed point cannot represent infinity, so we need to handle the case when fp is very large.
-    auto abs_fp = abs(fp);
-    auto x = abs_fp;
+    auto abs_fp = fp == min_value<fixed>() ? max_value<fixed>() : abs(fp);
+    // the polynomial fits [0, 1], so use atan(x) = pi / 2 - atan(1 / x) outside of it.
+    auto x = abs_fp > fixed(1) ? fixed(1) / abs_fp : abs_fp;
     auto x2 = x * x;
     fixed result = ((a * x2 + b) * x2 - c) * x2 * x + x;
+    if(abs_fp > fixed(1))
+        result = pi / fixed(2) - result;
     // if the input is negative, return negative result.
     if(fp.signbit_mask() & fp.internal_value())
         result = -result;
-- 
2.43.0


From 42a9c3a4f54e2f4a4649302ac295f100f1eafaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 11/40] fix: exp() of large negative arguments

exp(-11) inverted an overflowed exp(11), returning garbage or dividing by zero.
---
 include/eirin/math.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index ad2ab31..b3be578 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -542,7 +542,13 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
     if(fp == fixed(0))
         return fixed(1);
     if(fp < fixed(0))
+    {
+        // exp(-fp) must fit, below this exp(fp) is practically zero.
+        constexpr auto limit = log(std::numeric_limits<fixed>::max()) - fixed(1) / 32;
+        if(fp < -limit)
+            return fixed(0);
         return fixed(1) / detail::exp_expand(-fp);
+    }
     return detail::exp_expand(fp);
 }
 
-- 
2.43.0


From 9d5de8d4de97e6674fb6ad26d4d37ea5c7540457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 12/40] fix: pow() of a negative base with a fixed point
 exponent

log() throws for a negative base, which terminated the program because pow()
was noexcept, even for integral exponents such as pow(-2, 3).
---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index b3be578..22c573c 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -555,7 +555,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
 // TODO: This function has performance issue on MSVC,
 // which is about 5x slower than the result of clang-cl.
 template <typename T, typename I, unsigned int f, bool r>
-EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e) noexcept
+EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b, fixed_num<T, I, f, r> e)
 {
     using fixed = fixed_num<T, I, f, r>;
     if(b == fixed(0))
@@ -568,6 +568,8 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
     // the integer part of the input exponent.
     const T e_int = static_cast<T>(e.internal_value() / (I(1) << f));
     e -= e_int;
+    if(e == fixed(0))
+        return pow(b, e_int);
 
     return pow(b, e_int) * exp(e * log(b));
 }
-- 
2.43.0


From 13113b91dc33dfff4659b822fb8057e13c060977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 13/40] fix: cbrt() diverging or dividing by zero

The Newton iteration squared its first guess out of range (cbrt(769) was off by
247, cbrt(-2) divided by zero). Find the root bit by bit instead.
---
 include/eirin/math.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 22c573c..f0d7740 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -353,32 +353,33 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> acos(fixed_num<T, I, f, r> f
 //TODO: Implement asin and acos functions with CORDIC, and optimize other functions with CORDIC.
 
 /**
- * @brief cbrt function for fixed point number, which used newton method to calculate the cbrt.
+ * @brief cbrt function for fixed point number, which finds the cbrt bit by bit.
  * 
  * @tparam T @see fixed_num
  * @tparam I @see fixed_num
  * @tparam f @see fixed_num
  * @tparam r @see fixed_num
- * @tparam iter_max max iteration times, default is 200.
  * @param fp 
  * @return cbrt(fp)
  */
-template <typename T, typename I, unsigned int f, bool r, int iter_max = 200>
+template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) < fixed::epsilon())
+    if(fp == fixed(0))
         return fixed(0);
-    auto x = (fixed(fp) + 2) / 3;
-    auto iter_count = 0;
-    constexpr auto precision = fixed::nearly_compare_epsilon() * 2;
-
-    while(abs(fp - (x * x * x)) >= precision && iter_count <= iter_max)
+    const T value = fp == min_value<fixed>() ? max_value<fixed>().internal_value() : abs(fp).internal_value();
+    // find the largest x with x * x * x <= abs(fp), from the highest bit to the lowest.
+    constexpr unsigned int shift = std::min<unsigned int>(2 * f, sizeof(T) * 8);
+    const I target = static_cast<I>(value) << shift;
+    I x = 0;
+    for(int i = (detail::find_msb(value) + 2 * static_cast<int>(f)) / 3; i >= 0; --i)
     {
-        x = (fp / (x * x) + x * 2) / 3;
-        ++iter_count;
+        const I next = x | (I(1) << i);
+        if(((next * next) >> (2 * f - shift)) <= target / next)
+            x = next;
     }
-    return x;
+    return fixed::from_internal_value(static_cast<T>(fp < fixed(0) ? -x : x));
 }
 
 /**
-- 
2.43.0


From 58c5b102c346f500536b8902fcce472b6900eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:20 +0000
Subject: [PATCH 14/40] fix: out of range and long inputs in the string parsers

Long integer parts overflowed and were accepted as garbage, a fraction with 64
zeros divided by zero, the lowest value was rejected because its magnitude was
range checked, digits were compared as char for wide strings, and anything
after the significant fraction digits was accepted.
---
 include/eirin/fixed.hpp | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index b12df8f..9c4073c 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -695,7 +695,7 @@ namespace detail
         size_t pos = 0;
         bool negative = false;
 
-        auto check_ch = [](char ch) -> bool
+        auto check_ch = [](CharT ch) -> bool
         {
             // This should be faster than isdigit
             return '0' <= ch && ch <= '9';
@@ -719,6 +719,9 @@ namespace detail
             if(!check_ch(str[pos]))
                 return false;
             int_part = int_part * 10 + (next() - '0');
+            // the smallest value has the largest integer part.
+            if(int_part > (static_cast<I>(std::numeric_limits<T>::max()) >> fixed::precision) + 1)
+                return false;
         }
 
         I fixed_value;
@@ -732,9 +735,11 @@ namespace detail
             {
                 if(!check_ch(str[pos]))
                     return false;
-                if(dec_part > max_fraction / 10)
+                // skip the digits that are out of precision.
+                if(dec_part > max_fraction / 10 || divisor > (I(1) << (sizeof(I) * 8 - 5)))
                 {
-                    break;
+                    ++pos;
+                    continue;
                 }
                 auto digit = next() - '0';
                 dec_part = dec_part * 10 + digit;
@@ -747,6 +752,8 @@ namespace detail
             fixed_value = int_part << fixed::precision;
         }
 
+        if(negative)
+            fixed_value = -fixed_value;
         // check overflow
         if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
         {
@@ -754,8 +761,6 @@ namespace detail
         }
 
         fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-        if(negative)
-            fp = -fp;
         return true;
     }
 } // namespace detail
@@ -927,6 +932,11 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             return false;
         }
         int_part = int_part * 10 + (next() - '0');
+        // the smallest value has the largest integer part.
+        if(int_part > (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1)
+        {
+            return false;
+        }
     }
     int64_t fixed_value;
     // parse the decimal part.
@@ -941,9 +951,11 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
             {
                 return false;
             }
-            if(dec_part > max_fraction / 10)
+            // skip the digits that are out of precision.
+            if(dec_part > max_fraction / 10 || divisor > (int64_t(1) << 59))
             {
-                break;
+                ++pos;
+                continue;
             }
             auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
@@ -956,6 +968,8 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
         fixed_value = int_part << fixed32::precision;
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
     // check overflow
     if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
     {
@@ -963,8 +977,6 @@ inline bool f32_from_cstring(const char* str, size_t len, fixed32& fp) noexcept
     }
 
     fp = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
@@ -1005,6 +1017,9 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         if(!check_ch(peek()))
             break;
         int_part = int_part * 10 + (next() - '0');
+        // the smallest value has the largest integer part.
+        if(int_part > (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1)
+            return false;
     }
     I fixed_value = I(0);
     // parse the decimal part.
@@ -1015,7 +1030,7 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !check_ch(peek()))
+            if(dec_part > max_fraction / 10 || divisor > (I(1) << (sizeof(I) * 8 - 5)) || !check_ch(peek()))
                 break;
             auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
@@ -1028,6 +1043,8 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
         fixed_value = (int_part << f);
     }
 
+    if(negative)
+        fixed_value = -fixed_value;
     // check overflow
     if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
     {
@@ -1035,8 +1052,6 @@ constexpr bool fixed_from_cstring(const char* str, size_t len, fixed_num<T, I, f
     }
 
     fp = fixed::from_internal_value(static_cast<T>(fixed_value));
-    if(negative)
-        fp = -fp;
     return true;
 }
 
-- 
2.43.0


From bd4db7f005a2e6d6a03001bbeb551c75ed3b01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:20 +0000
Subject: [PATCH 15/40] fix: operator>> overflowing the store type

The digits were accumulated and shifted in the store type, so reading
0.65535 or 40000 into a fixed32 overflowed. Accumulate in the intermediate type
and set failbit, leaving the value alone, when it does not fit.
---
 include/eirin/fixed.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 9c4073c..0da1eb7 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1083,36 +1083,45 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         next();
     }
 
-    T int_part = T(0), dec_part = T(0);
+    I int_part = I(0), dec_part = I(0), fixed_value = I(0);
+    constexpr auto max_int_part = (static_cast<I>(std::numeric_limits<T>::max()) >> f) + 1;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
         if(!isdigit(peek()))
             break;
-        int_part = int_part * 10 + (next() - '0');
+        int_part = std::min<I>(int_part * 10 + (next() - '0'), max_int_part + 1);
     }
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
         constexpr auto max_fraction = (T(1) << f) - T(1);
-        T scale = T(1), divisor = T(1);
+        I divisor = I(1);
         while(has_next())
         {
-            if(dec_part > max_fraction / 10 || !isdigit(peek()))
+            if(!isdigit(peek()))
                 break;
             auto digit = next() - '0';
+            // skip the digits that are out of precision.
+            if(dec_part > max_fraction / 10 || divisor > (I(1) << (sizeof(I) * 8 - 5)))
+                continue;
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        fp = fixed::from_internal_value((int_part << f) + (dec_part << f) / divisor);
+        fixed_value = (int_part << f) + (dec_part << f) / divisor;
     }
     else
     {
-        fp = fixed::from_internal_value(int_part << f);
+        fixed_value = int_part << f;
     }
     if(negative)
-        fp = -fp;
+        fixed_value = -fixed_value;
+    // check overflow
+    if(fixed_value > static_cast<I>(std::numeric_limits<T>::max()) || fixed_value < static_cast<I>(std::numeric_limits<T>::min()))
+        is.setstate(std::ios_base::failbit);
+    else
+        fp = fixed::from_internal_value(static_cast<T>(fixed_value));
     return is;
 }
 
-- 
2.43.0


From bfd66a4a0083c6d8b1d5c574d4fc64b62325a90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:21 +0000
Subject: [PATCH 16/40] fix: io::parse(string_view) reading past the end of the
 view

The end was detected by comparing characters with the one past the view, which
reads out of bounds and stops early: parsing "1.11" out of "1.111" gave 0.
---
 include/eirin/io/parse.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 78eca81..00b8440 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -8,6 +8,13 @@
 
 namespace eirin::io
 {
+namespace detail
+{
+    // parse until at_end(pos) holds, returns start if failed.
+    template <typename AtEnd>
+    inline const char* parse_impl(const char* start, AtEnd at_end, fixed32& out);
+} // namespace detail
+
 /**
  * @brief Parse fixed point number from string
  *
@@ -17,6 +24,12 @@ namespace eirin::io
  * @return the pos of the pointer.
  */
 inline const char* parse(const char* start, const char* stop, fixed32& out)
+{
+    return detail::parse_impl(start, [stop](const char* cur) { return *cur == *stop; }, out);
+}
+
+template <typename AtEnd>
+inline const char* detail::parse_impl(const char* start, AtEnd at_end, fixed32& out)
 {
     size_t pos = 0;
     bool negative = false;
@@ -31,7 +44,7 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
     };
     auto has_next = [&]() -> bool
     {
-        return *start != *stop;
+        return !at_end(start);
     };
 
     if(has_next() && peek() == '-')
@@ -88,11 +101,9 @@ inline const char* parse(const char* start, const char* stop, fixed32& out)
 
 inline const char* parse(std::string_view str, fixed32& out)
 {
-    return parse(
-        std::to_address(str.begin()),
-        std::to_address(str.end()),
-        out
-    );
+    // the character at the end of the view must not be read.
+    const char* stop = str.data() + str.size();
+    return detail::parse_impl(str.data(), [stop](const char* cur) { return cur == stop; }, out);
 }
 } // namespace eirin::io
 
-- 
2.43.0


From a9af04041a03636c55162850245e42685d708965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:21 +0000
Subject: [PATCH 17/40] fix: io::parse overflowing int32_t

0.51234 overflowed while scaling the fraction and parsed as a negative number,
and integer parts out of range were accepted as garbage.
---
 include/eirin/io/parse.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/eirin/io/parse.hpp b/include/eirin/io/parse.hpp
index 00b8440..9e06116 100644
--- a/include/eirin/io/parse.hpp
+++ b/include/eirin/io/parse.hpp
@@ -58,7 +58,7 @@ inline const char* detail::parse_impl(const char* start, AtEnd at_end, fixed32&
         return '0' <= ch && ch <= '9';
     };
 
-    int32_t int_part = 0, dec_part = 0;
+    int64_t int_part = 0, dec_part = 0, fixed_value = 0;
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
@@ -67,35 +67,47 @@ inline const char* detail::parse_impl(const char* start, AtEnd at_end, fixed32&
             return start -= pos;
         }
         int_part = int_part * 10 + (next() - '0');
+        // the smallest value has the largest integer part.
+        if(int_part > (static_cast<int64_t>(std::numeric_limits<int32_t>::max()) >> fixed32::precision) + 1)
+        {
+            return start -= pos;
+        }
     }
     // parse the decimal part.
     if(has_next() && peek() == '.')
     {
         next();
         constexpr auto max_fraction = (1 << fixed32::precision) - 1;
-        int32_t divisor = 1;
+        int64_t divisor = 1;
         while(has_next())
         {
             if(!is_digit(peek()))
             {
                 return start -= pos;
             }
-            if(dec_part > max_fraction / 10)
+            auto digit = next() - '0';
+            // skip the digits that are out of precision.
+            if(dec_part > max_fraction / 10 || divisor > (int64_t(1) << 59))
             {
-                break;
+                continue;
             }
-            auto digit = next() - '0';
             dec_part = dec_part * 10 + digit;
             divisor *= 10;
         }
-        out = fixed32::from_internal_value((int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor);
+        fixed_value = (int_part << fixed32::precision) + (dec_part << fixed32::precision) / divisor;
     }
     else
     {
-        out = fixed32::from_internal_value(int_part << fixed32::precision);
+        fixed_value = int_part << fixed32::precision;
     }
     if(negative)
-        out = -out;
+        fixed_value = -fixed_value;
+    // check overflow
+    if(fixed_value > static_cast<int64_t>(std::numeric_limits<int32_t>::max()) || fixed_value < static_cast<int64_t>(std::numeric_limits<int32_t>::min()))
+    {
+        return start -= pos;
+    }
+    out = fixed32::from_internal_value(static_cast<int32_t>(fixed_value));
     return start;
 }
 
-- 
2.43.0


From e438c20eeccabc81ae65ea56355b34adb5856eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:21 +0000
Subject: [PATCH 18/40] fix: permuted_congruential_engine shifting by more than
 the word size

The shift count was the whole state, so the generated sequence was undefined
and differed between compilers and optimisation levels.
---
 include/eirin/random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 8b74e59..12b4dc6 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -50,7 +50,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_first(UIntType x)
     {
-        x >>= 8 ^ x;
+        x >>= (8 ^ x) & (sizeof(UIntType) * 8 - 1);
         x += increment;
         return x;
     }
@@ -64,7 +64,7 @@ protected:
 
     EIRIN_ALWAYS_INLINE UIntType mix_second(UIntType x)
     {
-        x >>= 8 ^ x;
+        x >>= (8 ^ x) & (sizeof(UIntType) * 8 - 1);
         x *= mix_multiplier;
         return x;
     }
-- 
2.43.0


From 1526250d419c29b9b8856078d702925fbad317a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:21 +0000
Subject: [PATCH 19/40] fix: permuted_congruential_engine::seed() restarts the
 sequence

seed(s) kept the state counter, so a reseeded engine differed from one
constructed with the same seed.
---
 include/eirin/random.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eirin/random.hpp b/include/eirin/random.hpp
index 12b4dc6..928f565 100644
--- a/include/eirin/random.hpp
+++ b/include/eirin/random.hpp
@@ -101,6 +101,7 @@ public:
     void seed(result_type seed = default_seed)
     {
         m_seed = seed;
+        m_state = state;
     }
 
     void seed(std::seed_seq& seq)
-- 
2.43.0


From 383ab26548a18a5b2df0a85a6212b7d5a3424bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:21 +0000
Subject: [PATCH 20/40] fix: distribution adapters ignoring the passed
 parameters

operator()(g, param) always drew from the stored range.
---
 include/eirin/detail/distribution.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/eirin/detail/distribution.hpp b/include/eirin/detail/distribution.hpp
index 376a9fa..81ca21f 100644
--- a/include/eirin/detail/distribution.hpp
+++ b/include/eirin/detail/distribution.hpp
@@ -101,8 +101,7 @@ public:
     template <typename _UniformRandomBitGenerator>
     FixedType operator()(_UniformRandomBitGenerator& g, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(g);
+        auto raw_val = m_dist(g, param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
@@ -237,8 +236,7 @@ public:
     template <typename _UniformRandomBitGeneratorAdapter>
     FixedType operator()(_UniformRandomBitGeneratorAdapter& a, const param_type& param)
     {
-        // the m_param and the underlying distribution should be consistent, so just call m_dist.operator(g)
-        auto raw_val = m_dist(a.__underlying_engine());
+        auto raw_val = m_dist(a.__underlying_engine(), param.to_underlying());
         return FixedType::template from_fixed_num_value<result_type::precision>(static_cast<value_type>(raw_val));
     }
 
-- 
2.43.0


From ba0e8d08fc5d5f5d8071f9df92f5641dbd2f3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:21 +0000
Subject: [PATCH 21/40] fix: cordic_sine() of negative angles

Clearing the sign bit of a two's complement value is not its magnitude, so
cordic_sine(-1) was the sine of 32767.
---
 include/eirin/ext/cordic.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/include/eirin/ext/cordic.hpp b/include/eirin/ext/cordic.hpp
index 365e98a..e78eb2c 100644
--- a/include/eirin/ext/cordic.hpp
+++ b/include/eirin/ext/cordic.hpp
@@ -81,13 +81,9 @@ namespace detail
 
         sin_sign = Q < const_0 ? -1 : 1;
 
-        // abs Q with signbit mask.
-        auto sign_mask = Q.signbit_mask();
-        auto abs_value = Q.m_value & ~sign_mask;
-        Q = FP::from_internal_value(abs_value);
-
         // scale angel into [-2*pi, 2*pi].
         Q %= double_pi;
+        Q = abs(Q);
         
         const bool in_second_half = (Q > pi);
         Q = in_second_half ? (Q - pi) : Q;
-- 
2.43.0


From a510077b84909288e7522f1b2739f1b3ef2af6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:21 +0000
Subject: [PATCH 22/40] fix: std::format of fractions

A precision of 0 left a dangling point ("1."), and with more than n - 5 fraction
bits the digits overflowed the store type.
---
 include/eirin/io/format.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 1448dff..ffbd4b5 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -140,7 +140,7 @@ public:
             bool has_frac = (frac_val != 0);
             int used_prec = 0;
 
-            if(has_frac)
+            if(has_frac && m_state.precision != 0)
             {
                 body.push_back(static_cast<CharT>('.'));
 
@@ -150,14 +150,14 @@ public:
 
                 int eff_prec = (m_state.precision < 0) ? 6 : m_state.precision;
 
-                T frac_bits = frac_val;
+                I frac_bits = frac_val;
                 for(unsigned int i = 0; i < F && used_prec < eff_prec; ++i)
                 {
                     if(frac_bits == 0) break;
 
-                    T shifted = frac_bits * static_cast<T>(10);
-                    T digit = shifted >> F;
-                    frac_bits = shifted & ((static_cast<T>(1) << F) - static_cast<T>(1));
+                    I shifted = frac_bits * static_cast<I>(10);
+                    I digit = shifted >> F;
+                    frac_bits = shifted & ((static_cast<I>(1) << F) - static_cast<I>(1));
 
                     body.push_back(static_cast<CharT>(digits[static_cast<size_t>(digit)]));
                     ++used_prec;
-- 
2.43.0


From f0719f5dd42aba937e2e0d51c3d76df252a3e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:17 +0000
Subject: [PATCH 23/40] fix: std::format zero padding in front of the sign

{:08.2f} printed -0.5 as 000-0.50.
---
 include/eirin/io/format.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index ffbd4b5..dffaa02 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -178,6 +178,7 @@ public:
             }
         }
 
+        pad_zeros(body, prefix.size());
         return output_aligned(out, body);
     }
 
@@ -218,6 +219,7 @@ private:
 
         if(m_state.alt_form)
             append_alt_prefix(body, 16, upper);
+        const auto prefix_size = body.size();
 
         const auto& digits = detail::digit_map_lower;
 
@@ -237,9 +239,17 @@ private:
             body += rev;
         }
 
+        pad_zeros(body, prefix_size);
         return output_aligned(out, body);
     }
 
+    // Fill the width with zeros between the sign or prefix and the digits
+    void pad_zeros(std::basic_string<CharT>& body, std::size_t prefix_size) const
+    {
+        if(m_state.zero_pad && m_state.width_val > 0 && body.size() < static_cast<std::size_t>(m_state.width_val))
+            body.insert(prefix_size, static_cast<std::size_t>(m_state.width_val) - body.size(), static_cast<CharT>('0'));
+    }
+
     // Convert an integer to a string in the given base
     template <typename ValType>
     static std::basic_string<CharT> int_to_string(ValType ival, int base, bool uppercase)
-- 
2.43.0


From 542984cd6735d38b4c2d429aba8e1400b1468f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:17 +0000
Subject: [PATCH 24/40] fix: stream output of types with few integer bits and
 of unsigned types

Scaling the fraction by ten overflowed the store type with more than n - 5
fraction bits, and an unsigned 2^(n-1) was printed as a negative number.
---
 include/eirin/fixed.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 0da1eb7..6199543 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -533,16 +533,16 @@ public:
     )
     {
         const char* digits = uppercase ? "0123456789ABCDEF" : "0123456789abcdef";
-        Type divisor = static_cast<Type>(1) << fraction;
+        IntermediateType divisor = static_cast<IntermediateType>(1) << fraction;
         auto put_char = [&out](const char c)
         {
             *out = c;
             ++out;
         };
 
-        auto value = val.m_value;
-        Type int_part;
-        if(value == val.signbit_mask())
+        auto value = static_cast<IntermediateType>(val.m_value);
+        IntermediateType int_part;
+        if(std::is_signed_v<Type> && value == val.signbit_mask())
         {
             put_char('-');
             int_part = ~(value >> fraction) + 1;
-- 
2.43.0


From ecc2facafef9fce585d0440bbbb90366dc453ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:45 +0000
Subject: [PATCH 25/40] fix: sqrt() of 32-bit types without 16 fraction bits
 and of negative fixed32

The bit hack only works for 16.16 numbers, 12.20 gave sqrt(4) = 0.125.
Negative fixed32 arguments returned garbage, not -1 as for the other types.
---
 include/eirin/math.hpp | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index f0d7740..914a574 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -99,21 +99,13 @@ template <typename T, typename I, unsigned int f, bool r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> fp) noexcept
 {
     using fixed = fixed_num<T, I, f, r>;
-    // test if T is int32_t, if so, we can use the fast sqrt algorithm.
+    // test if it is a 16.16 number, if so, we can use the fast sqrt algorithm.
     // if not, using newton method.
-    if constexpr(std::is_same_v<T, int32_t>)
+    if constexpr(std::is_same_v<T, int32_t> && f == 16)
     {
-        uint64_t t, q = 0, b = 0x40000000UL, v;
-        if constexpr(f > 16)
-        {
-            constexpr auto move = f - 16;
-            v = fp.internal_value() >> move;
-        }
-        else
-        {
-            constexpr auto move = 16 - f;
-            v = fp.internal_value() << move;
-        }
+        if(fp < fixed(0))
+            return fixed(-1);
+        uint64_t t, q = 0, b = 0x40000000UL, v = fp.internal_value();
 
         // fix number sqrt using bit hack.
         if(v < 0x40000200)
-- 
2.43.0


From 2925952821164e2adbb1a3bc411a84ad5be1c4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:45 +0000
Subject: [PATCH 26/40] fix: sqrt() overflowing next to the largest value

---
 include/eirin/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 914a574..9503dcc 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -170,7 +170,9 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> sqrt(fixed_num<T, I, f, r> f
         for(int i = 0; i < 5; ++i)
         {
             x = (x + fp / x) / 2;
-            if(abs(fp - x * x) < eps)
+            // x * x could exceed the largest value.
+            const I diff = static_cast<I>(val) - ((static_cast<I>(x.internal_value()) * x.internal_value()) >> f);
+            if((diff < 0 ? -diff : diff) < eps.internal_value())
                 break;
         }
         return x;
-- 
2.43.0


From 37e0a755379528a650da3ba75ff6b6196f960eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:14 +0000
Subject: [PATCH 27/40] fix: AVX-512 fixed point multiplication dropping the
 high bits

---
 include/eirin/ext/simd_math.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index 49ff889..b161cf1 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -112,11 +112,7 @@ namespace detail
 {
     EIRIN_ALWAYS_INLINE __m256i avx_mm256_mullo_epi64(__m256i __A, __m256i __B)
     {
-#ifdef __AVX512DQ__
-        // For machines with AVX-512, we just calc (a * b) >> 32.
-        return _mm256_srli_epi64(_mm256_mullo_epi64(__A, __B), 32);
-#else
-        // Fallback implementation for lane-wise 64-bit multiplication without AVX-512.
+        // Lane-wise 64-bit multiplication, AVX-512 only has the low 64 bits of the product.
         // Compute sign masks (0 or -1) from sign bit using shifts to avoid
         // relying on potentially unavailable 64-bit compare intrinsics.
         __m256i sign_bit_a = _mm256_srli_epi64(__A, 63);
@@ -147,7 +143,6 @@ namespace detail
         // restore sign
         __m256i sign = _mm256_xor_si256(sign_mask_a, sign_mask_b);
         return _mm256_sub_epi64(_mm256_xor_si256(result, sign), sign);
-#endif
     }
 
     EIRIN_ALWAYS_INLINE __m256i _mm256_fpint_epi64(__m256i __X)
-- 
2.43.0


From bfeacd60866c99a372ce175d48fe02b107777343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:14 +0000
Subject: [PATCH 28/40] fix: simd_reduce_angle_2() multiplying 32-bit halves
 and swapping lanes

---
 include/eirin/ext/simd_math.hpp | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/include/eirin/ext/simd_math.hpp b/include/eirin/ext/simd_math.hpp
index b161cf1..39a1a2a 100644
--- a/include/eirin/ext/simd_math.hpp
+++ b/include/eirin/ext/simd_math.hpp
@@ -195,19 +195,6 @@ namespace detail
     // {
     //     static const __m256i threshold = _mm256_set1_epi64x((0.00015_f64).internal_value());
     // }
-
-    EIRIN_ALWAYS_INLINE __m128i __sse_simd_reduce_angle(__m128i x)
-    {
-        // these [2 * i64] vector stores the fixed point internal represent.
-        static constexpr int64_t two_pi_v[2] = {(numbers::pi_f64 * 2_f64).internal_value(), (numbers::pi_f64 * 2_f64).internal_value()};
-        static constexpr int64_t inv_two_pi_v[2] = {(1_f64 / (numbers::pi_f64 * 2_f64)).internal_value(), (1_f64 / (numbers::pi_f64 * 2_f64)).internal_value()};
-        static const __m128i two_pi = _mm_lddqu_si128((__m128i*)two_pi_v);
-        static const __m128i inv_two_pi = _mm_lddqu_si128((__m128i*)inv_two_pi_v);
-        // n = x / (2pi)
-        __m128i n = _mm_mul_epi32(x, inv_two_pi);
-        // x = x - n * (2pi)
-        return _mm_sub_epi64(x, _mm_mul_epi32(n, two_pi));
-    }
 } // namespace detail
 
 #define FIXED64(X) fixed64::from_internal_value(X)
@@ -222,10 +209,8 @@ EIRIN_ALWAYS_INLINE std::array<fixed64, 4> simd_reduce_angle(std::array<fixed64,
 
 EIRIN_ALWAYS_INLINE std::array<fixed64, 2> simd_reduce_angle_2(std::array<fixed64, 2> xs) noexcept
 {
-    __m128i xv = _mm_lddqu_si128((__m128i*)xs.data());
-    __m128i rv = detail::__sse_simd_reduce_angle(xv);
-    int64_t r1 = _mm_extract_epi64(rv, 0b1), r2 = _mm_extract_epi64(rv, 0b0);
-    return {FIXED64(r1), FIXED64(r2)};
+    const auto rs = simd_reduce_angle({xs[0], xs[1], FIXED64(0), FIXED64(0)});
+    return {rs[0], rs[1]};
 }
 
 #undef FIXED64
-- 
2.43.0


From 00331b0fade43cc22d42d2f4201c712ec1e19240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:01 +0000
Subject: [PATCH 29/40] fix: log2() of types with more than 32 fraction bits

The first result bit was shifted out of an unsigned int.
---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 9503dcc..fe2e5ba 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -413,7 +413,7 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> log2(fixed_num<T, I, f, r> f
     // The assembly code of '-O3' optimization is to expand the for loop code into tons of code segments,
     // which makes the performance of the code much slower than '-O2' optimization.
     // I prefer this situation is abnormal, but I don't know why.
-    T b = 1u << (f - 1), y = 0, x = fp.internal_value();
+    T b = static_cast<T>(1) << (f - 1), y = 0, x = fp.internal_value();
     if(fp <= fixed(0))
         EIRIN_THROW_EXCEPTION(std::domain_error, "log2() domain error");
 
-- 
2.43.0


From a27d67a4b923ec4195979a050e2ca1a79f32ef7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:36 +0000
Subject: [PATCH 30/40] fix: exp() using half of the linear coefficient

1.00008 needs an integer bit, so the constant has 62 fraction bits; exp(0.54)
was off by 18 percent.
---
 include/eirin/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index fe2e5ba..5da76e7 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -523,7 +523,7 @@ namespace detail
         constexpr auto b = fixed::template from_fixed_num_value<63>(0x04745859810836DAll); // 3.4800571158543038e-2
         constexpr auto c = fixed::template from_fixed_num_value<63>(0x15CFBB5C306F85F3ll); // 1.7040197373796334e-1
         constexpr auto d = fixed::template from_fixed_num_value<63>(0x3FE26186C531F98Ell); // 4.9909609871464493e-1
-        constexpr auto e = fixed::template from_fixed_num_value<63>(0x40014D4407008BB0ll); // 1.0000794567422495
+        constexpr auto e = fixed::template from_fixed_num_value<62>(0x40014D4407008BB0ll); // 1.0000794567422495
         constexpr auto _f = fixed::template from_fixed_num_value<63>(0x7FFFF686446F1B43ll); // 9.9999887043019773e-1
         return pow(numbers::e_v<fixed>(), x_int) * (_f + fp * (e + fp * (d + fp * (c + fp * (b + fp * a)))));
     }
-- 
2.43.0


From 2965048b1fe37d7025d6789e934b69c210682d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:04 +0000
Subject: [PATCH 31/40] fix: asin() overflowing next to 1 and -1

x / sqrt(1 - x * x) does not fit types with few integer bits, 8.24 gave a result of the wrong sign.
---
 include/eirin/math.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 5da76e7..f41d276 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -326,7 +326,11 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> f
         return pi / fixed(2);
     else if(fp == fixed(-1))
         return -pi / fixed(2);
-    return atan(fp / sqrt(fixed(1) - fp * fp));
+    const auto x = abs(fp), y = sqrt(fixed(1) - fp * fp);
+    // next to 1 and -1 the quotient might not fit, use its reciprocal.
+    if(x > y)
+        return fp < fixed(0) ? atan(y / x) - pi / fixed(2) : pi / fixed(2) - atan(y / x);
+    return atan(fp / y);
 }
 
 template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r> pi = numbers::pi_v<fixed_num<T, I, f, r>>()>
-- 
2.43.0


From afd3dcfc76bb52247c25a6828c749b28d63f8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:29 +0000
Subject: [PATCH 32/40] fix: exp() flushing representable results of large
 negative arguments to zero

---
 include/eirin/math.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index f41d276..f2c920c 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -542,11 +542,15 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> exp(fixed_num<T, I, f, r> fp
         return fixed(1);
     if(fp < fixed(0))
     {
-        // exp(-fp) must fit, below this exp(fp) is practically zero.
+        // exp(-fp) must fit, so use exp(fp) = exp(fp / 2) * exp(fp / 2) below this.
         constexpr auto limit = log(std::numeric_limits<fixed>::max()) - fixed(1) / 32;
-        if(fp < -limit)
-            return fixed(0);
-        return fixed(1) / detail::exp_expand(-fp);
+        int halved = 0;
+        for(; fp < -limit; ++halved)
+            fp /= 2;
+        auto res = fixed(1) / detail::exp_expand(-fp);
+        for(; halved > 0; --halved)
+            res *= res;
+        return res;
     }
     return detail::exp_expand(fp);
 }
-- 
2.43.0


From 3548fba990046f1e9f29a3aca84dfc8c37b18dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:42 +0000
Subject: [PATCH 33/40] fix: pow() dividing by an overflowed power for negative
 exponents

pow(2_f32, -16) divided by zero.
---
 include/eirin/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index f2c920c..5a90539 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -500,6 +500,14 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> pow(fixed_num<T, I, f, r> b,
         {
             if(e % 2 != 0)
                 res /= i;
+            const I square = (static_cast<I>(i.internal_value()) * i.internal_value()) >> f;
+            if(square > static_cast<I>(std::numeric_limits<T>::max()))
+            {
+                // i * i does not fit, divide by i until nothing is left.
+                for(e = e / 2 * 2; e != 0 && res != fixed(0); ++e)
+                    res /= i;
+                break;
+            }
         }
     }
     else
-- 
2.43.0


From b172143eb099622f8ca3640116b588ae30bff821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:54 +0000
Subject: [PATCH 34/40] fix: asin() and acos() negating the lowest value

---
 include/eirin/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 5a90539..06dddc8 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -320,7 +320,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> asin(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "asin() domain error");
     if(fp == fixed(1))
         return pi / fixed(2);
@@ -337,7 +337,7 @@ template <typename T, typename I, unsigned int f, bool r, fixed_num<T, I, f, r>
 EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> acos(fixed_num<T, I, f, r> fp)
 {
     using fixed = fixed_num<T, I, f, r>;
-    if(abs(fp) > fixed(1))
+    if(fp > fixed(1) || fp < fixed(-1))
         EIRIN_THROW_EXCEPTION(std::domain_error, "acos() domain error");
     if(fp == fixed(1))
         return fixed(0);
-- 
2.43.0


From 92da1f5b43bc6aab30837bdec17fcafd8cb39300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:46 +0000
Subject: [PATCH 35/40] fix: rounding floating point values just below one half
 up

---
 include/eirin/fixed.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index 6199543..fc06907 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -187,9 +187,17 @@ public:
         }
         else
         {
-            m_value = static_cast<Type>(
-                rounding ? (val >= 0.0) ? (val * fraction_multiplier + T{0.5}) : (val * fraction_multiplier - T{0.5}) : (val * fraction_multiplier)
-            );
+            const T scaled = val * fraction_multiplier;
+            m_value = static_cast<Type>(scaled);
+            if constexpr(rounding)
+            {
+                // scaled + 0.5 could be rounded itself.
+                const T rest = scaled - static_cast<T>(m_value);
+                if(rest >= T{0.5})
+                    ++m_value;
+                else if(rest <= T{-0.5})
+                    --m_value;
+            }
         }
     };
 
-- 
2.43.0


From b7943798f30157dd819806e873b257ca7fe9a779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:30 +0000
Subject: [PATCH 36/40] fix: cbrt() of types with more fraction bits than
 integer bits

---
 include/eirin/math.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/eirin/math.hpp b/include/eirin/math.hpp
index 06dddc8..c636bd8 100644
--- a/include/eirin/math.hpp
+++ b/include/eirin/math.hpp
@@ -374,7 +374,10 @@ EIRIN_ALWAYS_INLINE constexpr fixed_num<T, I, f, r> cbrt(fixed_num<T, I, f, r> f
     for(int i = (detail::find_msb(value) + 2 * static_cast<int>(f)) / 3; i >= 0; --i)
     {
         const I next = x | (I(1) << i);
-        if(((next * next) >> (2 * f - shift)) <= target / next)
+        // compare next * next * next to the target without leaving I.
+        const I square = next * next, high = square >> (2 * f - shift), low = square - (high << (2 * f - shift));
+        const I quotient = target / next;
+        if(high < quotient || (high == quotient && low * next <= (target - quotient * next) << (2 * f - shift)))
             x = next;
     }
     return fixed::from_internal_value(static_cast<T>(fp < fixed(0) ? -x : x));
-- 
2.43.0


From fb4e321f631c2283ca67efa5b468891868dd98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:57 +0000
Subject: [PATCH 37/40] fix: operator>> passing negative and wide characters to
 isdigit()

---
 include/eirin/fixed.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index fc06907..a36408e 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1081,6 +1081,10 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         auto ch = is.peek();
         return !is.eof();
     };
+    auto check_ch = [](CharT ch) -> bool
+    {
+        return '0' <= ch && ch <= '9';
+    };
     if(!has_next())
     {
         return is;
@@ -1096,7 +1100,7 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     // parse the integer part.
     while(has_next() && peek() != '.')
     {
-        if(!isdigit(peek()))
+        if(!check_ch(peek()))
             break;
         int_part = std::min<I>(int_part * 10 + (next() - '0'), max_int_part + 1);
     }
@@ -1108,7 +1112,7 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
         I divisor = I(1);
         while(has_next())
         {
-            if(!isdigit(peek()))
+            if(!check_ch(peek()))
                 break;
             auto digit = next() - '0';
             // skip the digits that are out of precision.
-- 
2.43.0


From 35a4516e5733efdc4178e491a9b04c38b526ace0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:15 +0000
Subject: [PATCH 38/40] fix: std::format misreading '}' followed by an
 alignment character and ':' as fill

---
 include/eirin/io/format.hpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index dffaa02..7b2ac1b 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -393,21 +393,8 @@ public:
         auto it = ctx.begin();
         auto end = ctx.end();
 
-        if(it == end)
-        {
-            m_fmt.set_state(st);
-            return it;
-        }
-
-        {
-            auto p = it;
-            while(p != end && *p >= '0' && *p <= '9')
-                ++p;
-            if(p != end && *p == ':')
-                it = p + 1;
-        }
-
-        if(it == end)
+        // an empty specification, whatever text follows the replacement field
+        if(it == end || *it == '}')
         {
             m_fmt.set_state(st);
             return it;
-- 
2.43.0


From a7cdf663a73cafb4a2c7dd306d4c09195c2be9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:15 +0000
Subject: [PATCH 39/40] fix: std::format width and precision overflowing int

---
 include/eirin/io/format.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/eirin/io/format.hpp b/include/eirin/io/format.hpp
index 7b2ac1b..60a7763 100644
--- a/include/eirin/io/format.hpp
+++ b/include/eirin/io/format.hpp
@@ -444,7 +444,10 @@ public:
             st.width_val = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.width_val = st.width_val * 10 + static_cast<int>(*it - '0');
+                const int digit = static_cast<int>(*it - '0');
+                if(st.width_val > (std::numeric_limits<int>::max() - digit) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "width too large");
+                st.width_val = st.width_val * 10 + digit;
                 ++it;
             }
         }
@@ -456,7 +459,10 @@ public:
             st.precision = 0;
             while(it != end && *it >= '0' && *it <= '9')
             {
-                st.precision = st.precision * 10 + static_cast<int>(*it - '0');
+                const int digit = static_cast<int>(*it - '0');
+                if(st.precision > (std::numeric_limits<int>::max() - digit) / 10)
+                    EIRIN_THROW_EXCEPTION(std::format_error, "precision too large");
+                st.precision = st.precision * 10 + digit;
                 ++it;
             }
         }
-- 
2.43.0


From f0da977ceaadca8676ff9aa9317d685966d7e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:03 +0000
Subject: [PATCH 40/40] fix: operator>> failing at the end of the input and
 reading from a failed stream

Peeking again once eofbit is set makes the stream fail, so the last number of
a stream was reported as a failure; and a stream that had already failed was
treated as readable and the variable overwritten with zero.
---
 include/eirin/fixed.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/eirin/fixed.hpp b/include/eirin/fixed.hpp
index a36408e..5104e21 100644
--- a/include/eirin/fixed.hpp
+++ b/include/eirin/fixed.hpp
@@ -1078,8 +1078,8 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     };
     auto has_next = [&]() -> bool
     {
-        auto ch = is.peek();
-        return !is.eof();
+        // peeking again after the end has been reached would set failbit.
+        return is.good() && !Traits::eq_int_type(is.peek(), Traits::eof());
     };
     auto check_ch = [](CharT ch) -> bool
     {
@@ -1087,6 +1087,7 @@ std::basic_istream<CharT, Traits>& operator>>(std::basic_istream<CharT, Traits>&
     };
     if(!has_next())
     {
+        is.setstate(std::ios_base::failbit);
         return is;
     }
     else if(peek() == '-')
-- 
2.43.0

