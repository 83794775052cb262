From cf07c54f34f36d9c15af787ac0b6a37e3fca4f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:40 +0000
Subject: [PATCH 01/24] Verification hook: keep two constructs the verification
 compiler rejects out of GATL_VERIF builds

---
 cpp/include/gatl/ga/core/general_metric_mapping.hpp | 8 ++++++++
 cpp/include/gatl/ga/core/type_traits_extension.hpp  | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/cpp/include/gatl/ga/core/general_metric_mapping.hpp b/cpp/include/gatl/ga/core/general_metric_mapping.hpp
index 8e2e123..90da0d4 100644
--- a/cpp/include/gatl/ga/core/general_metric_mapping.hpp
+++ b/cpp/include/gatl/ga/core/general_metric_mapping.hpp
@@ -225,7 +225,11 @@ namespace ga {
                 struct columns_summation;
                 
                 template<bitset_t ColumnBasisVectors>
+#ifdef GATL_VERIF // Verification builds use a compiler that does not apply the default argument here.
+                using columns_summation_t = typename columns_summation<ColumnBasisVectors, void>::type;
+#else
                 using columns_summation_t = typename columns_summation<ColumnBasisVectors>::type;
+#endif // GATL_VERIF
 
                 template<bitset_t ColumnBasisVectors, typename _Dummy>
                 struct columns_summation {
@@ -249,7 +253,11 @@ namespace ga {
                 struct order_summation;
 
                 template<default_integral_t Order>
+#ifdef GATL_VERIF // Verification builds use a compiler that does not apply the default argument here.
+                using order_summation_t = typename order_summation<Order, void>::type;
+#else
                 using order_summation_t = typename order_summation<Order>::type;
+#endif // GATL_VERIF
 
                 template<default_integral_t Order, typename _Dummy>
                 struct order_summation {
diff --git a/cpp/include/gatl/ga/core/type_traits_extension.hpp b/cpp/include/gatl/ga/core/type_traits_extension.hpp
index b9c543b..50eba12 100644
--- a/cpp/include/gatl/ga/core/type_traits_extension.hpp
+++ b/cpp/include/gatl/ga/core/type_traits_extension.hpp
@@ -44,6 +44,7 @@ namespace ga {
         template<typename T>
         constexpr bool is_iterator_v = is_iterator<T>::value;
 
+#ifndef GATL_VERIF // Verification builds use a compiler that rejects the deduction of the type of a braced-init-list.
         // Helper function to convert a tuple into a list-initialization structure.
         template<typename Tuple, std::size_t... Indices>
         GA_ALWAYS_INLINE constexpr decltype(auto) _to_list_initialization(Tuple &&tuple, std::index_sequence<Indices...>) GA_NOEXCEPT {
@@ -54,6 +55,7 @@ namespace ga {
         GA_ALWAYS_INLINE constexpr decltype(auto) to_list_initialization(Tuple &&tuple) GA_NOEXCEPT {
             return _to_list_initialization(std::move(tuple), std::make_index_sequence<std::tuple_size_v<std::remove_cv_t<std::remove_reference_t<Tuple> > > >{});
         }
+#endif // GATL_VERIF
 
     }
 
-- 
2.43.0


From 9081e46b02bbb21c3ff2b85a831a79def457e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 02/24] fix: divide in floating point when a product has a
 reciprocal factor

mul<A, power<B, -1>> evaluated A / B with the operands' own types, so a
compile-time fraction such as c<3> / c<2> was truncated to 1 as soon as it
was stored or multiplied (e.g. (c<3> / c<2>) * (e1 ^ e2)).  power<B, -1> on
its own already divides in floating point; the product does now too.
---
 cpp/include/gatl/ga/core/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 824a7fb..3ae06c0 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1071,7 +1071,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
+                return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
             }
 
             static_assert(!is_any_v<constant_value<0>, LeftArgument>, "The argument ga::detail::constant_value<0> is invalid.");
-- 
2.43.0


From 5a457c55d80745fbf685d2e42a25c4b2bad34df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 03/24] fix: keep fractional constant coefficients in
 for_each_component and is_zero

---
 cpp/include/gatl/ga/extra/tests.hpp             | 2 +-
 cpp/include/gatl/ga/util/for_each_component.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/tests.hpp b/cpp/include/gatl/ga/extra/tests.hpp
index b46c133..0ea8d13 100644
--- a/cpp/include/gatl/ga/extra/tests.hpp
+++ b/cpp/include/gatl/ga/extra/tests.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr bool is_zero(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) {
         using std::abs;
-        return for_each_component(arg, [&](bitset_t const, CoefficientType const &value, entry_source_t const, entry_source_t const, bool &keep_going) { keep_going = abs(value) <= (CoefficientType)tol; });
+        return for_each_component(arg, [&](bitset_t const, auto const &value, entry_source_t const, entry_source_t const, bool &keep_going) { keep_going = abs(value) <= (std::remove_cv_t<std::remove_reference_t<decltype(value)> >)tol; });
     }
 
     template<typename CoefficientType, typename Expression>
diff --git a/cpp/include/gatl/ga/util/for_each_component.hpp b/cpp/include/gatl/ga/util/for_each_component.hpp
index d4f9edf..e9d3351 100644
--- a/cpp/include/gatl/ga/util/for_each_component.hpp
+++ b/cpp/include/gatl/ga/util/for_each_component.hpp
@@ -59,7 +59,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
                 bool keep_going = true;
-                f(BasisVectors, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(BasisVectors, Coefficient::template eval<0, 0>(std::make_tuple()), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 return keep_going;
             }
         };
@@ -82,7 +82,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
                 bool keep_going = true;
-                f(*bitset_citr, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(*bitset_citr, Coefficient::template eval<0, 0>(std::make_tuple()), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 ++bitset_citr;
                 return keep_going;
             }
-- 
2.43.0


From 593048009e760be96bdb057a2cf7bbb8afe66a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 04/24] fix: express the grade tests of the dot and Hestenes
 products with logical operations

---
 cpp/include/gatl/ga/core/dot_product.hpp            |  7 +++----
 cpp/include/gatl/ga/core/hestenes_inner_product.hpp | 12 +++++-------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/cpp/include/gatl/ga/core/dot_product.hpp b/cpp/include/gatl/ga/core/dot_product.hpp
index 1eee9e5..52675a2 100644
--- a/cpp/include/gatl/ga/core/dot_product.hpp
+++ b/cpp/include/gatl/ga/core/dot_product.hpp
@@ -52,10 +52,9 @@ namespace ga {
 
             template<typename LeftGrade, typename RightGrade, typename ResultGrade>
             struct are_valid_grades {
-                using type = if_else_t<
-                    less_or_equal_t<LeftGrade, RightGrade>,
-                    equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > >,
-                    equal_t<ResultGrade, addition_t<LeftGrade, product_t<constant_value<-1>, RightGrade, value_mapping> > >
+                using type = logical_or_t<
+                    logical_and_t<less_or_equal_t<LeftGrade, RightGrade>, equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > > >,
+                    logical_and_t<less_or_equal_t<RightGrade, LeftGrade>, equal_t<ResultGrade, addition_t<LeftGrade, product_t<constant_value<-1>, RightGrade, value_mapping> > > >
                 >;
             };
 
diff --git a/cpp/include/gatl/ga/core/hestenes_inner_product.hpp b/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
index 6a8f7cf..730206f 100644
--- a/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
+++ b/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
@@ -52,13 +52,11 @@ namespace ga {
 
             template<typename LeftGrade, typename RightGrade, typename ResultGrade>
             struct are_valid_grades {
-                using type = if_else_t<
-                    logical_or_t<equal_t<LeftGrade, constant_value<0> >, equal_t<RightGrade, constant_value<0> > >,
-                    std::false_type,
-                    if_else_t<
-                        less_or_equal_t<LeftGrade, RightGrade>,
-                        equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > >,
-                        equal_t<ResultGrade, addition_t<LeftGrade, product_t<constant_value<-1>, RightGrade, value_mapping> > >
+                using type = logical_and_t<
+                    logical_and_t<less_or_equal_t<constant_value<1>, LeftGrade>, less_or_equal_t<constant_value<1>, RightGrade> >,
+                    logical_or_t<
+                        logical_and_t<less_or_equal_t<LeftGrade, RightGrade>, equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > > >,
+                        logical_and_t<less_or_equal_t<RightGrade, LeftGrade>, equal_t<ResultGrade, addition_t<LeftGrade, product_t<constant_value<-1>, RightGrade, value_mapping> > > >
                     >
                 >;
             };
-- 
2.43.0


From f5b6fee138d4bf894d54b8b6223389976cd93773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 05/24] fix: do not separate square roots and powers where
 negative factors make it invalid

---
 .../core/expression_simplification_power.hpp  | 36 +++++++++++++++++--
 .../gatl/ga/core/expression_traits.hpp        |  2 +-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 68cef52..aa8ab77 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -302,6 +302,31 @@ namespace ga {
             };
         };
 
+        // Returns whether the given expression is an integral constant value.
+        template<typename Expression>
+        struct is_integral_constant :
+            std::false_type {
+        };
+
+        template<default_integral_t Value>
+        struct is_integral_constant<constant_value<Value> > :
+            std::true_type {
+        };
+
+        template<typename Expression>
+        constexpr bool is_integral_constant_v = is_integral_constant<Expression>::value;
+
+        // Applies the distributivity property of power over multiplication only when it is valid.
+        template<bool Distribute, typename LeftExpression, typename RightExpression>
+        struct _power_distribute {
+            using type = power<LeftExpression, RightExpression>;
+        };
+
+        template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
+        struct _power_distribute<true, mul<LeftArgument, LeftNextArguments...>, RightExpression> {
+            using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
+        };
+
         // Simplification rule to apply the distributivity property of power over multiplication.
         struct _power_rule_distributivity {
 
@@ -324,7 +349,7 @@ namespace ga {
 
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct result<mul<LeftArgument, LeftNextArguments...>, RightExpression> {
-                using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
+                using type = typename _power_distribute<is_integral_constant_v<RightExpression> || is_non_negative_v<LeftArgument> || is_non_negative_v<mul_t<LeftNextArguments...> >, mul<LeftArgument, LeftNextArguments...>, RightExpression>::type; // the factors cannot be separated in, e.g., sqrt((-1) * (-1))
             };
 
             // (A^{B})^{C} = A^{B * C} (simplify)
@@ -335,7 +360,14 @@ namespace ga {
 
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> {
-                using type = power_t<LeftLeftArgument, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+                using type = power_t<
+                    std::conditional_t<
+                        is_even_v<LeftRightArgument> && !is_integral_constant_v<RightExpression>,
+                        absolute_t<LeftLeftArgument>, // e.g., sqrt(X^{2}) = abs(X)
+                        LeftLeftArgument
+                    >,
+                    product_t<LeftRightArgument, RightExpression, value_mapping>
+                >;
             };
         };
 
diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index b7edfcc..a0df463 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -344,7 +344,7 @@ namespace ga {
 
         template<typename LeftBitset, typename RightBitset>
         struct is_non_negative<reordering_sign<LeftBitset, RightBitset> > :
-            std::true_type {
+            std::false_type {
         };
 
         template<typename Bitset>
-- 
2.43.0


From 079086c9491b37ee5bafe3cb850eae65c92cb67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:32 +0000
Subject: [PATCH 06/24] fix: evaluate and classify powers with odd-root
 exponents also for negative bases

---
 cpp/include/gatl/ga/core/expression.hpp       | 44 ++++++++++++++++++-
 .../gatl/ga/core/expression_traits.hpp        |  4 +-
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 3ae06c0..ba6160c 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -948,6 +948,41 @@ namespace ga {
             }
         };
 
+        // Fraction represented by a constant exponent (the denominator is zero if the expression is not a constant fraction).
+        template<typename Expression>
+        struct constant_fraction {
+            constexpr static default_integral_t numerator = 0;
+            constexpr static default_integral_t denominator = 0;
+        };
+
+        template<default_integral_t Value>
+        struct constant_fraction<constant_value<Value> > {
+            constexpr static default_integral_t numerator = Value;
+            constexpr static default_integral_t denominator = 1;
+        };
+
+        template<default_integral_t Value>
+        struct constant_fraction<power<constant_value<Value>, constant_value<-1> > > {
+            constexpr static default_integral_t numerator = 1;
+            constexpr static default_integral_t denominator = Value;
+        };
+
+        template<default_integral_t LeftValue, default_integral_t RightValue>
+        struct constant_fraction<mul<constant_value<LeftValue>, power<constant_value<RightValue>, constant_value<-1> > > > {
+            constexpr static default_integral_t numerator = LeftValue;
+            constexpr static default_integral_t denominator = RightValue;
+        };
+
+        template<default_integral_t Value, typename Argument>
+        struct constant_fraction<add<constant_value<Value>, Argument> > {
+            constexpr static default_integral_t numerator = Value * constant_fraction<Argument>::denominator + constant_fraction<Argument>::numerator;
+            constexpr static default_integral_t denominator = constant_fraction<Argument>::denominator;
+        };
+
+        // Returns whether the given exponent is a constant fraction with an odd denominator, i.e., whether the power is also defined for negative bases.
+        template<typename Expression>
+        constexpr bool is_odd_root_v = constant_fraction<Expression>::denominator % 2 != 0 && constant_fraction<Expression>::denominator != 1;
+
         // Specializations of power<LeftArgument, RightArgument>.
         template<typename LeftArgument, typename RightArgument>
         struct function<name_t::power, LeftArgument, RightArgument> {
@@ -956,7 +991,14 @@ namespace ga {
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
                 using std::pow;
-                return pow(LeftArgument::template eval<LowerTag, UpperTag>(args), RightArgument::template eval<LowerTag, UpperTag>(args));
+                if constexpr (is_odd_root_v<RightArgument>) {
+                    auto const base = LeftArgument::template eval<LowerTag, UpperTag>(args);
+                    auto const value = pow(base < 0 ? -base : base, RightArgument::template eval<LowerTag, UpperTag>(args));
+                    return base < 0 && constant_fraction<RightArgument>::numerator % 2 != 0 ? -value : value;
+                }
+                else {
+                    return pow(LeftArgument::template eval<LowerTag, UpperTag>(args), RightArgument::template eval<LowerTag, UpperTag>(args));
+                }
             }
 
             static_assert(!std::is_same_v<LeftArgument, constant_value<0> >, "The left-hand side argument cannot be ga::detail::constant_value<0>.");
diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index a0df463..dde2f33 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -297,12 +297,12 @@ namespace ga {
 
         template<typename... Arguments>
         struct is_even<mul<Arguments...> > :
-            std::false_type {
+            std::bool_constant<is_odd_root_v<mul<Arguments...> > && constant_fraction<mul<Arguments...> >::numerator % 2 == 0> {
         };
 
         template<typename... Arguments>
         struct is_even<add<Arguments...> > :
-            std::false_type {
+            std::bool_constant<is_odd_root_v<add<Arguments...> > && constant_fraction<add<Arguments...> >::numerator % 2 == 0> {
         };
 
         // Specializations of is_function<Expression>.
-- 
2.43.0


From fac3072919ef041c04f5d9bb60a0703117d8d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 07/24] fix: keep a copy of the inputs of a lazy context, since
 they may be temporary objects

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 3ef7987..9efd3fa 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -520,7 +520,7 @@ namespace ga {
 
         private:
 
-            input_type const &input_;
+            input_type const input_; // a copy, because the argument may be a temporary object
         };
 
         template<std::size_t ReverseIndex, typename InputCoefficientType, typename InputExpression>
-- 
2.43.0


From 9490bdc79d352976cfae7cd8b2aa6cf4c673025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 08/24] fix: return the expression from a lazy context without
 run-time inputs instead of a default-constructed one

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 9efd3fa..18e5f7f 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -486,8 +486,8 @@ namespace ga {
         }
 
         template<tag_t LowerTag, tag_t UpperTag, typename CoefficientType, typename Expression, typename... InputTypes, std::enable_if_t<(LowerTag > UpperTag), int> = 0>
-        GA_ALWAYS_INLINE constexpr static decltype(auto) eval(clifford_expression<CoefficientType, Expression> const &, std::tuple<InputTypes...> const &) {
-            return clifford_expression<CoefficientType, Expression>();
+        GA_ALWAYS_INLINE constexpr static decltype(auto) eval(clifford_expression<CoefficientType, Expression> const &expression, std::tuple<InputTypes...> const &) {
+            return clifford_expression<CoefficientType, Expression>(expression); // there is nothing to be replaced
         }
 
         // Superclass for ga::lazy_context<InputTypes...>.
-- 
2.43.0


From ccd976fea5b124f0eb237256085a0294166cdbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 09/24] fix: provide the documented operator/ (inverse
 geometric product) for any right operand

---
 .../gatl/ga/extra/macro_for_algebra_overload.hpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
index f085496..e55d08d 100644
--- a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
@@ -175,6 +175,16 @@
         return unit(arg, SPACE); \
     } \
     \
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression> \
+    constexpr decltype(auto) operator/(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
+        return igp(lhs, rhs, SPACE); \
+    } \
+    \
+    template<typename LeftType, typename RightCoefficientType, typename RightExpression, std::enable_if_t<!is_clifford_expression_v<LeftType>, int> = 0> \
+    constexpr decltype(auto) operator/(LeftType const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
+        return igp(scalar(lhs), rhs, SPACE); \
+    } \
+    \
     template<typename CoefficientType, typename Expression> \
     std::ostream & operator <<(std::ostream &os, clifford_expression<CoefficientType, Expression> const &arg) GA_NOEXCEPT { \
         return write(os, arg, BASIS_VECTORS_NAMES); \
-- 
2.43.0


From 0a116f4b70cedff11aa2dc0aaec6fea2761b341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 10/24] fix: accept the quotient of constants whose simplified
 numerator is one

---
 .../ga/core/expression_simplification_product_values.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
index 4d2d10e..33e7119 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
@@ -36,7 +36,11 @@ namespace ga {
 
         template<default_integral_t Numerator, default_integral_t Denominator>
         struct simpler_rational_constant<Numerator, Denominator, 1> {
-            using type = mul_t<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >;
+            using type = std::conditional_t<
+                ((sign(Numerator) * sign(Denominator)) * iabs(Numerator)) == 1,
+                power_t<constant_value<iabs(Denominator)>, constant_value<-1> >,
+                mul<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >
+            >;
         };
 
         template<default_integral_t Numerator, default_integral_t Denominator>
-- 
2.43.0


From 6ae19f8b0f5f44ea3c14045e032c74237c372d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:16 +0000
Subject: [PATCH 11/24] fix: accept blades whose square is the constant zero in
 the exponential

---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index 7386055..34757ca 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -36,6 +36,7 @@ namespace ga {
         using signed_squared_alpha_value = detail::coefficient_t<detail::product_t<blade_expression, blade_expression, detail::metric_space_mapping_t<MetricSpaceType, detail::sp_mapping> > >;
         using squared_alpha_value = detail::absolute_t<signed_squared_alpha_value>;
         using alpha_value = detail::power_t<squared_alpha_value, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
+        using nonzero_alpha_value = std::conditional_t<std::is_same_v<alpha_value, detail::constant_value<0> >, detail::constant_value<1>, alpha_value>; // The reciprocal is not used with null blades.
 
         using scalar_coefficient_value = detail::if_else_t<
             detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
@@ -52,8 +53,8 @@ namespace ga {
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
-                detail::product_t<detail::sine_t<alpha_value>, detail::power_t<alpha_value, detail::constant_value<-1> >, detail::value_mapping>,
-                detail::product_t<detail::hyperbolic_sine_t<alpha_value>, detail::power_t<alpha_value, detail::constant_value<-1> >, detail::value_mapping>
+                detail::product_t<detail::sine_t<alpha_value>, detail::power_t<nonzero_alpha_value, detail::constant_value<-1> >, detail::value_mapping>,
+                detail::product_t<detail::hyperbolic_sine_t<alpha_value>, detail::power_t<nonzero_alpha_value, detail::constant_value<-1> >, detail::value_mapping>
             >
         >;
 
-- 
2.43.0


From b2735746b17a908843569ee8e5b30cbe9045498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 12/24] fix: compare fractional and irrational constants when
 deducing grades at compile time

---
 cpp/include/gatl/ga/core/expression.hpp | 101 ++++++++++++++++--------
 1 file changed, 69 insertions(+), 32 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index ba6160c..e095ab9 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -666,13 +666,81 @@ namespace ga {
             }
         };
 
+        // Fraction represented by a constant expression (the denominator is zero if the expression is not a constant fraction).
+        template<typename Expression>
+        struct constant_fraction {
+            constexpr static default_integral_t numerator = 0;
+            constexpr static default_integral_t denominator = 0;
+        };
+
+        template<default_integral_t Value>
+        struct constant_fraction<constant_value<Value> > {
+            constexpr static default_integral_t numerator = Value;
+            constexpr static default_integral_t denominator = 1;
+        };
+
+        template<default_integral_t Value>
+        struct constant_fraction<power<constant_value<Value>, constant_value<-1> > > {
+            constexpr static default_integral_t numerator = 1;
+            constexpr static default_integral_t denominator = Value;
+        };
+
+        template<default_integral_t LeftValue, default_integral_t RightValue>
+        struct constant_fraction<mul<constant_value<LeftValue>, power<constant_value<RightValue>, constant_value<-1> > > > {
+            constexpr static default_integral_t numerator = LeftValue;
+            constexpr static default_integral_t denominator = RightValue;
+        };
+
+        template<default_integral_t Value, typename Argument>
+        struct constant_fraction<add<constant_value<Value>, Argument> > {
+            constexpr static default_integral_t numerator = Value * constant_fraction<Argument>::denominator + constant_fraction<Argument>::numerator;
+            constexpr static default_integral_t denominator = constant_fraction<Argument>::denominator;
+        };
+
+        // Returns whether the given expression is a product of powers of constants which, therefore, is different from zero.
+        template<typename Expression>
+        struct is_nonzero_constant :
+            std::false_type {
+        };
+
+        template<typename Expression>
+        constexpr bool is_nonzero_constant_v = is_nonzero_constant<Expression>::value;
+
+        template<default_integral_t Value>
+        struct is_nonzero_constant<constant_value<Value> > :
+            std::bool_constant<Value != 0> {
+        };
+
+        template<typename LeftArgument, typename RightArgument>
+        struct is_nonzero_constant<power<LeftArgument, RightArgument> > :
+            std::bool_constant<is_nonzero_constant_v<LeftArgument> && is_constant_expression_v<RightArgument> > {
+        };
+
+        template<typename... Arguments>
+        struct is_nonzero_constant<mul<Arguments...> > :
+            std::bool_constant<(is_nonzero_constant_v<Arguments> && ...)> {
+        };
+
+        template<typename Argument>
+        struct is_nonzero_constant<absolute<Argument> > :
+            std::bool_constant<is_nonzero_constant_v<Argument> > {
+        };
+
         // Specializations of less_or_equal<LeftType, RightType>.
         template<typename LeftType, typename RightType>
         struct function<name_t::less_or_equal, LeftType, RightType> {
             using type = std::conditional_t<
                 std::is_same_v<LeftType, RightType> && !has_stored_entries_v<LeftType>,
                 std::true_type, // simplify
-                function // default
+                std::conditional_t<
+                    constant_fraction<LeftType>::denominator != 0 && constant_fraction<RightType>::denominator != 0,
+                    std::bool_constant<(constant_fraction<LeftType>::numerator * constant_fraction<RightType>::denominator - constant_fraction<RightType>::numerator * constant_fraction<LeftType>::denominator) * (constant_fraction<LeftType>::denominator * constant_fraction<RightType>::denominator) <= 0>, // simplify
+                    std::conditional_t<
+                        std::is_same_v<RightType, constant_value<0> > && is_non_negative_v<LeftType> && is_nonzero_constant_v<LeftType>,
+                        std::false_type, // simplify
+                        function // default
+                    >
+                >
             >;
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
@@ -948,37 +1016,6 @@ namespace ga {
             }
         };
 
-        // Fraction represented by a constant exponent (the denominator is zero if the expression is not a constant fraction).
-        template<typename Expression>
-        struct constant_fraction {
-            constexpr static default_integral_t numerator = 0;
-            constexpr static default_integral_t denominator = 0;
-        };
-
-        template<default_integral_t Value>
-        struct constant_fraction<constant_value<Value> > {
-            constexpr static default_integral_t numerator = Value;
-            constexpr static default_integral_t denominator = 1;
-        };
-
-        template<default_integral_t Value>
-        struct constant_fraction<power<constant_value<Value>, constant_value<-1> > > {
-            constexpr static default_integral_t numerator = 1;
-            constexpr static default_integral_t denominator = Value;
-        };
-
-        template<default_integral_t LeftValue, default_integral_t RightValue>
-        struct constant_fraction<mul<constant_value<LeftValue>, power<constant_value<RightValue>, constant_value<-1> > > > {
-            constexpr static default_integral_t numerator = LeftValue;
-            constexpr static default_integral_t denominator = RightValue;
-        };
-
-        template<default_integral_t Value, typename Argument>
-        struct constant_fraction<add<constant_value<Value>, Argument> > {
-            constexpr static default_integral_t numerator = Value * constant_fraction<Argument>::denominator + constant_fraction<Argument>::numerator;
-            constexpr static default_integral_t denominator = constant_fraction<Argument>::denominator;
-        };
-
         // Returns whether the given exponent is a constant fraction with an odd denominator, i.e., whether the power is also defined for negative bases.
         template<typename Expression>
         constexpr bool is_odd_root_v = constant_fraction<Expression>::denominator % 2 != 0 && constant_fraction<Expression>::denominator != 1;
-- 
2.43.0


From 14564df4e39788d5004ba9dbd49911d14511933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 13/24] fix: do not shift by a negative amount when taking a
 constant negative grade part

---
 cpp/include/gatl/ga/extra/take_grade.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/take_grade.hpp b/cpp/include/gatl/ga/extra/take_grade.hpp
index 614ec40..d2c19e6 100644
--- a/cpp/include/gatl/ga/extra/take_grade.hpp
+++ b/cpp/include/gatl/ga/extra/take_grade.hpp
@@ -54,15 +54,21 @@ namespace ga {
 
         template<typename Coefficient, bitset_t PossibleGrades, typename Bitset, default_integral_t GradeValue>
         struct keep_grade<component<Coefficient, dynamic_basis_blade<PossibleGrades, Bitset> >, component<constant_value<GradeValue>, constant_basis_blade<bitset_t(0)> > > {
+        private:
+
+            constexpr static bitset_t kept_grades = 0 <= GradeValue && GradeValue <= GA_MAX_BASIS_VECTOR_INDEX ? PossibleGrades & (bitset_t(1) << GradeValue) : bitset_t(0);
+
+        public:
+
             using type = std::conditional_t<
-                0 <= GradeValue && GradeValue <= GA_MAX_BASIS_VECTOR_INDEX && (PossibleGrades & (bitset_t(1) << GradeValue)) != bitset_t(0),
+                kept_grades != bitset_t(0),
                 component_t<
                     if_else_t<
                         equal_t<count_one_bits_t<Bitset>, constant_value<GradeValue> >,
                         Coefficient,
                         constant_value<0>
                     >,
-                    dynamic_basis_blade_t<(bitset_t(1) << GradeValue), Bitset>
+                    dynamic_basis_blade_t<kept_grades, Bitset>
                 >,
                 component<constant_value<0>, constant_basis_blade<bitset_t(0)> >
             >;
-- 
2.43.0


From d664c5d88a8080e67c033e12d1973a16749a8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 14/24] fix: evaluate both branches of a conditional in nested
 lazy contexts

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 18e5f7f..a437209 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -462,9 +462,9 @@ namespace ga {
         template<tag_t LowerTag, tag_t UpperTag, typename Test, typename TrueValue, typename FalseValue>
         struct eval_clifford_expression<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> > :
             std::conditional_t<
-                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> >,
+                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, FalseValue> >,
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, TrueValue> >, Test, TrueValue, FalseValue>
+                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, FalseValue> >, Test, TrueValue, FalseValue>
             > {
         };
         
-- 
2.43.0


From 65dab445a94bf651a9909512eaeae83cfbbe89a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 15/24] fix: support lazy expressions which combine lazy
 arguments and values stored by other operands

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 146 +++++++++++++++++++++-
 1 file changed, 144 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index a437209..d0c3be2 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -140,6 +140,126 @@ namespace ga {
             using type = typename _tag_variables_in_function<Tag, BaseValueIndex, BaseBitsetIndex, BaseMapIndex, function<Name>, Arguments...>::type;
         };
 
+        // Returns whether the given expressions include lazy arguments whose tags are smaller than the given one.
+        template<tag_t LowerTag, typename... Expressions>
+        struct has_smaller_tags :
+            std::disjunction<has_smaller_tags<LowerTag, Expressions>...> {
+        };
+
+        template<tag_t LowerTag, typename... Expressions>
+        constexpr bool has_smaller_tags_v = has_smaller_tags<LowerTag, Expressions...>::value;
+
+        template<tag_t LowerTag, typename Expression>
+        struct has_smaller_tags<LowerTag, Expression> :
+            std::false_type { // default
+        };
+
+        template<tag_t LowerTag, tag_t Tag, std::size_t Index>
+        struct has_smaller_tags<LowerTag, get_value<Tag, Index> > :
+            std::bool_constant<(Tag < LowerTag)> {
+        };
+
+        template<tag_t LowerTag, tag_t Tag, std::size_t Index>
+        struct has_smaller_tags<LowerTag, get_map_values<Tag, Index> > :
+            std::bool_constant<(Tag < LowerTag)> {
+        };
+
+        template<tag_t LowerTag, tag_t Tag, std::size_t Index>
+        struct has_smaller_tags<LowerTag, get_bitset<Tag, Index> > :
+            std::bool_constant<(Tag < LowerTag)> {
+        };
+
+        template<tag_t LowerTag, tag_t Tag, std::size_t Index>
+        struct has_smaller_tags<LowerTag, get_map_bitsets<Tag, Index> > :
+            std::bool_constant<(Tag < LowerTag)> {
+        };
+
+        template<tag_t LowerTag, bitset_t PossibleGrades, typename Bitset>
+        struct has_smaller_tags<LowerTag, dynamic_basis_blade<PossibleGrades, Bitset> > :
+            has_smaller_tags<LowerTag, Bitset> {
+        };
+
+        template<tag_t LowerTag, typename Coefficient, typename BasisBlade>
+        struct has_smaller_tags<LowerTag, component<Coefficient, BasisBlade> > :
+            std::disjunction<has_smaller_tags<LowerTag, Coefficient>, has_smaller_tags<LowerTag, BasisBlade> > {
+        };
+
+        template<tag_t LowerTag, name_t Name, typename... Arguments>
+        struct has_smaller_tags<LowerTag, function<Name, Arguments...> > :
+            std::disjunction<has_smaller_tags<LowerTag, Arguments>...> {
+        };
+
+        // Produces an expression where get_value<Tag, Index> and get_bitset<Tag, Index> change, respectively, to stored_value and stored_bitset for LowerTag <= Tag, while the lazy arguments having smaller tags are preserved.
+        template<tag_t LowerTag, tag_t UpperTag, typename Expression>
+        struct store_variables {
+            using type = Expression; // default
+
+            template<typename ValueItr, typename BitsetItr, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static void run(ValueItr const &, BitsetItr const &, std::tuple<InputTypes...> const &) GA_NOEXCEPT {
+                // Do nothing.
+            }
+        };
+
+        template<tag_t LowerTag, tag_t UpperTag, typename Expression>
+        using store_variables_t = typename store_variables<LowerTag, UpperTag, Expression>::type;
+
+        template<tag_t LowerTag, tag_t UpperTag, tag_t Tag, std::size_t Index>
+        struct store_variables<LowerTag, UpperTag, get_value<Tag, Index> > {
+            using type = std::conditional_t<(LowerTag <= Tag), stored_value, get_value<Tag, Index> >;
+
+            template<typename ValueItr, typename BitsetItr, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static void run(ValueItr &value_itr, BitsetItr const &, std::tuple<InputTypes...> const &args) GA_NOEXCEPT {
+                if constexpr (LowerTag <= Tag) {
+                    *value_itr = get_value<Tag, Index>::template eval<LowerTag, UpperTag>(args);
+                    std::advance(value_itr, 1);
+                }
+            }
+        };
+
+        template<tag_t LowerTag, tag_t UpperTag, tag_t Tag, std::size_t Index>
+        struct store_variables<LowerTag, UpperTag, get_bitset<Tag, Index> > {
+            using type = std::conditional_t<(LowerTag <= Tag), stored_bitset, get_bitset<Tag, Index> >;
+
+            template<typename ValueItr, typename BitsetItr, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static void run(ValueItr const &, BitsetItr &bitset_itr, std::tuple<InputTypes...> const &args) GA_NOEXCEPT {
+                if constexpr (LowerTag <= Tag) {
+                    *bitset_itr = get_bitset<Tag, Index>::template eval<LowerTag, UpperTag>(args);
+                    std::advance(bitset_itr, 1);
+                }
+            }
+        };
+
+        template<tag_t LowerTag, tag_t UpperTag, bitset_t PossibleGrades, typename Bitset>
+        struct store_variables<LowerTag, UpperTag, dynamic_basis_blade<PossibleGrades, Bitset> > {
+            using type = dynamic_basis_blade<PossibleGrades, store_variables_t<LowerTag, UpperTag, Bitset> >;
+
+            template<typename ValueItr, typename BitsetItr, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static void run(ValueItr &value_itr, BitsetItr &bitset_itr, std::tuple<InputTypes...> const &args) GA_NOEXCEPT {
+                store_variables<LowerTag, UpperTag, Bitset>::run(value_itr, bitset_itr, args);
+            }
+        };
+
+        template<tag_t LowerTag, tag_t UpperTag, typename Coefficient, typename BasisBlade>
+        struct store_variables<LowerTag, UpperTag, component<Coefficient, BasisBlade> > {
+            using type = component<store_variables_t<LowerTag, UpperTag, Coefficient>, store_variables_t<LowerTag, UpperTag, BasisBlade> >;
+
+            template<typename ValueItr, typename BitsetItr, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static void run(ValueItr &value_itr, BitsetItr &bitset_itr, std::tuple<InputTypes...> const &args) GA_NOEXCEPT {
+                store_variables<LowerTag, UpperTag, Coefficient>::run(value_itr, bitset_itr, args);
+                store_variables<LowerTag, UpperTag, BasisBlade>::run(value_itr, bitset_itr, args);
+            }
+        };
+
+        template<tag_t LowerTag, tag_t UpperTag, name_t Name, typename... Arguments>
+        struct store_variables<LowerTag, UpperTag, function<Name, Arguments...> > {
+            using type = function<Name, store_variables_t<LowerTag, UpperTag, Arguments>...>;
+
+            template<typename ValueItr, typename BitsetItr, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static void run(ValueItr &value_itr, BitsetItr &bitset_itr, std::tuple<InputTypes...> const &args) GA_NOEXCEPT {
+                (store_variables<LowerTag, UpperTag, Arguments>::run(value_itr, bitset_itr, args), ...);
+            }
+        };
+
         // Evaluates the given (or the collection of) clifford_expression<...>.
         template<tag_t LowerTag, tag_t UpperTag, typename Expression>
         struct eval_clifford_expression;
@@ -468,7 +588,7 @@ namespace ga {
             > {
         };
         
-        template<tag_t LowerTag, tag_t UpperTag, typename CoefficientType, typename Expression, typename... InputTypes, std::enable_if_t<(LowerTag <= UpperTag), int> = 0>
+        template<tag_t LowerTag, tag_t UpperTag, typename CoefficientType, typename Expression, typename... InputTypes, std::enable_if_t<(LowerTag <= UpperTag) && !has_smaller_tags_v<LowerTag, Expression>, int> = 0>
         GA_ALWAYS_INLINE constexpr static decltype(auto) eval(clifford_expression<CoefficientType, Expression> const &, std::tuple<InputTypes...> const &args) {
             using result_type = clifford_expression<eval_coefficient_t<LowerTag, UpperTag, Expression, std::remove_const_t<std::remove_reference_t<InputTypes> >...>, eval_expression_t<LowerTag, UpperTag, Expression> >;
 
@@ -485,6 +605,22 @@ namespace ga {
             return result_type(std::move(values), std::move(bitsets), std::move(maps));
         }
 
+        template<tag_t LowerTag, tag_t UpperTag, typename CoefficientType, typename Expression, typename... InputTypes, std::enable_if_t<(LowerTag <= UpperTag) && has_smaller_tags_v<LowerTag, Expression>, int> = 0>
+        GA_ALWAYS_INLINE constexpr static decltype(auto) eval(clifford_expression<CoefficientType, Expression> const &, std::tuple<InputTypes...> const &args) {
+            using result_type = clifford_expression<std::common_type_t<CoefficientType, typename std::remove_const_t<std::remove_reference_t<InputTypes> >::coefficient_type...>, store_variables_t<LowerTag, UpperTag, Expression> >; // it still depends on arguments of other lazy contexts
+
+            typename result_type::value_storage_type values;
+            typename result_type::bitset_storage_type bitsets;
+            typename result_type::map_storage_type maps;
+
+            auto value_itr = values.begin();
+            auto bitset_itr = bitsets.begin();
+
+            store_variables<LowerTag, UpperTag, Expression>::run(value_itr, bitset_itr, args);
+
+            return result_type(std::move(values), std::move(bitsets), std::move(maps));
+        }
+
         template<tag_t LowerTag, tag_t UpperTag, typename CoefficientType, typename Expression, typename... InputTypes, std::enable_if_t<(LowerTag > UpperTag), int> = 0>
         GA_ALWAYS_INLINE constexpr static decltype(auto) eval(clifford_expression<CoefficientType, Expression> const &expression, std::tuple<InputTypes...> const &) {
             return clifford_expression<CoefficientType, Expression>(expression); // there is nothing to be replaced
@@ -659,7 +795,13 @@ namespace ga {
 
         template<typename CoefficientType, typename Expression>
         constexpr decltype(auto) eval(clifford_expression<CoefficientType, Expression> const &expression) const {
-            return detail::eval<base_id + 1, base_id + (detail::tag_t)super::stored_inputs_count()>(expression, super::stored_inputs_tuple());
+            constexpr detail::tag_t upper_id = base_id + (detail::tag_t)super::stored_inputs_count();
+            if constexpr (detail::has_stored_entries_v<Expression>) { // the entries stored by the expression are one more input
+                return detail::eval<base_id + 1, upper_id + 1>(clifford_expression<CoefficientType, detail::tag_variables_t<Expression, upper_id + 1, 0, 0, 0> >(), std::tuple_cat(super::stored_inputs_tuple(), std::tie(expression)));
+            }
+            else {
+                return detail::eval<base_id + 1, upper_id>(expression, super::stored_inputs_tuple());
+            }
         }
 
     private:
-- 
2.43.0


From f3762fadc7997d900daa9670d50e9914a0b1d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 16/24] fix: do not join the exponents of a power of a power
 when the inner exponent is only known at run time

---
 .../core/expression_simplification_power.hpp  | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index aa8ab77..e765e71 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -327,6 +327,24 @@ namespace ga {
             using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
         };
 
+        // Joins the exponents of a power of a power only when it is valid.
+        template<bool Join, typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
+        struct _power_of_power {
+            using type = power<power<LeftLeftArgument, LeftRightArgument>, RightExpression>;
+        };
+
+        template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
+        struct _power_of_power<true, LeftLeftArgument, LeftRightArgument, RightExpression> {
+            using type = power_t<
+                std::conditional_t<
+                    is_even_v<LeftRightArgument> && !is_integral_constant_v<RightExpression>,
+                    absolute_t<LeftLeftArgument>, // e.g., sqrt(X^{2}) = abs(X)
+                    LeftLeftArgument
+                >,
+                product_t<LeftRightArgument, RightExpression, value_mapping>
+            >;
+        };
+
         // Simplification rule to apply the distributivity property of power over multiplication.
         struct _power_rule_distributivity {
 
@@ -360,14 +378,7 @@ namespace ga {
 
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> {
-                using type = power_t<
-                    std::conditional_t<
-                        is_even_v<LeftRightArgument> && !is_integral_constant_v<RightExpression>,
-                        absolute_t<LeftLeftArgument>, // e.g., sqrt(X^{2}) = abs(X)
-                        LeftLeftArgument
-                    >,
-                    product_t<LeftRightArgument, RightExpression, value_mapping>
-                >;
+                using type = typename _power_of_power<is_constant_expression_v<LeftRightArgument> || is_integral_constant_v<RightExpression> || is_non_negative_v<LeftLeftArgument>, LeftLeftArgument, LeftRightArgument, RightExpression>::type; // the exponents cannot be joined in, e.g., sqrt(pow(-3, x)) with x = 2
             };
         };
 
-- 
2.43.0


From ca97e19b55f10c16586ef947819edd5c34617f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 17/24] fix: the power of two run-time values is not an even
 number

---
 cpp/include/gatl/ga/core/expression_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index dde2f33..5e43c1f 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -292,7 +292,7 @@ namespace ga {
 
         template<typename LeftArgument, typename RightArgument>
         struct is_even<power<LeftArgument, RightArgument> > :
-            std::bool_constant<is_even_v<RightArgument> > {
+            std::false_type {
         };
 
         template<typename... Arguments>
-- 
2.43.0


From b8c5de683b0116a26e1327d8df5b4400ab8ad597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 18/24] fix: conversions that cannot be made throw instead of
 terminating the program

---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 4 ++--
 cpp/include/gatl/ga/core/trivial_copy.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 63f2af0..21838b9 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -697,10 +697,10 @@ namespace ga {
         constexpr clifford_expression(clifford_expression &&) = default;
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other);
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other);
 
         template<typename... StorageTypes>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index d47356a..c0ee97d 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -478,7 +478,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the copy constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
@@ -486,7 +486,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the moving constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
-- 
2.43.0


From 214b56dbc82ed9f9b7da4ac949c1873e11d55af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:07 +0000
Subject: [PATCH 19/24] fix: dual flat, round and tangent directions compile
 (undual needs the pseudoscalar)

---
 cpp/include/gatl/ga/model/conformal/flat_direction.hpp          | 2 +-
 cpp/include/gatl/ga/model/conformal/round_direction.hpp         | 2 +-
 cpp/include/gatl/ga/model/conformal/tangent_direction.hpp       | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp   | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp  | 2 +-
 .../gatl/ga/model/signed/minkowski/tangent_direction.hpp        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
index 8af2834..e826a60 100644
--- a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/conformal/round_direction.hpp b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
index 8909c0f..841b729 100644
--- a/cpp/include/gatl/ga/model/conformal/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
index 1e5c3bb..c4a9e49 100644
--- a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
index 8eb7eff..59135b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
index e81c864..9a12ba8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
index 1c8c4f0..a8fece8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
-- 
2.43.0


From 330f2533ecff8c7ccac05d6b4c70f10779ad62ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 20/24] fix: do not collect evaluated components with run-time
 basis blades, since each of them has its own bitset

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index d0c3be2..362ce88 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -400,6 +400,25 @@ namespace ga {
             }
         };
 
+        // Sum of evaluated expressions. Components with stored bitsets are not collected, because each of them has its own basis blade.
+        template<typename LeftExpression, typename RightExpression>
+        struct _eval_addition {
+            using type = addition_t<LeftExpression, RightExpression>;
+        };
+
+        template<typename LeftExpression, typename RightExpression>
+        using eval_addition_t = typename _eval_addition<LeftExpression, RightExpression>::type;
+
+        template<typename LeftCoefficient, typename RightCoefficient, bitset_t PossibleGrades>
+        struct _eval_addition<component<LeftCoefficient, dynamic_basis_blade<PossibleGrades, stored_bitset> >, component<RightCoefficient, dynamic_basis_blade<PossibleGrades, stored_bitset> > > {
+            using type = add_t<component<LeftCoefficient, dynamic_basis_blade<PossibleGrades, stored_bitset> >, component<RightCoefficient, dynamic_basis_blade<PossibleGrades, stored_bitset> > >;
+        };
+
+        template<typename LeftCoefficient, typename RightCoefficient, bitset_t PossibleGrades, typename... RightNextArguments>
+        struct _eval_addition<component<LeftCoefficient, dynamic_basis_blade<PossibleGrades, stored_bitset> >, add<component<RightCoefficient, dynamic_basis_blade<PossibleGrades, stored_bitset> >, RightNextArguments...> > {
+            using type = add_t<component<LeftCoefficient, dynamic_basis_blade<PossibleGrades, stored_bitset> >, component<RightCoefficient, dynamic_basis_blade<PossibleGrades, stored_bitset> >, RightNextArguments...>;
+        };
+
         template<tag_t LowerTag, tag_t UpperTag, typename Expression>
         struct eval_clifford_expression : _eval_clifford_expression_do_nothing<Expression> {
         };
@@ -484,7 +503,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, Argument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Argument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> >, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<Argument, NextArguments...> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >, Argument, add_t<NextArguments...> >
+                _eval_clifford_expression_move<LowerTag, UpperTag, eval_addition_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >, Argument, add_t<NextArguments...> >
             > {
         };
 
@@ -494,7 +513,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, LeftArgument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, RightArgument> >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, LeftArgument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, RightArgument>, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<LeftArgument, RightArgument> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
+                _eval_clifford_expression_move<LowerTag, UpperTag, eval_addition_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
             > {
         };
 
-- 
2.43.0


From b7a90740670aaa79579b46e9400a22c0376cf58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 21/24] fix: order run-time basis blades which differ only in a
 constant bitset

---
 cpp/include/gatl/ga/core/expression_relational_operators.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/include/gatl/ga/core/expression_relational_operators.hpp b/cpp/include/gatl/ga/core/expression_relational_operators.hpp
index 10fa9d5..7169d92 100644
--- a/cpp/include/gatl/ga/core/expression_relational_operators.hpp
+++ b/cpp/include/gatl/ga/core/expression_relational_operators.hpp
@@ -470,6 +470,11 @@ namespace ga {
             > {
         };
 
+        template<bitset_t LeftBitset, typename LeftArgument, bitset_t RightBitset, typename RightArgument>
+        struct lt<_arguments_list<constant_bitset<LeftBitset>, LeftArgument>, _arguments_list<constant_bitset<RightBitset>, RightArgument> > :
+            std::bool_constant<(lt_v<LeftArgument, RightArgument> || (eq_v<LeftArgument, RightArgument> && LeftBitset < RightBitset))> {
+        };
+
         template<typename LeftArgument, typename RightArgument, typename... RightNextArguments>
         struct lt<_arguments_list<LeftArgument>, _arguments_list<RightArgument, RightNextArguments...> > :
             std::conditional_t<
-- 
2.43.0


From bfce599cc32e8a0aefdf57faca44f8d2c31ccd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:04 +0000
Subject: [PATCH 22/24] fix: do not count dependent factors twice in
 meet_and_join

A projection (rejection) that is already in the meet (out of the join) was
counted as a new factor and multiplied the result by zero, so the meet of
(e1 + e2) ^ e3 with itself came out zero and the join not-a-number.
---
 cpp/include/gatl/ga/extra/meet_and_join.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/meet_and_join.hpp b/cpp/include/gatl/ga/extra/meet_and_join.hpp
index 9c5e98a..644d749 100644
--- a/cpp/include/gatl/ga/extra/meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/meet_and_join.hpp
@@ -86,8 +86,9 @@ namespace ga {
                     auto const d = project_vector(f, dual_delta, inv_dual_delta); // dual delta factor
 
                     auto const p = project_vector(d, lhs, inv_lhs); // projection
-                    if (!is_zero(p, tol)) {
-                        checked_trivial_copy(op(meet, p, em), meet, tol);
+                    auto const next_meet = op(meet, p, em); // zero when p is already in the meet
+                    if (!is_zero(next_meet, tol)) {
+                        checked_trivial_copy(next_meet, meet, tol);
                         ++current_grade_meet;
                         if (current_grade_meet == grade_meet) {
                             trivial_copy(op(rcont(lhs, inv(meet, em), em), rhs, em), join);
@@ -97,8 +98,9 @@ namespace ga {
                     }
 
                     auto const r = d - p; // rejection
-                    if (!is_zero(r, tol)) {
-                        checked_trivial_copy(lcont(r, join, em), join, tol);
+                    auto const next_join = lcont(r, join, em); // zero when r is already out of the join
+                    if (!is_zero(next_join, tol)) {
+                        checked_trivial_copy(next_join, join, tol);
                         --current_grade_join;
                         if (current_grade_join == grade_join) {
                             trivial_copy(lcont(lcont(rhs, inv(join, em), em), lhs, em), meet);
-- 
2.43.0


From 17fd70f0feefb25cda64b126ce00284930690dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:57 +0000
Subject: [PATCH 23/24] fix: recognise the Euclidean, homogeneous, Minkowski
 and plane-based spaces as metric spaces

---
 cpp/include/gatl/ga/model/signed/euclidean/metric_space.hpp | 6 ++++++
 .../gatl/ga/model/signed/homogeneous/metric_space.hpp       | 6 ++++++
 cpp/include/gatl/ga/model/signed/minkowski/metric_space.hpp | 6 ++++++
 .../gatl/ga/model/signed/plane_based/metric_space.hpp       | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/cpp/include/gatl/ga/model/signed/euclidean/metric_space.hpp b/cpp/include/gatl/ga/model/signed/euclidean/metric_space.hpp
index a5e4a22..755f64e 100644
--- a/cpp/include/gatl/ga/model/signed/euclidean/metric_space.hpp
+++ b/cpp/include/gatl/ga/model/signed/euclidean/metric_space.hpp
@@ -31,6 +31,12 @@ namespace ga {
     class euclidean_metric_space : public signed_metric_space<N, 0, 0> {
     };
 
+    // Specialization of is_orthogonal_metric_space<MetricSpaceType>.
+    template<ndims_t N>
+    struct is_orthogonal_metric_space<euclidean_metric_space<N> > :
+        std::true_type {
+    };
+
 }
 
 #endif // __GA_MODEL_SIGNED_EUCLIDEAN_METRIC_SPACE_HPP__
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/metric_space.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/metric_space.hpp
index ecb0f46..65f0719 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/metric_space.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/metric_space.hpp
@@ -31,6 +31,12 @@ namespace ga {
     class homogeneous_metric_space : public signed_metric_space<D + 1, 0, 0> {
     };
 
+    // Specialization of is_orthogonal_metric_space<MetricSpaceType>.
+    template<ndims_t D>
+    struct is_orthogonal_metric_space<homogeneous_metric_space<D> > :
+        std::true_type {
+    };
+
 }
 
 #endif // __GA_MODEL_SIGNED_HOMOGENEOUS_METRIC_SPACE_HPP__
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/metric_space.hpp b/cpp/include/gatl/ga/model/signed/minkowski/metric_space.hpp
index 3f5d8eb..cc043fe 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/metric_space.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/metric_space.hpp
@@ -31,6 +31,12 @@ namespace ga {
     class minkowski_metric_space : public signed_metric_space<D + 1, 1, 0> {
     };
 
+    // Specialization of is_orthogonal_metric_space<MetricSpaceType>.
+    template<ndims_t D>
+    struct is_orthogonal_metric_space<minkowski_metric_space<D> > :
+        std::true_type {
+    };
+
 }
 
 #endif // __GA_MODEL_SIGNED_MINKOWSKI_METRIC_SPACE_HPP__
diff --git a/cpp/include/gatl/ga/model/signed/plane_based/metric_space.hpp b/cpp/include/gatl/ga/model/signed/plane_based/metric_space.hpp
index 26a6a2c..1291a5f 100644
--- a/cpp/include/gatl/ga/model/signed/plane_based/metric_space.hpp
+++ b/cpp/include/gatl/ga/model/signed/plane_based/metric_space.hpp
@@ -31,6 +31,12 @@ namespace ga {
     class plane_based_metric_space : public signed_metric_space<D, 0, 1> {
     };
 
+    // Specialization of is_orthogonal_metric_space<MetricSpaceType>.
+    template<ndims_t D>
+    struct is_orthogonal_metric_space<plane_based_metric_space<D> > :
+        std::true_type {
+    };
+
 }
 
 #endif // __GA_MODEL_PLANE_BASED_METRIC_SPACE_HPP__
-- 
2.43.0


From fd763160b6df89874dfc710834c2c3fa4548fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:57 +0000
Subject: [PATCH 24/24] fix: make dp of a multivector and a number with an
 explicit metric viable

---
 cpp/include/gatl/ga/extra/delta_product.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/delta_product.hpp b/cpp/include/gatl/ga/extra/delta_product.hpp
index 97f5998..ba4b400 100644
--- a/cpp/include/gatl/ga/extra/delta_product.hpp
+++ b/cpp/include/gatl/ga/extra/delta_product.hpp
@@ -97,7 +97,7 @@ namespace ga {
         return dp(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), detail::real_metric_space());
     }
 
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType> > = 0>
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType>, int> = 0>
     constexpr decltype(auto) dp(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, RightType const &rhs, metric_space<MetricSpaceType> const &) GA_NOEXCEPT {
         return dp(lhs, scalar(rhs), default_tolerance<std::common_type_t<LeftCoefficientType, RightType> >(), detail::real_metric_space());
     }
-- 
2.43.0

