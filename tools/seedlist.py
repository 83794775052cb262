seed('P01-reorder-gap','P01',[('core/expression.hpp','''                while (lhs != bitset_t(0)) {
                    changes += ones(lhs & rhs);''','''                while ((lhs & rhs) != bitset_t(0)) {
                    changes += ones(lhs & rhs);''')],'ga3e','''    // run-time basis blades whose first swap only shows up after shifting over a gap
    near("e3 * e1", coef(gp(e(3), e(1)), 5), -1);
    near("e2 * e1", coef(gp(e(2), e(1)), 3), -1);''','run-time basis blades with a gap between the basis vectors being swapped','the sign of run-time products stops being updated at the first shift without overlap')
seed('P02-det-sign','P02',[('core/general_metric_mapping.hpp','std::conditional_t<(ColumnIndex & 1) == 0, constant_value<-1>, constant_value<1> >','std::conditional_t<(ColumnIndex & 2) != 0, constant_value<-1>, constant_value<-1> >')],'ga3e','''    // metric matrix with determinant 1 * (-1 * 2 - 9) - 2 * (4 + 3) - 1 * (6 - 1) = -30
    constant_general_metric_space_t<1, 2, -1, 2, -1, 3, -1, 3, 2> mtr;
    auto a = e(c<1>) ^ e(c<2>) ^ e(c<3>);
    near("e123 . e123", coef(sp(a, a, mtr), 0), 30);
    near("rnorm_sqr(e123)", coef(rnorm_sqr(a, mtr), 0), -30);
    near("lcont", coef(lcont(2.0 * a, a, mtr), 0), 60);''','products of trivectors in a metric without zero entries: the third cofactor of the determinant counts','the sign of the third cofactor of metric determinants',inc='#include <gatl/ga/core.hpp>\n#include <gatl/ga/util.hpp>\n#include <gatl/ga/extra.hpp>\n#include <gatl/ga/model/general.hpp>\n')
seed('P04-rp-sign','P04',[('core/regressive_product_mapping.hpp','reordering_sign_t<bitwise_xor_t<left_basis_vectors, result_basis_vectors>, bitwise_xor_t<right_basis_vectors, result_basis_vectors> >','reordering_sign_t<bitwise_xor_t<left_basis_vectors, result_basis_vectors>, right_basis_vectors>')],'ga4e','''    auto a = e(c<1>) ^ e(c<3>) ^ e(c<4>); auto b = e(c<1>) ^ e(c<2>);
    // a = e1 ^ (e3 ^ e4) and b = (e1 ^ e2): common factor e1, remainders e3 ^ e4 and e2
    near("rp", coef(rp(a, b), 1), coef(op(e(c<3>) ^ e(c<4>), e(c<2>)), 14));
    near("rp(e13, e12 ^ e4)", coef(rp(e(c<1>) ^ e(c<3>), e(c<1>) ^ e(c<2>) ^ e(c<4>)), 1), -1);
    ''','blades whose common factor precedes an odd number of the remaining basis vectors of the left factor','the sign of the regressive product')
seed('P09-pattern-rt','P09',[('core/expression_graded_unary_minus.hpp','(PossibleGrades & SignChangePattern) == bitset_t(0),\n                component<Coefficient, dynamic','(PossibleGrades & SignChangePattern & ~(bitset_t(1) << 3)) == bitset_t(0),\n                component<Coefficient, dynamic')],'ga4e','''    scaled_basis_blade_t<double, 3, 4> x(make_sequential_storage(2.0), make_sequential_storage(bitset_t(7)));
    near("reverse", coef(reverse(x), 7), -2);
    scaled_basis_blade_t<double, 3, 3> y(make_sequential_storage(2.0), make_sequential_storage(bitset_t(7)));
    near("reverse", coef(reverse(y), 7), -2);''','run-time basis blades restricted to grades 3 and above','sign changes of grade 3 are skipped for some run-time blades')
seed('P10-merge','P10',[('core/expression_simplification_addition_components.hpp','using type = addition_t<component_t<addition_t<LeftCoefficient, RightCoefficient>, BasisBlade>, addition_t<add_t<LeftNextArguments...>, add_t<RightNextArguments...> > >;','using type = addition_t<component_t<addition_t<LeftCoefficient, RightCoefficient>, BasisBlade>, std::conditional_t<std::is_same_v<LeftCoefficient, RightCoefficient>, add_t<LeftNextArguments...>, addition_t<add_t<LeftNextArguments...>, add_t<RightNextArguments...> > > >;')],'ga3e','''    double s = 3.0;
    auto x = e(c<1>) + s * e(c<2>); auto y = e(c<1>) + s * e(c<3>);
    near("e1", coef(x + y, 1), 2);
    near("e2", coef(x + y, 2), 3);
    near("e3", coef(x + y, 4), 3);''','two sums that start with the same constant component and continue with different ones','components of the right operand are dropped')
seed('P11-tag-bitset','P11',[('core/lazy_context.hpp','using type = typename _tag_variables_in_function<Tag, BaseValueIndex + count_stored_values_v<Argument>, BaseBitsetIndex + count_stored_bitsets_v<Argument>,','using type = typename _tag_variables_in_function<Tag, BaseValueIndex + count_stored_values_v<Argument>, BaseBitsetIndex,')],'ga3e','''    scaled_basis_blade_t<double, 0, 3> a(make_sequential_storage(2.0), make_sequential_storage(bitset_t(1)));
    scaled_basis_blade_t<double, 0, 1> b(make_sequential_storage(5.0), make_sequential_storage(bitset_t(4)));
    auto s = a + b;
    auto [lazy, x] = make_lazy_context_tuple(s);
    auto r = lazy.eval(x ^ e(c<2>));
    near("e1 ^ e2", coef(r, 3), 2);
    near("e3 ^ e2", coef(r, 6), -5);''','an operand that stores two run-time basis blades','the second run-time basis blade of an operand is read from the place of the first')
seed('P13-log-sign','P13',[('core/expression_traits.hpp','''        struct is_non_negative<logarithm<Value> > :
            std::false_type {''','''        struct is_non_negative<logarithm<Value> > :
            std::bool_constant<is_non_negative_v<Value> > {''')],'ga3e','''    auto x = scalar(0.5);
    auto [lazy, a] = make_lazy_context_tuple(x);
    near("abs(log(abs(x)))", (double) lazy.eval(abs(log(abs(a)))), std::log(2.0));
    near("sqrt(log(x * x)^2)", (double) lazy.eval(sqrt(log(a * a) * log(a * a))), 2 * std::log(2.0));''','absolute value or even root of the logarithm of an expression known to be non-negative, with a value smaller than one','abs(log(...)) is simplified to log(...)')
seed('P16-dual-inv','P16',[('extra/dualization.hpp','lcont(arg_, inv(pseudoscalar_, mtr), mtr)','lcont(arg_, reverse(pseudoscalar_), mtr)')],'ga3e','''    auto p = 2.0 * (e(c<1>) ^ e(c<2>) ^ e(c<3>));
    near("dual", coef(dual(e(c<1>), p), 6), -0.5);''','a pseudoscalar whose squared reverse norm is not one','dual with respect to a weighted pseudoscalar')
seed('P17-odd','P17',[('extra/apply_versor.hpp','involute(arg_)','-arg_')],'ga3e','''    auto v = vector(1.0, 2.0, -1.0); auto x = 3.0 + (e(c<1>) ^ e(c<2>));
    near("scalar part", coef(apply_odd_versor(v, x), 0), 3.0);''','an argument with even grade parts','odd versors applied to arguments that are not vectors')
seed('P19-largest','P19',[('extra/grade.hpp','''            using type = if_else_t<
                less_or_equal_t<argument_grade, next_arguments_grade>,
                next_arguments_grade,
                argument_grade
            >;''','''            using type = if_else_t<
                less_or_equal_t<argument_grade, constant_value<0> >,
                next_arguments_grade,
                argument_grade
            >;''')],'ga3e','''    double z = 0.0;
    auto m = 2.0 + 3.0 * e(c<1>) + z * (e(c<1>) ^ e(c<2>));
    near("largest_grade", (double) largest_grade(m), 1);
    near("largest_grade", (double) largest_grade(2.0 + 3.0 * e(c<1>) + 4.0 * (e(c<1>) ^ e(c<2>))), 2);
    near("largest_grade", (double) largest_grade(2.0 + z * e(c<1>)), 0);''','a multivector whose larger grade parts vanish at run time','largest_grade returns the grade of another component')
seed('P26-dp-tol','P26',[('extra/delta_product.hpp','take_largest_grade(gp(lhs_, rhs_, mtr), tol_)','take_largest_grade(gp(lhs_, rhs_, mtr))')],'ga3e','''    double z = 0.25;
    auto a = e(c<1>); auto b = 2.0 * e(c<1>) + z * e(c<2>);
    near("dp, default tolerance", coef(dp(a, b), 3), 0.25);
    near("dp, grade 2 part within the tolerance", coef(dp(a, b, 0.5), 0), 2);
    near("dp, grade 2 part within the tolerance", coef(dp(a, b, 0.5), 3), 0);''','a tolerance given by the caller that exceeds the coefficients of the largest grade part','the tolerance of dp is ignored')
seed('P05-lcont-grades','P05',[('core/left_contraction.hpp','left_grade_bitset = rightmost_set_bit(LeftPossibleGrades)','left_grade_bitset = leftmost_set_bit(LeftPossibleGrades)')],'ga4e','''    scaled_basis_blade_t<double, 0, 3> x(make_sequential_storage(2.0), make_sequential_storage(bitset_t(1)));
    near("lcont", coef(lcont(x, e(c<1>) ^ e(c<2>)), 2), 2);
    scaled_basis_blade_t<double, 2, 3> y(make_sequential_storage(2.0), make_sequential_storage(bitset_t(6)));
    near("lcont", coef(lcont(y, e(c<1>) ^ e(c<2>) ^ e(c<3>)), 1), -2);''','a run-time basis blade with more than one possible grade on the left','the grades deduced for the left contraction miss those of the smaller left grades')
seed('P27-bitset-stays','P27',[('util/for_each_component.hpp','''Coefficient::template eval<0, 0>(std::make_tuple()), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                ++bitset_citr;''','''Coefficient::template eval<0, 0>(std::make_tuple()), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);''')],'ga3e','''    auto s = e(1) + c<3> * e(3);
    bitset_t seen = 0;
    for_each_component(s, [&](auto bits, auto const &, auto, auto, bool &) { seen |= bits; });
    near("visited blades", (double) seen, 5);''','a sum of two run-time basis blades with constant coefficients','for_each_component reports the first basis blade twice')
seed('P15-unit-neg','P15',[('extra/unit.hpp','''    constexpr decltype(auto) unit(scalar_clifford_expression<CoefficientType, Coefficient> const &arg, metric_space<MetricSpaceType> const &) {
        auto [lazy, arg_] = make_lazy_context_tuple(arg);
        return lazy.eval(gp(arg_, pow(abs(arg_), c<-1>)));''','''    constexpr decltype(auto) unit(scalar_clifford_expression<CoefficientType, Coefficient> const &arg, metric_space<MetricSpaceType> const &) {
        auto [lazy, arg_] = make_lazy_context_tuple(arg);
        return lazy.eval(gp(arg_, pow(arg_, c<-1>)));'''),('extra/unit.hpp','''    constexpr decltype(auto) unit(scalar_clifford_expression<CoefficientType, Coefficient> const &arg) {
        auto [lazy, arg_] = make_lazy_context_tuple(arg);
        return lazy.eval(gp(arg_, pow(abs(arg_), c<-1>)));''','''    constexpr decltype(auto) unit(scalar_clifford_expression<CoefficientType, Coefficient> const &arg) {
        auto [lazy, arg_] = make_lazy_context_tuple(arg);
        return lazy.eval(gp(arg_, pow(arg_, c<-1>)));''')],'ga3e','''    near("unit(-2)", coef(unit(scalar(-2.0)), 0), -1);
    near("unit(3)", coef(unit(scalar(3.0)), 0), 1);''','a negative scalar','the sign of a normalised scalar')
seed('P03-op-grades','P03',[('core/exterior_product_mapping.hpp','left_grade_bitset = rightmost_set_bit(LeftPossibleGrades)','left_grade_bitset = leftmost_set_bit(LeftPossibleGrades)')],'ga4e','''    scaled_basis_blade_t<double, 1, 4> x(make_sequential_storage(2.0), make_sequential_storage(bitset_t(1)));
    scaled_basis_blade_t<double, 2, 2> y(make_sequential_storage(3.0), make_sequential_storage(bitset_t(6)));
    auto r = op(x, y);
    near("e1 ^ e23", coef(r, 7), 6);
    scaled_basis_blade_t<double, 2, 3> z(make_sequential_storage(2.0), make_sequential_storage(bitset_t(3)));
    near("e12 ^ e3", coef(op(z, e(c<3>)), 7), 2);
    near("e12 ^ e3", coef(op(z, e(3)), 7), 2);''','a run-time basis blade with more than one possible grade on the left','the grades deduced for the outer product are too few')
seed('P30-igp-number','P30',[('extra/inverse_geometric_product.hpp','return igp(scalar(lhs), rhs, mtr);','return igp(scalar(lhs), rhs, detail::real_metric_space());')],'ga2m','''    auto n = 2.0 * e(c<4>);
    near("3 / (2 e4), with e4 . e4 = -1", coef(igp(3.0, n), 8), -1.5);
    near("3 / (2 e1)", coef(igp(3.0, 2.0 * e(c<1>)), 1), 1.5);''','a plain number divided by a multivector with negative square in a space that is not Euclidean','the metric of the space is replaced by the Euclidean one')
seed('P31-meet-weight','P31',[('extra/meet_and_join.hpp','inv(join, em)','reverse(join)')],'ga3e','''    auto a = (e(c<1>) + e(c<3>)) ^ e(c<2>); auto b = 2.0 * a;
    auto r = meet_and_join(1.0 * a, b);
    near("a / meet ^ b = join", std::abs(coef(r.first, 3) * coef(r.second, 3)), 2);''','blades whose join is completed before their meet by a rejection that is not a unit vector','the weight of the meet')
