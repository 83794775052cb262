#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run it after editing the table)."""
import json
import os
import importlib
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
INC = 'cpp/include/gatl/ga/'
HOOK = 'cf07c54'

T_PROD = ('The existing tests multiply pairs of basis blades with coefficient 1 in 1 to 3 dimensions and only the scalar product programs compile here; '
          'they never vary coefficients, never mix representations, and cannot range over every real coefficient.')
T_NONE = 'No existing test calls this operation at all; any test would fix the coefficients, while the identity must hold for every real coefficient vector.'


class P:
    def __init__(self, pid, title, statement, over, text, why, files, mech, na=None, note=None):
        self.__dict__.update(locals())


def mech(*xs):
    return [{'name': a, 'where': INC + b} for a, b in xs]


PROPS = []


def prop(*a, **k):
    PROPS.append(P(*a, **k))


prop('P01', 'Geometric product in orthogonal metrics',
     'In every algebra whose basis vectors are mutually orthogonal, the geometric product of any two operands is the Clifford product defined by the signature: bilinear, with equal basis vectors squaring to their metric value and distinct ones anticommuting. This holds for every way of writing the operands (full multivectors, k-vectors, blades fixed at compile time or chosen at run time, numbers, constants, mixtures).',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every basis blade, every operand representation, every supported signature', T_PROD,
     ['core/geometric_product.hpp', 'core/orthogonal_metric_mapping.hpp', 'core/expression_simplification_product_components.hpp', 'core/clifford_expression.hpp'],
     mech(('product rule', 'core/geometric_product.hpp'), ('orthogonal metric mapping and swap signs', 'core/orthogonal_metric_mapping.hpp')))
prop('P02', 'Products in general (non-orthogonal) metrics',
     'In algebras with a non-orthogonal basis, such as the conformal models and user-declared metric matrices, the geometric product and the products derived from it (contractions, dot, Hestenes, scalar, commutator) agree with the Clifford algebra of the declared bilinear form, for all operands.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every basis blade fixed at compile time, conformal and user-declared metric matrices', T_PROD,
     ['core/general_metric_mapping.hpp', 'model/general/metric_space.hpp', 'model/conformal/metric_space.hpp'],
     mech(('general metric mapping', 'core/general_metric_mapping.hpp')))
prop('P03', 'Outer product', 'The outer product of any two operands is the exterior product: bilinear, associative, independent of the metric, zero whenever a basis vector repeats, and signed by the permutation that sorts the basis vectors.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every basis blade and operand representation', T_PROD,
     ['core/outer_product.hpp', 'core/exterior_product_mapping.hpp'], mech(('outer product rule', 'core/outer_product.hpp'), ('exterior mapping', 'core/exterior_product_mapping.hpp')))
prop('P04', 'Regressive product', 'The regressive product of two operands gives, blade by blade, the signed common factor of blades that together span the space, and zero otherwise.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every basis blade and operand representation', T_PROD,
     ['core/regressive_product.hpp', 'core/regressive_product_mapping.hpp'], mech(('regressive mapping', 'core/regressive_product_mapping.hpp')))
prop('P05', 'Left and right contraction', 'The left (right) contraction of two operands is the part of the geometric product of each pair of homogeneous parts whose grade is the difference right minus left (left minus right), and zero when that difference is negative.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every basis blade and operand representation, every supported signature', T_PROD,
     ['core/left_contraction.hpp', 'core/right_contraction.hpp'], mech(('grade test', 'core/left_contraction.hpp'), ('grade test', 'core/right_contraction.hpp')))
prop('P06', 'Dot and Hestenes inner product', 'The dot product keeps, for each pair of homogeneous parts, the grade given by the absolute grade difference; the Hestenes inner product does the same except that it is zero when either part is a scalar.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every basis blade and operand representation, every supported signature', T_PROD,
     ['core/dot_product.hpp', 'core/hestenes_inner_product.hpp'], mech(('grade test', 'core/dot_product.hpp'), ('grade test', 'core/hestenes_inner_product.hpp')))
prop('P07', 'Scalar product and reverse norm', 'The scalar product of two operands is the grade-zero part of their geometric product; the squared reverse norm is the scalar product of an operand with its reverse, and the reverse norm is the non-negative square root of it wherever that square is non-negative.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every basis blade and operand representation, every supported metric',
     'The tests check products of unit basis blades in up to three Euclidean dimensions; signs of coefficients, indefinite or degenerate metrics and the norm functions are never exercised.',
     ['core/scalar_product.hpp', 'extra/reverse_norm.hpp'], mech(('scalar product rule', 'core/scalar_product.hpp')))
prop('P08', 'Commutator product', 'The commutator product of two operands is half of the difference between their geometric products in the two orders.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient; operands whose basis blades are fixed at compile time', T_NONE,
     ['extra/commutator_product.hpp'], mech(('definition', 'extra/commutator_product.hpp')))
prop('P09', 'Reversion, involution and conjugation', 'Reversion, grade involution and Clifford conjugation change only the signs of homogeneous parts, by the grade patterns ++--, +-+- and +--+ respectively, for every operand.',
     ['inputs', 'programs'], 'every real coefficient, every basis blade and operand representation', T_NONE,
     ['core/reversion.hpp', 'core/involution.hpp', 'core/conjugation.hpp', 'core/expression_graded_unary_minus.hpp'], mech(('graded unary minus', 'core/expression_graded_unary_minus.hpp')))
prop('P10', 'Addition, subtraction and scaling', 'Sums, differences, negation and scalar multiples act coefficient by coefficient for all operand representations, never dropping, merging or misplacing a component.',
     ['inputs', 'programs'], 'every real coefficient and every mixture of operand representations',
     'The miscellaneous tests add a handful of constants; merging of run-time, constant and shared components is not sampled systematically and holds for all coefficients or not at all.',
     ['core/arithmetic_operators.hpp', 'core/expression_simplification_addition_components.hpp', 'core/expression_simplification_addition_values.hpp'],
     mech(('component merge', 'core/expression_simplification_addition_components.hpp'), ('value simplification', 'core/expression_simplification_addition_values.hpp')))
prop('P11', 'Lazy evaluation equals eager evaluation', 'For every program written over lazy arguments, including nested lazy contexts and contexts made from temporaries, evaluating the composed expression once gives the same multivector as evaluating the program operation by operation.',
     ['programs', 'inputs'], 'every program of up to 8 generated operations and every real value of its arguments',
     'The tests evaluate three fixed lazy programs on one argument tuple; the rewriting performed on composed expressions depends on the whole program.',
     ['core/lazy_context.hpp', 'core/expression.hpp', 'core/expression_simplification_product_values.hpp'], mech(('substitution of arguments', 'core/lazy_context.hpp')))
prop('P13', 'Scalar simplification preserves value', 'Rewriting of scalar expressions (constants, sums, products, quotients, powers, roots, absolute values and transcendental functions) never changes the value of the expression anywhere in its real domain.',
     ['programs', 'inputs'], 'every generated scalar expression of up to 8 operations, every real value of its arguments for which it is defined',
     'The tests compare printed forms of a few expressions; an unsound rewrite shows up only for particular signs or particular operator nestings.',
     ['core/expression_simplification_power.hpp', 'core/expression_simplification_product_values.hpp', 'core/expression_simplification_addition_values.hpp', 'core/expression_traits.hpp', 'core/math.hpp'],
     mech(('power rules', 'core/expression_simplification_power.hpp'), ('product rules', 'core/expression_simplification_product_values.hpp'), ('addition rules', 'core/expression_simplification_addition_values.hpp'), ('sign traits', 'core/expression_traits.hpp')))

prop('P14', 'Versor inverse and inverse geometric product', 'The inverse of an invertible versor is its reverse divided by its squared reverse norm, so that multiplying the versor by it from either side gives one; the inverse geometric product and operator/ multiply by that inverse from the right.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient with a non-zero squared reverse norm, every operand representation, every supported metric', T_NONE,
     ['extra/versor_inverse.hpp', 'extra/inverse_geometric_product.hpp', 'extra/reverse_norm.hpp'], mech(('definition', 'extra/versor_inverse.hpp'), ('definition', 'extra/inverse_geometric_product.hpp')))
prop('P15', 'Normalisation under the reverse norm', 'unit(x) is x divided by the square root of the absolute value of its squared reverse norm, so the result has squared reverse norm +1 or -1 with the sign of the argument, for every argument whose squared reverse norm is not zero.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient with a non-zero squared reverse norm, every operand representation, every supported metric', T_NONE,
     ['extra/unit.hpp'], mech(('definition', 'extra/unit.hpp')))
prop('P16', 'Dualisation and undualisation', 'dual contracts the argument with the inverse of the pseudoscalar and undual contracts it with the pseudoscalar, for the pseudoscalar of the space and for user-given ones; they undo each other wherever the pseudoscalar of the space is invertible.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every basis blade and operand representation, every supported metric', T_NONE,
     ['extra/dualization.hpp'], mech(('definition', 'extra/dualization.hpp')))
prop('P17', 'Application of versors and rotors', 'Applying an even versor to x gives v x v^-1, an odd versor gives v involute(x) v^-1, and a rotor gives v x reverse(v); hence transformations of vectors preserve scalar products and distribute over outer products.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient of the versor (with non-zero norm) and of the argument, every operand representation, every supported metric', T_NONE,
     ['extra/apply_versor.hpp'], mech(('definition', 'extra/apply_versor.hpp')))
prop('P18', 'Exponential of blades', 'The exponential of a blade is the sum of its power series in closed form: cosine and sine for negative squares, hyperbolic functions for positive squares and 1 + B for squares within the tolerance.',
     ['inputs', 'programs', 'configurations'], 'every blade with arbitrary real coefficients, every non-negative tolerance, metrics of every signature', T_NONE,
     ['extra/blade_exponential.hpp'], mech(('case analysis on the square', 'extra/blade_exponential.hpp')))
prop('P19', 'Grade queries and grade extraction', 'grade and largest_grade report the single or largest grade whose coefficients exceed the tolerance (or that there is none, or several), and take_grade and take_largest_grade return exactly the components of the requested grade.',
     ['inputs', 'programs'], 'every real coefficient, every non-negative tolerance, every run-time or constant grade, every operand representation',
     T_NONE, ['extra/grade.hpp', 'extra/take_grade.hpp', 'core/expression.hpp'], mech(('grade deduction', 'extra/grade.hpp'), ('component selection', 'extra/take_grade.hpp')))

prop('P20', 'Tests for zero, null and unit multivectors', 'is_zero holds exactly when every coefficient is within the tolerance of zero, is_null exactly when the squared reverse norm is within it, and is_unit exactly when the magnitude of the squared reverse norm exceeds one by no more than it.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every non-negative tolerance, every operand representation, every supported metric', T_NONE,
     ['extra/tests.hpp'], mech(('definitions', 'extra/tests.hpp')))
prop('P21', 'Copies and conversions between multivector types', 'Copying, assigning or converting a multivector to another type preserves every coefficient the destination can hold, sets its remaining coefficients to zero, and throws bad_checked_copy_exception exactly when a component that cannot be held exceeds the tolerance.',
     ['inputs', 'programs'], 'every real coefficient of source and destination, every non-negative tolerance, source and destination types of every representation', T_NONE,
     ['core/trivial_copy.hpp', 'core/clifford_expression.hpp'], mech(('component copy', 'core/trivial_copy.hpp'), ('conversion', 'core/clifford_expression.hpp')))

prop('P22', 'Vectors, points and named constants of the models', 'Each model builds Euclidean vectors and points (homogeneous, Minkowski and conformal points with their normalised extra coordinates, however the coordinates are given) and names the basis vectors, null vectors, zero, one and pseudoscalars as documented.',
     ['inputs', 'configurations'], 'every real coordinate, every way of passing coordinates, every run-time basis vector index, every shipped model',
     'No test constructs a point of any model, and mixing constant, integral and floating-point coordinates selects different types.',
     ['util/vector.hpp', 'model/signed/homogeneous/point.hpp', 'model/conformal/point.hpp', 'model/signed/minkowski/point.hpp'], mech(('point', 'model/conformal/point.hpp'), ('vector', 'util/vector.hpp')))
prop('P23', 'Flats of the homogeneous model', 'For every flat of the homogeneous model, direction, moment, support vector and unit support point are the parameters of that flat, and translating it by a vector gives the flat through the translated points.',
     ['inputs', 'configurations'], 'every flat spanned by arbitrary real points and directions for which the parameter is defined, every operand representation', T_NONE,
     ['model/signed/homogeneous/flat_direction.hpp', 'model/signed/homogeneous/flat_moment.hpp', 'model/signed/homogeneous/flat_support_vector.hpp', 'model/signed/homogeneous/translation.hpp'],
     mech(('parameters', 'model/signed/homogeneous/flat_support_vector.hpp'), ('translation', 'model/signed/homogeneous/translation.hpp')))
prop('P24', 'Flats, rounds and tangents of the conformal models', 'In the conformal and Minkowski models direction, location and squared radius of flats, rounds and tangents, primal or dual, agree with the points, directions, centre and radius the object was built from.',
     ['inputs', 'configurations'], 'every non-degenerate object built from arbitrary real points, directions and weights', T_NONE,
     ['model/conformal/flat_direction.hpp', 'model/conformal/round_direction.hpp', 'model/conformal/tangent_direction.hpp', 'model/signed/minkowski/round_direction.hpp'],
     mech(('directions', 'model/conformal/round_direction.hpp'), ('duals', 'model/signed/minkowski/round_direction.hpp')))

prop('P25', 'Orthogonal projection and rejection', 'In the Euclidean models the projection of x onto an invertible blade B is (x contracted with B^-1) contracted with B, and for a vector the projection lies in B, the rejection is orthogonal to B, and the two add up to the vector.',
     ['inputs', 'programs'], 'every real coefficient with an invertible blade, every operand representation', T_NONE,
     ['model/signed/euclidean/orthogonal_projection.hpp', 'model/signed/euclidean/rejection.hpp'],
     mech(('projection', 'model/signed/euclidean/orthogonal_projection.hpp'), ('rejection', 'model/signed/euclidean/rejection.hpp')))

prop('P26', 'Delta product', 'The delta product of two operands is the part of their geometric product with the highest grade that has a coefficient above the tolerance, and zero when no coefficient exceeds it.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every non-negative tolerance, every operand representation, every supported metric', T_NONE,
     ['extra/delta_product.hpp', 'extra/take_grade.hpp', 'extra/grade.hpp'], mech(('definition', 'extra/delta_product.hpp')))
prop('P27', 'Visiting components and basis vectors', 'for_each_component visits every component exactly once with its basis blade, coefficient and storage source, for_each_basis_vector visits the index of every basis vector of a blade once in ascending order, and both stop right after the visitor clears keep_going and report whether they ran to the end.',
     ['inputs', 'programs'], 'every representation, every real coefficient, every run-time basis blade and every stopping position', T_NONE,
     ['util/for_each_component.hpp', 'util/for_each_basis_vector.hpp'], mech(('component visitor', 'util/for_each_component.hpp'), ('bit visitor', 'util/for_each_basis_vector.hpp')))
prop('P28', 'Deduced possible grades are sound', 'The smallest and largest possible grades deduced from the type of a result enclose the grade of every component that can be non-zero, for every product and composition of products.',
     ['inputs', 'programs'], 'every range of possible grades of the operands, every run-time basis blade in those ranges, every real coefficient',
     'No test looks at the grades deduced for run-time basis blades; an unsound deduction only shows for particular combinations of grade ranges and run-time blades.',
     ['extra/grade.hpp', 'core/geometric_product.hpp', 'core/dot_product.hpp', 'core/right_contraction.hpp', 'core/regressive_product_mapping.hpp', 'core/exterior_product_mapping.hpp'],
     mech(('possible grades of products', 'core/geometric_product.hpp'), ('meta-functions', 'extra/grade.hpp')))
prop('P29', 'Operators stand for the documented operations', 'The overloaded operators *, ^, <, >, |, /, ~ and unary signs give the geometric, outer, left and right contraction, dot and inverse geometric products, the reversion and the sign changes of their operands in the metric of the namespace, whichever operands are multivectors, scalar expressions or numbers.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every pairing of operand representations, every supported metric',
     'Operators are overloaded once per kind of operand and per namespace; the tests call a few of them with unit blades.',
     ['core/arithmetic_operators.hpp', 'extra/arithmetic_operators.hpp', 'core/macro_for_algebra_overload.hpp', 'extra/macro_for_algebra_overload.hpp'],
     mech(('core operators', 'core/arithmetic_operators.hpp'), ('namespace operators', 'core/macro_for_algebra_overload.hpp')))
prop('P30', 'Operations in an explicitly given metric space', 'Every operation that accepts a metric space as its last argument is carried out in that metric, whatever the namespace it is called from and whichever operands are multivectors, scalar expressions or numbers.',
     ['inputs', 'programs', 'configurations'], 'every real coefficient, every operand representation, orthogonal, degenerate and non-orthogonal metrics', T_NONE,
     ['core/geometric_product.hpp', 'extra/reverse_norm.hpp', 'extra/versor_inverse.hpp', 'extra/apply_versor.hpp', 'extra/dualization.hpp', 'extra/commutator_product.hpp'],
     mech(('metric argument', 'core/geometric_product.hpp'), ('metric argument', 'extra/versor_inverse.hpp')))

prop('P31', 'Meet and join of blades', 'For every pair of blades the meet is a non-zero blade contained in both, the join a non-zero blade containing both, their grades add up to those of the arguments, and factoring the meet out of one argument and multiplying by the other gives the join up to sign; fast_join gives a unit blade containing both arguments.',
     ['inputs', 'configurations'], 'every value of the parameter of each family of pairs of blades, including the degenerate relative positions', T_NONE,
     ['extra/meet_and_join.hpp', 'extra/fast_meet_and_join.hpp'],
     mech(('meet and join algorithm', 'extra/meet_and_join.hpp'), ('fast join algorithm', 'extra/fast_meet_and_join.hpp')))

NOTE = ('Bounded: for every case the solver decides the assertion for all real coefficients and all run-time basis blades in the stated dimensions; the set of operand shapes and programs is finite. '
        'Trusts clang 18 (headers compiled with GATL_VERIF), the symbolic executor (validated natively on each case against g++-11) and z3; doubles are read as reals, math functions as uninterpreted with stated axioms.')


def main():
    import subprocess
    hook = subprocess.run(['git', '-C', '/repo', 'rev-parse', HOOK], stdout=subprocess.PIPE).stdout.decode().strip()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in sorted(PROPS, key=lambda p: p.pid):
            assert len(p.title) <= 80, p.pid
            assert p.statement.count('. ') <= 2, p.pid
            files = []
            for x in p.files:
                x = x if x.startswith('cpp/') else INC + x
                assert os.path.exists('/repo/' + x), (p.pid, x)
                files.append(x)
            for m in p.mech:
                assert os.path.exists('/repo/' + m['where']), (p.pid, m)
            f.write(json.dumps({'id': p.pid, 'title': p.title, 'statement': p.statement, 'quantifier': {'over': p.over, 'text': p.text}, 'why_tests_cant': p.why,
                                'anchors': {'files': files, 'mechanism': p.mech, 'hook_needed': None if p.na else 'GATL_VERIF'}}) + '\n')
    checks, na = [], []
    for p in sorted(PROPS, key=lambda p: p.pid):
        if p.na:
            na.append({'property': p.pid, 'reason': p.na})
            continue
        mod = open(os.path.join(HERE, 'specs', p.pid + '.py')).read()
        assert 'BOUNDS' in mod
        checks.append({'property': p.pid, 'quick_cmd': './check %s quick' % p.pid, 'thorough_cmd': './check %s thorough' % p.pid, 'evidence_file': 'evidence/%s.json' % p.pid,
                       'technique': 'symbolic execution of LLVM IR compiled from the real headers, z3 verdict over all coefficients/bitsets, native replay',
                       'level': 'model_checking', 'level_note': (p.note + ' ' if p.note else '') + NOTE})
    m = {'version': 1, 'setup_cmd': 'true', 'hooks': {'guard': 'GATL_VERIF', 'enable': '-DGATL_VERIF', 'source_commits': [hook]}, 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for ln in open(os.path.join(HERE, 'properties.jsonl')):
        jsonschema.validate(json.loads(ln), sch)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
