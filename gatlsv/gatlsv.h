// Helpers shared by the harness programs.  Only GATL's public interface is used.
#ifndef GATLSV_H
#define GATLSV_H
#include <cstdint>
#include <cstddef>
#include <type_traits>

namespace gsv {

    // Stores a[basis blade] in every component of a multivector whose coefficients are all runtime defined.
    template<typename C, typename E, typename A>
    inline void fill(ga::clifford_expression<C, E> &x, A const *a) {
        std::size_t i = 0;
        ga::for_each_component(x, [&](ga::bitset_t const bv, C const &, ga::entry_source_t const, ga::entry_source_t const, bool &) {
            *(x.values().begin() + i) = (C) a[bv];
            ++i;
        });
    }

    template<typename C, typename A, std::enable_if_t<std::is_arithmetic_v<C>, int> = 0>
    inline void fill(C &x, A const *a) {
        x = (C) a[0];
    }

    template<typename T, typename A>
    inline T make(A const *a) {
        T x;
        fill(x, a);
        return x;
    }

    // A coefficient times a basis blade chosen at run time.
    template<typename C, std::size_t N, typename A, typename B>
    inline ga::scaled_basis_blade_t<C, 0, N> dyn(A const a, B const bv) {
        return ga::scaled_basis_blade_t<C, 0, N>(ga::make_sequential_storage((C) a), ga::make_sequential_storage((ga::bitset_t) bv));
    }

    // Adds the coefficients of x to o[basis blade].
    template<typename C, typename E, typename O>
    inline void out(O *o, ga::clifford_expression<C, E> const &x) {
        ga::for_each_component(x, [&](ga::bitset_t const bv, auto const &v, ga::entry_source_t const, ga::entry_source_t const, bool &) {
            o[bv] += (O) v;
        });
    }

    template<typename O, typename T, std::enable_if_t<std::is_arithmetic_v<T>, int> = 0>
    inline void out(O *o, T const x) {
        o[0] += (O) x;
    }

    // The grades that the type of x admits.
    template<typename C, typename E>
    constexpr double lowest(ga::clifford_expression<C, E> const &) {
        return (double) ga::smallest_possible_grade_v<E>;
    }

    template<typename C, typename E>
    constexpr double highest(ga::clifford_expression<C, E> const &) {
        return (double) ga::largest_possible_grade_v<E>;
    }

    // The product of basis blades: its coefficient and its basis vectors (the last component visited).
    template<typename C, typename E, typename O, typename B>
    inline void single(O *o, B *b, ga::clifford_expression<C, E> const &x) {
        ga::for_each_component(x, [&](ga::bitset_t const bv, auto const &v, ga::entry_source_t const, ga::entry_source_t const, bool &) {
            o[0] += (O) v;
            b[0] = (B) bv;
            o[1] += 1;
        });
    }

    // Same, with assignment (for exact binary64 comparisons).
    template<typename C, typename E, typename O>
    inline void put(O *o, ga::clifford_expression<C, E> const &x) {
        ga::for_each_component(x, [&](ga::bitset_t const bv, auto const &v, ga::entry_source_t const, ga::entry_source_t const, bool &) {
            o[bv] = (O) v;
        });
    }
}

#endif
