// Metric spaces that the library lets a user declare but ships no header for.
#ifndef GATLSV_SPACES_H
#define GATLSV_SPACES_H
#include <gatl/ga/core.hpp>
#include <gatl/ga/util.hpp>
#include <gatl/ga/extra.hpp>
#include <gatl/ga/model/general.hpp>
#include <gatl/ga/model/signed/metric_space.hpp>
#include <gatl/ga/model/signed/macro_for_algebra_definition.hpp>
#include <gatl/ga/model/euclidean.hpp>
#define GSV_SIGNED(NS, P, Q, R, ...) \
    namespace NS { using namespace ga; _GA_SIGNED_ALGEBRA_DEFINITION(space, basis_vectors_names, P, Q, R, __VA_ARGS__) \
    _GA_CORE_OVERLOAD(space) _GA_UTIL_OVERLOAD(space) _GA_EXTRA_OVERLOAD(space, basis_vectors_names) }
#define GSV_GENERAL(NS, N, ...) \
    namespace NS { using namespace ga; using space_t = constant_general_metric_space_t<__VA_ARGS__>; static space_t const space; \
    static std::array<std::string, N> const basis_vectors_names = {}; static auto const I = pseudoscalar(space); \
    _GA_CORE_OVERLOAD(space) _GA_UTIL_OVERLOAD(space) _GA_EXTRA_OVERLOAD(space, basis_vectors_names) }
GSV_SIGNED(x_s111, 1, 1, 1, "e1", "e2", "e3")
GSV_SIGNED(x_s120, 1, 2, 0, "e1", "e2", "e3")
GSV_SIGNED(x_s013, 0, 1, 3, "e1", "e2", "e3", "e4")
GSV_SIGNED(x_s22, 2, 2, 0, "e1", "e2", "e3", "e4")
GSV_GENERAL(x_g2, 2, 2, 1, 1, 3)
GSV_GENERAL(x_g3, 3, 1, 2, -1, 2, -1, 3, -1, 3, 2)
GSV_GENERAL(x_gd, 3, 0, 1, 0, 1, 0, 0, 0, 0, 0)
GSV_GENERAL(x_g4, 4, 2, 1, -1, 3, 1, -2, 1, 2, -1, 1, 3, -1, 3, 2, -1, 1)
#endif
