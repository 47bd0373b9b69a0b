#include "ops.h"
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/eigen.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/algebra/transpose.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/normalize.h>
#include <dataframe/functional/math/random.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/weightedSum.h>
#include <dataframe/functional/stats/bins.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/quantile.h>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>

namespace h {
using namespace df;

void Hook::fail(i64 n) const {
    sim::fired(sim::F_CALLBACK);
    throw_any((u64)kind, n);
}
void Hook::operator()() {
    if (always) fail(0);
    i64 n = calls++;
    if (yield && n % yield == 0) sim::yield_point();
    if (n == reenter_at) {
        sim::fired(sim::F_REENTRY);
        reenter(reenter_arg);
    }
    if (n == throw_at) {
        thrown = true;
        fail(n);
    }
}

void fill_family(Family &f, int is, uint32_t n, unsigned dim, int vk, u64 seed) {
    Rng r(seed);
    static const int tame[] = {V_INDEX, V_SMALLINT, V_UNIFORM, V_NORMALISH};
    auto t = [&] { return tame[r.below(4)]; };
    f.itemSize = (u64)is;
    f.count = n;
    f.s[SL_A] = make_serie(is, n, dim, vk, r.next());
    f.s[SL_B] = make_serie(is, n, dim, vk == V_INDEX ? (int)V_UNIFORM : vk, r.next());
    f.s[SL_S] = make_serie(1, n, dim, t(), r.next());
    f.s[SL_S2] = make_serie(1, n, 3, t(), r.next());
    f.s[SL_V] = make_serie(3, n, 3, t(), r.next());
    f.s[SL_W] = make_serie(3, n, 3, vk, r.next());
    f.s[SL_Q] = make_serie(is, n, dim, t(), r.next());
    f.s[SL_T3] = make_serie(3, n, 2, t(), r.next());
    f.s[SL_T4] = make_serie(4, n, 2, t(), r.next());
    f.s[SL_T6] = make_serie(6, n, 3, r.chance(50) ? (int)V_UNIFORM : t(), r.next());
    f.s[SL_T9] = make_serie(9, n, 3, t(), r.next());
    f.s[SL_Z] = make_serie(6, n, 3, vk, r.next());
    uint32_t np = 4 + (uint32_t)r.below(8);
    f.s[SL_P] = make_serie(3, np, 3, r.chance(50) ? (int)V_UNIFORM : (int)V_SMALLINT, r.next());
    Array idx((size_t)n * 3);
    for (auto &x : idx) x = (double)r.below(np);
    f.s[SL_I] = Serie(3, idx);
    f.s[SL_O] = make_serie(is, n + 1 + (uint32_t)r.below(3), 3, V_INDEX, 1);
    f.s[SL_N] = Serie();
}
std::vector<Model> models_of(const Family &f) {
    std::vector<Model> m;
    for (auto &s : f.s) m.push_back(model_of(s));
    return m;
}
void check_family(const Family &f, const std::vector<Model> &m, const char *when) {
    for (int i = 0; i < SL_COUNT; i++) {
        Model x = model_of(f.s[i]);
        if (!(x == m[i])) sim::violation("input-changed", "%s: an input (slot %d) was %s and is now %s", when, i, m[i].str().c_str(), x.str().c_str());
    }
}

enum {
    N_ADD, N_ADDLIST, N_ADDNUM, N_ADDMANY, N_SUB, N_SUBLIST, N_SUBNUM, N_NEGATE, N_SCALE, N_SCALES, N_MULTNUM, N_MULT, N_MULTS, N_DIVNUM, N_DIV, N_WSUM,
    N_MINMAX, N_EQUALS, N_APPROX, N_EQMASK, N_APMASK, N_EQALL, N_NORMALIZE, N_NORM, N_NORM2, N_DOT, N_DOTARRAY, N_CROSS, N_TRANSPOSE, N_DET, N_INV,
    N_EIGENVALUES, N_EIGENVECTORS, N_EIGENSYSTEM, N_MEAN, N_COVARIANCE, N_QUANTILE, N_QUARTILES, N_OUTLIERS, N_ISOUTLIERS, N_NOTOUTLIERS, N_BINS, N_BINSRANGE,
    N_NORMALS, N_AREAS, N_INSAR, N_FRINGES, N_RANDOM, N_MATRIX, N_VECTOR, N_ANY, N_ACCESS, N_OPS
};
static const char *const names[] = {
    "add", "add list", "add number", "add several", "sub", "sub list", "sub number", "negate", "scale", "scale by components", "mult by number", "mult", "mult by scalars",
    "div by number", "div", "weigthedSum", "minMax", "equals", "approximatelyEquals", "equalityMask", "approximateEqualityMask", "equalsAll", "normalize", "norm", "norm2",
    "dot", "dot with vector", "cross", "transpose", "det", "inv", "eigenValues", "eigenVectors", "eigenSystem", "mean", "covariance", "quantile", "quartiles", "outliers",
    "isOutliers", "notOutliers", "bins", "bins in range", "normals", "areas", "insar", "fringes", "random", "Matrix", "Vector", "any arguments", "item access"};
static_assert(sizeof names / sizeof *names == N_OPS);
int numeric_ops() { return N_OPS; }
const char *numeric_name(int op) { return names[op]; }

// Any operation on arguments that fit or not: each combination has its result or its error
static Outcome any_arguments(u64 v, const Family &f) {
    static const int tame[] = {SL_S, SL_S2, SL_V, SL_Q, SL_T3, SL_T4, SL_T6, SL_T9, SL_P, SL_I, SL_O, SL_N};
    constexpr int nt = sizeof tame / sizeof *tame;
    const double d = small_number(v);
    v = Rng(v ^ 0x5eed).next();
    const Serie &a = f.s[tame[v % nt]], &b = f.s[tame[(v >> 8) % nt]], &any = f.s[(v >> 16) % SL_COUNT];
    const size_t k = (v >> 24) % 5;
    const Serie &t = a.itemSize() == 6 && a.dimension() == 3 && &a != &f.s[SL_T6] ? f.s[SL_N] : a; // a tensor that the iteration can handle
    switch ((v >> 32) % 40) {
    case 0: return outcome_of([&] { return math::add(any, b); });
    case 1: return outcome_of([&] { return math::add(any, d); });
    case 2: return outcome_of([&] { return math::add({a, b, any}); });
    case 3: return outcome_of([&] { return math::mult(any, b); });
    case 4: return outcome_of([&] { return math::mult(a, any); });
    case 5: return outcome_of([&] { return math::div(any, b); });
    case 6: return outcome_of([&] { return math::div(a, any); });
    case 7: return outcome_of([&] { return math::div(d, any); });
    case 8: return outcome_of([&] { return math::weigthedSum({a, b}, Array(k, d)); });
    case 9: return outcome_of([&] { return math::weigthedSum({any, any}, Array(k, d)); });
    case 10:
        return outcome_of([&] {
            auto m = math::minMax(any);
            return std::make_pair(m.min, m.max);
        });
    case 11: return outcome_of([&] { return math::equals(any, b); });
    case 12: return outcome_of([&] { return math::approximatelyEquals(any, b, std::abs(d)); });
    case 13: return outcome_of([&] { return math::equalityMask(any, b); });
    case 14: return outcome_of([&] { return math::approximateEqualityMask(any, b, std::abs(d)); });
    case 15: return outcome_of([&] { return math::equalsAll(a, any, b); });
    case 16: return outcome_of([&] { return math::normalize(any); });
    case 17: return outcome_of([&] { return algebra::norm(any); });
    case 18: return outcome_of([&] { return algebra::norm2(any); });
    case 19: return outcome_of([&] { return algebra::dot(any, b); });
    case 20: return outcome_of([&] { return algebra::dot(any, Array(k, d)); });
    case 21: return outcome_of([&] { return algebra::cross(any, b); });
    case 22: return outcome_of([&] { return algebra::cross(a, any); });
    case 23: return outcome_of([&] { return algebra::transpose(any); });
    case 24: return det_op(any);
    case 25: return outcome_of([&] { return algebra::inv(any); });
    case 26: return outcome_of([&] { return algebra::eigenValues(t); });
    case 27: return outcome_of([&] { return algebra::eigenVectors(t); });
    case 28: return outcome_of([&] { return algebra::eigenSystem(t); });
    case 29:
        return outcome_of([&] {
            auto m = stats::mean(any);
            return std::make_tuple(m.isNumber, m.isNumber ? m.number : 0.0, m.isNumber ? Array() : m.array);
        });
    case 30: return outcome_of([&] { return stats::covariance(a, b); });
    case 31: return outcome_of([&] { return stats::quantile(a, d / 2); });
    case 32: return outcome_of([&] { return std::make_tuple(stats::q25(a), stats::q50(a), stats::q75(a), stats::IQR(a)); });
    case 33: return outcome_of([&] { return std::make_tuple(stats::outliers(a, d), stats::isOutliers(a, 1), stats::notOutliers(a, d)); });
    case 34: return outcome_of([&] { return stats::bins(a, k * 3); });
    case 35: return outcome_of([&] { return geo::normals(a, v & (1ull << 60) ? f.s[SL_I] : f.s[SL_N]); });
    case 36: return outcome_of([&] { return geo::areas(a, v & (1ull << 60) ? f.s[SL_I] : f.s[SL_N]); });
    case 37: return outcome_of([&] { return geo::insar(any, Array(k, d)); });
    case 38: return outcome_of([&] { return geo::fringes(any, d); });
    default: return sub_op(3, v, f);
    }
}

Outcome numeric(const Call &c, const Family &f) {
    const u64 v = c.v;
    const double d = small_number(v);
    const Serie &a = f.s[SL_A];
    // a second argument that fits, mostly
    const Serie &b = v % 16 == 15 ? f.s[SL_O] : v % 16 == 14 ? f.s[SL_V] : f.s[SL_B];
    const Serie &s = f.s[SL_S], &s2 = f.s[SL_S2];
    const Serie &x = v % 16 == 13 ? a : v % 16 == 12 ? f.s[SL_N] : s; // scalars, mostly
    const Serie &ten = (v >> 4) % 8 == 0 ? a : (v >> 4) % 4 == 0 ? f.s[SL_T3] : (v >> 4) % 4 == 1 ? f.s[SL_T4] : (v >> 4) % 4 == 2 ? f.s[SL_T6] : f.s[SL_T9];
    const bool some = f.count > 0;
    switch (c.op) {
    case N_ADD: return outcome_of([&] { return math::add(a, b); });
    case N_ADDLIST:
        if (v & 64) return outcome_of([&] { return math::add({a, b, a}); });
        return outcome_of([&] { return math::add({a, b}); });
    case N_ADDNUM: return outcome_of([&] { return math::add(x, d); });
    case N_ADDMANY: return outcome_of([&] { return math::add(a, b, a); });
    case N_SUB: return sub_op(0, v, f);
    case N_SUBLIST: return sub_op(1, v, f);
    case N_SUBNUM: return sub_op(2, v, f);
    case N_NEGATE: return outcome_of([&] { return math::negate(v & 1 ? a : f.s[SL_V]); });
    case N_SCALE: return outcome_of([&] { return math::scale(a, d); });
    case N_SCALES: return outcome_of([&] { return math::scale(a, Array(f.itemSize + (v % 8 == 7), d)); });
    case N_MULTNUM: return outcome_of([&] { return math::mult(a, d); });
    case N_MULT: return outcome_of([&] { return math::mult(a, b); });
    case N_MULTS: return outcome_of([&] { return math::mult(a, s); });
    case N_DIVNUM: return outcome_of([&] { return math::div(d, a); });
    case N_DIV: return outcome_of([&] { return math::div(v & 1 ? x : s, v & 2 ? a : f.s[SL_V]); });
    case N_WSUM:
        if (v % 64 == 63) return outcome_of([&] { return math::weigthedSum(std::initializer_list<Serie>{}, Array()); });
        if (v & 64) return outcome_of([&] { return math::weigthedSum({a, b, a}, Array{d, 0.5, v % 3 - 1.0}); });
        return outcome_of([&] { return math::weigthedSum({a, b}, {d, 2.5}); });
    case N_MINMAX:
        return outcome_of([&] {
            auto m = math::minMax(v & 1 ? a : v & 2 ? s : f.s[SL_W]);
            return std::make_pair(m.min, m.max);
        });
    case N_EQUALS: return outcome_of([&] { return math::equals(v & 1 ? a : f.s[SL_S], v & 2 ? a : v & 4 ? b : s2); });
    case N_APPROX: return outcome_of([&] { return math::approximatelyEquals(a, v & 1 ? a : b, std::abs(d)); });
    case N_EQMASK: return outcome_of([&] { return math::equalityMask(a, v % 16 == 12 ? f.s[SL_N] : b); });
    case N_APMASK: return outcome_of([&] { return math::approximateEqualityMask(a, b, std::abs(d)); });
    case N_EQALL: return outcome_of([&] { return math::equalsAll(a, a, v & 1 ? a : b); });
    case N_NORMALIZE:
        return outcome_of([&] { return math::normalize(v & 1 ? a : v & 2 ? f.s[SL_V] : x); });
    case N_NORM: return outcome_of([&] { return algebra::norm(v & 1 ? a : f.s[SL_V]); });
    case N_NORM2: return outcome_of([&] { return algebra::norm2(v & 1 ? a : f.s[SL_V]); });
    case N_DOT:
        if (v & 1) return outcome_of([&] { return algebra::dot(a, f.s[SL_B]); });
        if (v % 16 == 8) return outcome_of([&] { return algebra::dot(f.s[SL_W], f.s[SL_P]); });
        return outcome_of([&] { return algebra::dot(f.s[SL_V], f.s[SL_W]); });
    case N_DOTARRAY:
        if (!some && v % 2) return outcome_of([&] { return algebra::dot(f.s[SL_P], Array{d, 1, 2}); });
        return outcome_of([&] { return algebra::dot(a, Array(f.itemSize + (v % 8 == 7), d)); });
    case N_CROSS:
        if (v % 8 == 7) return outcome_of([&] { return algebra::cross(f.itemSize == 3 ? s : a, f.s[SL_V]); });
        if (v % 8 == 6) return outcome_of([&] { return algebra::cross(f.s[SL_V], f.s[SL_P]); });
        return outcome_of([&] { return algebra::cross(f.s[SL_V], f.s[SL_W]); });
    case N_TRANSPOSE: return outcome_of([&] { return algebra::transpose(ten); });
    case N_DET: return det_op(ten);
    case N_INV: return outcome_of([&] { return algebra::inv(ten); });
    case N_EIGENVALUES: return outcome_of([&] { return algebra::eigenValues((v >> 4) % 4 ? f.s[SL_T6] : f.s[SL_T3]); });
    case N_EIGENVECTORS: return outcome_of([&] { return algebra::eigenVectors((v >> 4) % 4 ? f.s[SL_T6] : f.s[SL_T3]); });
    case N_EIGENSYSTEM: return outcome_of([&] { return algebra::eigenSystem((v >> 4) % 4 ? f.s[SL_T6] : f.s[SL_T3]); });
    case N_MEAN:
        return outcome_of([&] {
            auto m = stats::mean(v & 1 ? a : s);
            return std::make_tuple(m.isNumber, m.isNumber ? m.number : 0.0, m.isNumber ? Array() : m.array);
        });
    case N_COVARIANCE: return outcome_of([&] { return stats::covariance(x, v % 16 == 11 ? f.s[SL_O] : s2); });
    case N_QUANTILE:
        return outcome_of([&] { return stats::quantile(v % 16 == 12 ? f.s[SL_N] : v % 16 == 13 ? f.s[SL_V] : s, (double)(v % 23) / 20); });
    case N_QUARTILES:
        return outcome_of([&] { return std::make_tuple(stats::q25(s), stats::q50(s), stats::q75(s), stats::IQR(s2)); });
    case N_OUTLIERS: return outcome_of([&] { return stats::outliers(v % 16 == 12 ? f.s[SL_N] : s, 0.2 + (double)(v % 5) / 4); });
    case N_ISOUTLIERS: return outcome_of([&] { return stats::isOutliers(v % 16 == 12 ? f.s[SL_N] : s, 0.2 + (double)(v % 5) / 4); });
    case N_NOTOUTLIERS: return outcome_of([&] { return stats::notOutliers(v % 16 == 12 ? f.s[SL_N] : s, 0.2 + (double)(v % 5) / 4); });
    case N_BINS: return outcome_of([&] { return stats::bins(v % 16 == 13 ? f.s[SL_V] : s, v % 12); });
    case N_BINSRANGE: return outcome_of([&] { return stats::bins(v % 16 == 13 ? f.s[SL_V] : s, v % 12, -1e6, 1e6); });
    case N_NORMALS: return outcome_of([&] { return geo::normals(v % 16 == 15 ? s : f.s[SL_P], v % 16 == 14 ? f.s[SL_N] : f.s[SL_I]); });
    case N_AREAS: return outcome_of([&] { return geo::areas(f.s[SL_P], v % 16 == 14 ? f.s[SL_N] : f.s[SL_I]); });
    case N_INSAR: return outcome_of([&] { return geo::insar(v % 16 == 15 ? f.s[SL_P] : f.s[SL_W], Array(v % 8 == 7 ? 2 : 3, d)); });
    case N_FRINGES: return outcome_of([&] { return geo::fringes(v % 16 == 15 ? f.s[SL_V] : s, d + 0.1); });
    case N_RANDOM: return outcome_of([&] { return math::random((uint32_t)(v % 9), 1 + (uint32_t)(v >> 8) % 3, -1, 2, (unsigned)(v >> 16) % 100); });
    case N_ANY: return any_arguments(v, f);
    case N_MATRIX:
        return outcome_of([&] {
            std::vector<Array> r;
            const Serie &t = f.s[SL_T9];
            for (uint32_t i = 0; i < t.count() && i < 4; i++) {
                Matrix m = squaredMatrix(t.value(i)), y = symSquaredMatrix(f.s[SL_T6].value(i));
                Matrix tr = m.transpose();
                r.push_back(m.multMat(tr).array().array());
                r.push_back(y.multVec(Vector(f.s[SL_V].value(i))).array());
                r.push_back(Array{m.trace(), y.trace(), (double)y.isSymmetric()});
            }
            return r;
        });
    case N_VECTOR:
        return outcome_of([&] {
            std::vector<Array> r;
            for (uint32_t i = 0; i < f.s[SL_V].count() && i < 4; i++) {
                Vector p(f.s[SL_V].value(i)), q(f.s[SL_T3].value(i));
                r.push_back(Array{p.dot(q), p.at(1), (double)p.length()});
                r.push_back(p.add(q).mult(d).sub(q).array());
            }
            return r;
        });
    default:
        return outcome_of([&] {
            Array r;
            for (uint32_t i = 0; i < a.count(); i++) {
                Array t = a.value(i);
                r.insert(r.end(), t.begin(), t.end());
                t = a.get<Array>(i);
                r.insert(r.end(), t.begin(), t.end());
                r.push_back(a.scalar(i));
                r.push_back(a.get<double>(i));
            }
            if (v % 4 == 3) r.push_back(a.scalar(a.size()));
            return std::make_pair(r, a.clone());
        });
    }
}
} // namespace h
