#include "ops.h"
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/geo/cartesian_grid.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/merge.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>

namespace h {
using namespace df;

enum {
    F_FOREACH_S, F_FOREACH_A, F_FOREACH_G, F_FOREACH_M, F_MAP_SS, F_MAP_SA, F_MAP_AS, F_MAP_AA, F_MAP_MS, F_MAP_MA, F_APPLY, F_REDUCE_S, F_REDUCE_A, F_FILTER_S, F_FILTER_A,
    F_FILTER_M, F_FILTERALL, F_REJECT_S, F_REJECT_A, F_REJECT_M, F_REJECTALL, F_CUT, F_PARTITION_S, F_PARTITION_A, F_PARTN, F_PARTN_M, F_FIND_S, F_FIND_A, F_FINDALL_S,
    F_FINDALL_A, F_CHECK_S, F_CHECK_A, F_SORT, F_SORT_CMP, F_ZIP, F_ZIPVECTOR, F_UNZIP, F_CONCAT, F_CONCATVEC, F_MERGE, F_MERGEMANY, F_GRID_DIMS, F_GRID_POINTS, F_MAKE, F_PIPE,
    F_COMPOSE, F_NESTED, F_MEMBERS, F_ANY, F_OPS
};
static const char *const names[] = {
    "forEach scalar", "forEach array", "forEach generic", "forEach several", "map scalar to scalar", "map scalar to array", "map array to scalar", "map array to array",
    "map several to scalar", "map several to array", "apply", "reduce scalar", "reduce array", "filter scalar", "filter array", "filter several", "filterAll", "reject scalar",
    "reject array", "reject several", "rejectAll", "cut", "partition scalar", "partition array", "partition_n", "partition_n several", "find scalar", "find array",
    "findAll scalar", "findAll array", "check scalar", "check array", "sort", "sort with comparison", "zip", "zipVector", "unzip", "concat", "concat vector", "merge",
    "merge several", "grid from dims", "grid from points", "made operation", "pipe", "compose", "nested operations", "member functions", "any arguments"};
static_assert(sizeof names / sizeof *names == F_OPS);
int func_ops() { return F_OPS; }
const char *func_name(int op) { return names[op]; }
bool func_has_callback(int op) { return op <= F_CUT || op == F_PARTITION_S || op == F_PARTITION_A || (op >= F_FIND_S && op <= F_CHECK_A) || (op >= F_MAKE && op <= F_ANY); }

Outcome functional(const Call &c, const Family &f) {
    const u64 v = c.v;
    const double d = small_number(v);
    const Serie &a = f.s[SL_A], &s = f.s[SL_S], &s2 = v % 16 == 15 ? f.s[SL_O] : f.s[SL_S2];
    const Serie &b = v % 16 == 15 ? f.s[SL_O] : f.s[SL_B];
    auto tick = [&c] {
        if (c.hook) (*c.hook)();
    };
    auto ps = [&, tick](double x, uint32_t i) -> bool {
        tick();
        return x > d || (i + v) % 3 == 0;
    };
    auto pa = [&, tick](const Array &x, uint32_t i) -> bool {
        tick();
        return x[0] > d || (i + v) % 3 == 0;
    };
    auto pm = [&, tick](const Array &x, const Array &y, uint32_t i) -> bool {
        tick();
        return x[0] > y[0] || (i + v) % 4 == 0;
    };
    auto pall = [&, tick](const Array &x, const Array &y) -> bool {
        tick();
        return x[0] < y[0];
    };
    auto ms = [&, tick](double x, uint32_t i) -> double {
        tick();
        return x * 2 + d + i;
    };
    auto msa = [&, tick](double x, uint32_t i) -> Array {
        tick();
        return Array{x, d, (double)i};
    };
    auto mas = [&, tick](const Array &x, uint32_t i) -> double {
        tick();
        double t = i;
        for (double y : x) t += y;
        return t;
    };
    auto maa = [&, tick](const Array &x, uint32_t i) -> Array {
        tick();
        Array r(x.rbegin(), x.rend());
        r[0] += i;
        if (v % 32 == 31 && i == 2) r.push_back(d); // does not fit
        return r;
    };
    // any slots, also ones that do not fit: each combination has its result or its error
    const u64 w = Rng(v ^ 0xf17).next();
    const Serie &x1 = f.s[w % SL_COUNT], &x2 = f.s[(w >> 8) % SL_COUNT], &x3 = f.s[(w >> 16) % SL_COUNT];
    auto pg = [&, tick](const Array &x, const Array &y, uint32_t i) -> bool {
        tick();
        return x.size() > y.size() || (i + v) % 2 == 0;
    };
    auto mg = [&, tick](const Array &x, const Array &y, uint32_t i) -> Array {
        tick();
        Array r(x);
        r.insert(r.end(), y.begin(), y.end());
        if (v % 4 == 1 && i == v % 3) r.push_back(d); // does not fit the others
        return r;
    };
    switch (c.op) {
    case F_ANY:
        switch ((w >> 32) % 25) {
        case 0: return outcome_of([&] { return utils::zip(x1, x2, x3); });
        case 1: return outcome_of([&] { return utils::zipVector(Series(w >> 60 & 3, x1)); });
        case 2: return outcome_of([&] { return utils::unzip(x1, std::vector<uint32_t>(w >> 60 & 3, 1 + (uint32_t)(w >> 58 & 3))); });
        case 3: return outcome_of([&] { return utils::concat(x1, x2, x3); });
        case 4: return outcome_of([&] { return merge(x1, x2, bool(w >> 60 & 1)); });
        case 5: return outcome_of([&] { return merge(bool(w >> 60 & 1), x1, x2, x3); });
        case 6: return outcome_of([&] { return utils::partition_n((uint32_t)(w >> 60), x1); });
        case 7: return outcome_of([&] { return utils::partition_n((uint32_t)(w >> 60), x1, x2); });
        case 8:
            return outcome_of([&] {
                return grid::cartesian::from_dims(std::vector<uint32_t>(w >> 40 & 7, (uint32_t)(w >> 43 & 3)), Array(w >> 50 & 3, d), Array(w >> 52 & 3, 1));
            });
        case 9:
            return outcome_of([&] {
                return grid::cartesian::from_points(std::vector<uint32_t>(w >> 40 & 7, (uint32_t)(w >> 43 & 3)), Array(w >> 50 & 3, d), Array(w >> 52 & 3, 1));
            });
        case 10: return outcome_of([&] { return map(mg, x1, x2); });
        case 11: return outcome_of([&] { return map(msa, x1); });
        case 12: return outcome_of([&] { return map(mas, x1); });
        case 13: return outcome_of([&] { return filter(pg, x1, x2); });
        case 14: return outcome_of([&] { return utils::reject(pg, x1, x2); });
        case 15: return outcome_of([&] { return filter(ps, x1); });
        case 16: return outcome_of([&] { return utils::reject(ps, x1); });
        case 17: return outcome_of([&] { return utils::sort(&x1 == &f.s[SL_A] || &x1 == &f.s[SL_B] || &x1 == &f.s[SL_W] || &x1 == &f.s[SL_Z] ? f.s[SL_N] : x1); }); // no NaNs
        case 18: return outcome_of([&] { return utils::cut(ps, x1); });
        case 19:
            return outcome_of([&] {
                auto r = find(ps, x1);
                return std::make_tuple(r.value, r.index, r.found);
            });
        case 20: return outcome_of([&] { return findAll(ps, x1); });
        case 21: return outcome_of([&] { return cond::check(x1, ps); });
        case 22: return outcome_of([&] { return utils::partition(ps, x1); });
        case 23:
            return outcome_of([&] {
                return reduce(
                    [&](double acc, double x, uint32_t i) -> double {
                        tick();
                        return acc + x * i;
                    },
                    x1, d);
            });
        default:
            return outcome_of([&] {
                std::vector<Array> seen;
                forEach(
                    [&](const Array &x, const Array &y, const Array &z, uint32_t) {
                        tick();
                        seen.push_back(x);
                        seen.push_back(y);
                        seen.push_back(z);
                    },
                    x1, x2, x3);
                return seen;
            });
        }
    case F_FOREACH_S:
    case F_FOREACH_A:
    case F_FOREACH_G:
    case F_FOREACH_M:
        return outcome_of([&] {
            std::vector<std::pair<Array, uint32_t>> seen;
            if (c.op == F_FOREACH_S)
                forEach(
                    [&](double x, uint32_t i) {
                        tick();
                        seen.push_back({Array{x}, i});
                    },
                    v % 16 == 15 ? a : s);
            else if (c.op == F_FOREACH_A)
                forEach(
                    [&](const Array &x, uint32_t i) {
                        tick();
                        seen.push_back({x, i});
                    },
                    v % 16 == 15 ? s : v & 16 ? a : f.s[SL_V]);
            else if (c.op == F_FOREACH_G)
                forEach(
                    [&](const auto &x, uint32_t i) {
                        tick();
                        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>)
                            seen.push_back({Array{x}, i});
                        else
                            seen.push_back({x, i});
                    },
                    v & 16 ? s : a);
            else
                forEach(
                    [&](const Array &x, const Array &y, uint32_t i) {
                        tick();
                        seen.push_back({x, i});
                        seen.push_back({y, i});
                    },
                    a, s2);
            return seen;
        });
    case F_MAP_SS: return outcome_of([&] { return map(ms, s); });
    case F_MAP_SA: return outcome_of([&] { return map(msa, s); });
    case F_MAP_AS: return outcome_of([&] { return map(mas, a); });
    case F_MAP_AA: return outcome_of([&] { return map(maa, a); });
    case F_MAP_MS:
        return outcome_of([&] {
            return map(
                [&](const Array &x, const Array &y, uint32_t i) -> double {
                    tick();
                    return x[0] + y[0] * 2 + i;
                },
                a, s2);
        });
    case F_MAP_MA:
        return outcome_of([&] {
            return map(
                [&](const Array &x, const Array &y, const Array &z, uint32_t i) -> Array {
                    tick();
                    return Array{x[0], y[0], z[0] + i};
                },
                a, b, f.s[SL_V]);
        });
    case F_APPLY: return outcome_of([&] { return utils::apply(maa, a); });
    case F_REDUCE_S:
        return outcome_of([&] {
            return reduce(
                [&](double acc, double x, uint32_t i) -> double {
                    tick();
                    return acc * 0.5 + x + i;
                },
                s, d);
        });
    case F_REDUCE_A:
        return outcome_of([&] {
            return reduce(
                [&](const Array &acc, const Array &x, uint32_t i) -> Array {
                    tick();
                    Array r = acc;
                    for (size_t k = 0; k < r.size() && k < x.size(); k++) r[k] += x[k] * (i + 1);
                    return r;
                },
                a, Array(f.itemSize, d));
        });
    case F_FILTER_S: return outcome_of([&] { return filter(ps, s); });
    case F_FILTER_A: return outcome_of([&] { return filter(pa, a); });
    case F_FILTER_M: return outcome_of([&] { return filter(pm, a, s2); });
    case F_FILTERALL: return outcome_of([&] { return filterAll(pall, a, b); });
    case F_REJECT_S: return outcome_of([&] { return utils::reject(ps, s); });
    case F_REJECT_A: return outcome_of([&] { return utils::reject(pa, a); });
    case F_REJECT_M: return outcome_of([&] { return utils::reject(pm, a, s2); });
    case F_REJECTALL: return outcome_of([&] { return utils::rejectAll(pall, a, b); });
    case F_CUT: return outcome_of([&] { return v & 16 ? utils::cut(ps, s) : utils::cut(pa, a); });
    case F_PARTITION_S: return outcome_of([&] { return utils::partition(ps, v % 16 == 15 ? a : s); });
    case F_PARTITION_A: return outcome_of([&] { return utils::partition(pa, a); });
    case F_PARTN: return outcome_of([&] { return utils::partition_n((uint32_t)(v % 7), a); });
    case F_PARTN_M: return outcome_of([&] { return utils::partition_n((uint32_t)(v % 7), a, s2); });
    case F_FIND_S:
        return outcome_of([&] {
            auto r = find(ps, v % 16 == 15 ? a : s);
            return std::make_tuple(r.value, r.index, r.found);
        });
    case F_FIND_A:
        return outcome_of([&] {
            auto r = find(pa, v & 16 ? a : f.s[SL_V]);
            return std::make_tuple(r.value, r.index, r.found);
        });
    case F_FINDALL_S: return outcome_of([&] { return findAll(ps, s); });
    case F_FINDALL_A: return outcome_of([&] { return findAll(pa, a); });
    case F_CHECK_S: return outcome_of([&] { return cond::check(s, ps); });
    case F_CHECK_A: return outcome_of([&] { return cond::check(a, pa); });
    case F_SORT: return outcome_of([&] { return utils::sort(v & 16 ? s : f.s[SL_Q]); });
    case F_SORT_CMP:
        return outcome_of([&] {
            return utils::sort(f.s[SL_V], [](const Array &x, const Array &y) { return x[1] != y[1] ? x[1] > y[1] : x[0] != y[0] ? x[0] < y[0] : x[2] < y[2]; });
        });
    case F_ZIP: return outcome_of([&] { return v & 16 ? utils::zip(a, s2, f.s[SL_V]) : utils::zip(s, s2); });
    case F_ZIPVECTOR: return outcome_of([&] { return utils::zipVector(Series{s2, a, v % 32 == 31 ? f.s[SL_N] : f.s[SL_T4]}); });
    case F_UNZIP: return outcome_of([&] { return utils::unzip(f.s[SL_Z], v % 16 == 15 ? std::vector<uint32_t>{1, 3} : std::vector<uint32_t>{1, 3, 2}); });
    case F_CONCAT: return outcome_of([&] { return utils::concat(a, f.s[SL_O], v % 16 == 15 ? f.s[SL_T9] : f.s[SL_B]); });
    case F_CONCATVEC: return outcome_of([&] { return utils::concat(Series(v % 4, f.s[SL_B])); });
    case F_MERGE: return outcome_of([&] { return merge(a, f.s[v & 16 ? SL_O : v % 16 == 15 ? SL_T9 : SL_B], bool(v & 32)); });
    case F_MERGEMANY: return outcome_of([&] { return merge(bool(v & 32), a, f.s[SL_O], f.s[SL_B]); });
    case F_GRID_DIMS:
        return outcome_of([&] {
            return grid::cartesian::from_dims({(uint32_t)(v % 4 + 1), (uint32_t)(v % 3), (uint32_t)(v % 2 + 1)}, {d, 0, 1}, v % 32 == 31 ? Array{1, 2} : Array{1, 2, 3 + d});
        });
    case F_GRID_POINTS: return outcome_of([&] { return grid::cartesian::from_points({(uint32_t)(v % 5 + 1), (uint32_t)(v % 3 + 1)}, {d, 0, 1}, {v % 3 + 1., 1, 2}); });
    case F_MAKE:
        return outcome_of([&] {
            auto m = make_map(ms);
            auto k = make_filter(ps);
            auto r = utils::make_reject(ps);
            auto u = make_reduce([](double acc, double x, uint32_t) { return acc + x; }, d);
            auto m2 = m;
            return std::make_tuple(m2(s), k(m(s)), r(s), u(s));
        });
    case F_PIPE:
        return outcome_of([&] {
            return pipe(s, make_map(ms), make_filter(ps), make_map([&](double x, uint32_t) {
                            tick();
                            return x / 3;
                        }));
        });
    case F_COMPOSE:
        return outcome_of([&] {
            auto g = utils::compose([](const Serie &x) { return x.count(); }, make_filter(ps), make_map(ms));
            return std::make_pair((u64)g(s), (u64)g(s));
        });
    case F_NESTED:
        return outcome_of([&] {
            return map(
                [&](double x, uint32_t i) -> double {
                    tick();
                    double n = 0;
                    if (i < 6) {
                        Serie t = filter([&](const Array &y, uint32_t j) -> bool { return y[0] > x || j == i; }, f.s[SL_V]);
                        n = t.count() + reduce([](double acc, double z, uint32_t) { return acc + z; }, utils::sort(s), 0.0);
                    }
                    return x + n;
                },
                s);
        });
    default:
        return outcome_of([&] {
            std::vector<Serie> r;
            r.push_back(s.map(ms));
            r.push_back(a.map(mas));
            r.push_back(s.filter(ps));
            double t = 0;
            f.s[SL_V].forEach([&](const Array &x, uint32_t) {
                tick();
                t += x[2];
            });
            r.push_back(s.pipe(make_map(ms), make_filter(ps)));
            return std::make_pair(r, t);
        });
    }
}
} // namespace h
