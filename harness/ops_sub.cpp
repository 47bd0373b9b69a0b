#include "ops.h"
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/math/sub.h>

namespace h {
using namespace df;
Outcome sub_op(int which, u64 v, const Family &f) {
    const Serie &a = f.s[SL_A], &b = v % 16 == 15 ? f.s[SL_O] : v % 16 == 14 ? f.s[SL_V] : f.s[SL_B];
    switch (which) {
    case 0: return outcome_of([&] { return math::sub(a, b); });
    case 1:
        if (v & 64) return outcome_of([&] { return math::sub({a, b, a}); });
        return outcome_of([&] { return math::sub({a, b}); });
    case 3: {
        const Serie &y = f.s[(v >> 16) % SL_COUNT], &z = f.s[(v >> 24) % SL_COUNT];
        if (v & 1) return outcome_of([&] { return math::sub(y, small_number(v)); });
        if (v & 2) return outcome_of([&] { return math::sub({y, z, a}); });
        return outcome_of([&] { return math::sub(y, z); });
    }
    default: return outcome_of([&] { return math::sub(v % 16 == 15 ? f.s[SL_V] : f.s[SL_S], small_number(v)); });
    }
}
Outcome det_op(const Serie &s) {
    return outcome_of([&] { return algebra::det(s); });
}
} // namespace h
