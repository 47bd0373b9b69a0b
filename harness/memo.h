// Series that are easily mistaken for each other, and functions of series (C11, C12).
#pragma once
#include "common.h"
#include <algorithm>
#include <dataframe/functional/utils/memoize.h>

namespace h {

const u64 LOOK_ALIKES = 48;
// kind selects how the series differs from the base series of the seed
inline df::Serie look_alike(u64 seed, u64 k) {
    Rng r(seed);
    static const int shapes[][2] = {{1, 6}, {2, 3}, {3, 2}, {6, 1}, {3, 4}, {1, 12}, {9, 1}, {1, 9}, {3, 3}, {1, 1}, {4, 3}, {1, 0}, {3, 0}};
    static const int large[][2] = {{35, 2}, {3, 40}, {9, 30}, {2, 36}, {70, 1}, {6, 20}, {20, 8}};
    const int *sh = shapes[r.below(13)];
    if (seed % 8 == 3) sh = large[seed / 8 % 7];
    int huge[2] = {1 + (int)(seed / 2048 % 3), (int)(sim::mix64(seed, 5) % 16 ? 61 + sim::mix64(seed, 6) % 3000 : Rng(seed).huge())};
    if (seed % 256 == 9) sh = huge;
    int is = sh[0];
    uint32_t n = (uint32_t)sh[1];
    unsigned dim = (unsigned)r.below(4);
    int vk = (int)r.below(V_KINDS);
    Array a = gen_array(r.next(), vk, (size_t)is * n);
    auto nan_with = [](u64 payload) {
        u64 b = 0x7ff8000000000000ull | payload;
        double d;
        std::memcpy(&d, &b, 8);
        return d;
    };
    if (a.size()) {
        double &x = a[r.below(a.size())], &first = a[0], &last = a.back();
        u64 kk = k % LOOK_ALIKES;
        double &y = a[r.below(a.size())];
        double base = x;
        switch (kk) {
        case 1: x = std::nextafter(base, 1e300); break;
        case 2: x = base + 1e-7; break; // the same when printed with six digits
        case 3: x = -base; break;
        case 4: x = 0.0; break;
        case 5: x = -0.0; break;
        case 6: x = nan_with(0); break;
        case 7: x = nan_with(1); break;
        case 8: x = -nan_with(0); break;
        case 9: std::swap(first, last); break;
        case 10: x = std::numeric_limits<double>::infinity(); break;
        case 11: x = base * (1 + 1e-12); break;
        case 12: last = std::nextafter(last, -1e300); break;
        case 13: first = first + 1; break;
        case 14: last = last + 1; break;
        case 15: x = std::numeric_limits<double>::denorm_min(); break;
        case 16: x = 1e300; break;
        case 17: x = std::nextafter(1e300, 2e300); break;
        case 18: a.assign(a.size(), 0.0); break;
        case 19: a.assign(a.size(), 1.0); break;
        case 32: std::swap(x, y); break;
        case 33: // the same sum
            x += 1;
            y -= 1;
            break;
        case 34: std::reverse(a.begin(), a.end()); break;
        case 35: std::rotate(a.begin(), a.begin() + std::min<size_t>((size_t)is, a.size()), a.end()); break;
        case 36: a[a.size() / 2] += 1; break;
        case 37: // the same product
            x *= 2;
            y /= 2;
            break;
        case 38:
            x = -x;
            y = -y;
            break;
        case 39: std::sort(a.begin(), a.end(), [](double p, double q) { return sim::bits(p) < sim::bits(q); }); break;
        case 40: std::swap(a[a.size() / 2], a[a.size() / 3]); break;
        default:
            if (kk > 40) {
                double &z = a[sim::mix64(seed, kk) % a.size()];
                z = std::nextafter(z, kk % 2 ? 1e308 : -1e308);
            }
            break;
        }
        switch (kk) {
        case 20: dim = dim + 1; break;
        case 21: dim = 0; break;
        case 22: // the same values as items of another size
            if (a.size() % 2 == 0) is = is == 2 ? 1 : 2;
            break;
        case 23:
            if (a.size() % 3 == 0) is = is == 3 ? 1 : 3;
            break;
        case 24: is = is == 1 ? (int)a.size() : 1; break;
        case 25: a.resize(a.size() + is, 0.0); break; // one item more
        case 26:
            if (a.size() > (size_t)is) a.resize(a.size() - is);
            break;
        case 27: dim = 100000; break;
        default: break;
        }
        if (kk >= 28 && kk < 32) { // something else altogether
            is = 1 + (int)(kk % 3);
            a = gen_array(seed + kk, V_SMALLINT, is * 2);
        }
        return df::Serie(is, a, dim);
    }
    switch (k % 8) { // empty ones
    case 0: return df::Serie(is, n, dim);
    case 1: return df::Serie(is + 1, 0, dim);
    case 2: return df::Serie(is, 0, dim + 1);
    case 3: return df::Serie();
    case 4: {
        df::Serie s;
        s.reCount(3);
        return s;
    }
    case 5: {
        df::Serie s;
        s.reCount(2);
        return s;
    }
    case 6: return df::Serie(is, Array(is, 0.0), dim);
    default: return df::Serie(1, Array{0.0}, dim);
    }
}

// what the test function gives for a series: depends on every bit of it
inline df::Serie digest(const df::Serie &s, u64 salt) {
    u64 x = salt;
    auto add = [&x](u64 v) { x = sim::mix64(x ^ v, v); };
    add(s.itemSize());
    add(s.count());
    add(s.dimension());
    for (double d : s.asArray()) add(sim::bits(d));
    if (x / 256 % 12 == 5) return df::Serie();
    int is = 1 + (int)(x % 3);
    if (x / 256 % 12 == 7) return df::Serie(is, 0, (unsigned)(x / 64 % 4));
    Array a(is * (1 + x / 8 % 3));
    for (size_t i = 0; i < a.size(); i++) a[i] = (double)(int64_t)(sim::mix64(x, i) >> 12);
    return df::Serie(is, a, (unsigned)(x / 64 % 4));
}

} // namespace h
