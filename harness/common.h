// Shared by the harnesses: series from plans, canonical form of results, outcomes, threads.
#pragma once
#include <functional>
#include <future>
#include <ios>
#include <new>
#include <optional>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include "../sim/sim.h"
#include <cmath>
#include <dataframe/Serie.h>
#include <exception>
#include <functional>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <vector>

namespace h {

using sim::Off;
using sim::Op;
using sim::Plan;
using sim::Rng;
using u64 = uint64_t;
using i64 = int64_t;

// ---------------------------------------------------------------------------------------- values
enum ValueKind { V_INDEX, V_SMALLINT, V_UNIFORM, V_NORMALISH, V_SPECIAL, V_EXTREME, V_MIXED, V_KINDS };

inline double special(u64 r) {
    switch (r % 12) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return std::numeric_limits<double>::infinity();
    case 3: return -std::numeric_limits<double>::infinity();
    case 4: return std::numeric_limits<double>::quiet_NaN();
    case 5: {
        u64 b = 0x7ff8000000000001ull + (r >> 32);
        double d;
        std::memcpy(&d, &b, 8);
        return d;
    }
    case 6: return std::numeric_limits<double>::denorm_min();
    case 7: return -std::numeric_limits<double>::denorm_min();
    case 8: return std::numeric_limits<double>::max();
    case 9: return -std::numeric_limits<double>::max();
    case 10: return std::numeric_limits<double>::min();
    default: return 1.0;
    }
}
inline double gen_value(Rng &r, int kind, size_t index) {
    switch (kind) {
    case V_INDEX: return (double)index + 1;
    case V_SMALLINT: return (double)r.range(-3, 3);
    case V_UNIFORM: return (double)(r.next() >> 11) * 0x1p-53 * 20 - 10;
    case V_NORMALISH: {
        double s = 0;
        for (int i = 0; i < 4; i++) s += (double)(r.next() >> 11) * 0x1p-53 - 0.5;
        return s * 3;
    }
    case V_SPECIAL: return special(r.next());
    case V_EXTREME: return std::ldexp((double)(r.next() >> 11) * 0x1p-53 - 0.5, (int)r.range(-1000, 1000));
    default: return gen_value(r, (int)r.below(V_MIXED), index);
    }
}
inline Array gen_array(u64 seed, int kind, size_t n) {
    Rng r(seed * 31 + kind);
    Array a(n);
    for (size_t i = 0; i < n; i++) a[i] = gen_value(r, kind, i);
    return a;
}
inline df::Serie make_serie(int itemSize, uint32_t count, unsigned dim, int kind, u64 seed) {
    return df::Serie(itemSize, gen_array(seed, kind, (size_t)itemSize * count), dim);
}

// ---------------------------------------------------------------------------------------- canonical form
using Words = std::vector<u64>;

inline void put(Words &w, double d) { w.push_back(sim::bits(d)); }
inline void put(Words &w, u64 v) { w.push_back(v); }
inline void put(Words &w, uint32_t v) { w.push_back(v); }
inline void put(Words &w, int v) { w.push_back((u64)(i64)v); }
inline void put(Words &w, bool v) { w.push_back(v); }
inline void put(Words &w, const std::string &s) {
    w.push_back(s.size());
    u64 x = 0;
    for (size_t i = 0; i < s.size(); i++) {
        x = x << 8 | (unsigned char)s[i];
        if (i % 8 == 7) {
            w.push_back(x);
            x = 0;
        }
    }
    if (s.size() % 8) w.push_back(x);
}
inline void put(Words &w, const df::Serie &s) {
    w.push_back(0x5e41e);
    w.push_back((u64)s.itemSize());
    w.push_back(s.count());
    w.push_back(s.dimension());
    w.push_back(s.asArray().size());
    for (double d : s.asArray()) put(w, d);
}
template <class T> void put(Words &w, const std::vector<T> &v);
template <class A, class B> void put(Words &w, const std::pair<A, B> &p);
template <class... T> void put(Words &w, const std::tuple<T...> &t) {
    std::apply([&](const auto &...x) { (put(w, x), ...); }, t);
}
template <class A, class B> void put(Words &w, const std::pair<A, B> &p) {
    put(w, p.first);
    put(w, p.second);
}
template <class T> void put(Words &w, const std::vector<T> &v) {
    w.push_back(v.size());
    for (const auto &x : v) put(w, x);
}
template <> inline void put(Words &w, const std::vector<bool> &v) {
    w.push_back(v.size());
    for (bool x : v) w.push_back(x);
}
template <class T> Words words(const T &x) {
    Words w;
    put(w, x);
    return w;
}
inline u64 hash_words(const Words &w) {
    u64 x = 0xcbf29ce484222325ull;
    for (u64 v : w) x = (x ^ v) * 0x100000001b3ull, x ^= x >> 31;
    return x;
}
inline std::string show(const Words &w, size_t max = 14) {
    std::string s = "[";
    char b[40];
    for (size_t i = 0; i < w.size() && i < max; i++) {
        double d;
        std::memcpy(&d, &w[i], 8);
        if (w[i] < 1000000)
            snprintf(b, sizeof b, "%s%llu", i ? " " : "", (unsigned long long)w[i]);
        else
            snprintf(b, sizeof b, "%s%.17g", i ? " " : "", d);
        s += b;
    }
    if (w.size() > max) s += " ...";
    return s + "] (" + std::to_string(w.size()) + " words)";
}
inline std::string first_diff(const Words &a, const Words &b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    char t[120];
    double x = 0, y = 0;
    if (i < a.size()) std::memcpy(&x, &a[i], 8);
    if (i < b.size()) std::memcpy(&y, &b[i], 8);
    snprintf(t, sizeof t, " first difference at word %zu: %.17g (0x%llx) / %.17g (0x%llx)", i, x, i < a.size() ? (unsigned long long)a[i] : 0ull, y,
             i < b.size() ? (unsigned long long)b[i] : 0ull);
    return t;
}

// plain data of a series (its own storage, independent of Serie's code)
struct Model {
    u64 itemSize = 0, count = 0, dim = 3;
    Array v;
    bool operator==(const Model &o) const {
        if (itemSize != o.itemSize || count != o.count || dim != o.dim || v.size() != o.v.size()) return false;
        for (size_t i = 0; i < v.size(); i++)
            if (sim::bits(v[i]) != sim::bits(o.v[i])) return false;
        return true;
    }
    std::string str() const {
        std::string s = "itemSize " + std::to_string(itemSize) + " count " + std::to_string(count) + " dimension " + std::to_string(dim) + " values";
        char b[32];
        for (size_t i = 0; i < v.size() && i < 8; i++) {
            snprintf(b, sizeof b, " %.9g", v[i]);
            s += b;
        }
        if (v.size() > 8) s += " ...";
        return s + " (" + std::to_string(v.size()) + ")";
    }
};
inline Model model_of(const df::Serie &s) {
    Model m;
    m.itemSize = s.itemSize();
    m.count = s.count();
    m.dim = s.dimension();
    const Array &a = s.asArray();
    m.v.assign(a.begin(), a.end());
    return m;
}

// ---------------------------------------------------------------------------------------- outcomes
struct Outcome {
    bool ok = false;
    Words w;             // result
    std::string type;    // exception type
    std::string what;    // std::exception text
    i64 ival = 0;        // thrown integer payload
    bool oom = false;
    bool operator==(const Outcome &o) const {
        if (ok != o.ok) return false;
        return ok ? w == o.w : type == o.type && what == o.what && ival == o.ival;
    }
    std::string str() const { return ok ? "result " + show(w) : "exception " + type + " '" + what + "'"; }
    u64 hash() const { return ok ? hash_words(w) : hash_words(words(type + what)) + 1; }
};
// Thrown by harness callbacks: not derived from std::exception
struct Thrown {
    i64 id;
};
struct StdThrown : std::runtime_error {
    i64 id;
    explicit StdThrown(i64 i) : std::runtime_error("callback failure " + std::to_string(i)), id(i) {}
};
// to be called inside catch (...)
inline Outcome current_exception_outcome() {
    Outcome o;
    Off off;
    try {
        throw;
    } catch (const Thrown &t) {
        o.type = "Thrown";
        o.ival = t.id;
    } catch (const StdThrown &t) {
        o.type = "StdThrown";
        o.what = t.what();
        o.ival = t.id;
    } catch (int i) {
        o.type = "int";
        o.ival = i;
    } catch (const char *t) {
        o.type = "text";
        o.what = t;
    } catch (const std::bad_alloc &e) {
        o.type = typeid(e).name();
        o.oom = true;
    } catch (const std::exception &e) {
        o.type = typeid(e).name();
        o.what = e.what();
    } catch (...) {
        o.type = "unknown";
    }
    return o;
}
// what a callback may throw; code that gives one of these a meaning of its own must not mistake a callback's for it
enum { ANY_KINDS = 20 };
[[noreturn]] inline void throw_any(u64 kind, i64 n) {
    char t[48];
    snprintf(t, sizeof t, "callback failure %lld", (long long)n);
    switch (kind % ANY_KINDS) {
    case 0: throw StdThrown(n);
    case 1: throw Thrown{n};
    case 2: throw (int)n;
    case 3: throw std::bad_alloc();
    case 4: throw std::invalid_argument(t);
    case 5: throw std::out_of_range(t);
    case 6: throw std::bad_function_call();
    case 7: throw std::length_error(t);
    case 8: throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again), t);
    case 9: throw std::logic_error(t);
    case 10: throw std::runtime_error(t);
    case 11: throw std::overflow_error(t);
    case 12: throw std::bad_cast();
    case 13: throw std::bad_optional_access();
    case 14: throw std::domain_error("");
    case 15: throw std::future_error(std::future_errc::broken_promise);
    case 16: throw std::ios_base::failure(t);
    case 17: throw std::bad_array_new_length();
    case 18: throw std::exception();
    default: throw std::range_error(t);
    }
}
inline Outcome any_outcome(u64 kind, i64 n) {
    Off off;
    try {
        throw_any(kind, n);
    } catch (...) {
        return current_exception_outcome();
    }
}
// run f (a real call into the library) and put its result or exception into canonical form
template <class F> Outcome outcome_of(F &&f) {
    Outcome o;
    try {
        auto r = f();
        Off off;
        o.ok = true;
        o.w = words(r);
    } catch (...) {
        o = current_exception_outcome();
    }
    return o;
}

// The same in a copy of the process in which nothing else has run: exactly what the call does alone.
struct Sink {
    u64 *p;
    size_t n, cap;
    void word(u64 v) {
        if (n < cap) p[n] = v;
        n++;
    }
    void str(const std::string &s) {
        word(s.size());
        for (unsigned char c : s) word(c);
    }
};
template <class F> size_t isolated_body(void *a, uint64_t *out, size_t cap) { // F returns an Outcome
    Outcome o = (*(F *)a)();
    Off off;
    Sink k{out, 0, cap};
    k.word(o.ok);
    k.word(o.oom);
    k.word((u64)o.ival);
    k.str(o.type);
    k.str(o.what);
    k.word(o.w.size());
    for (u64 v : o.w) k.word(v);
    return k.n <= cap ? k.n : 0;
}
// false: the result was too large to bring back
template <class F> bool isolated_outcome(F &&f, Outcome &o) {
    const uint64_t *p;
    size_t n = sim::isolated(isolated_body<std::remove_reference_t<F>>, (void *)&f, &p);
    Off off;
    if (!n) return false;
    auto str = [&p] {
        std::string s(*p++, ' ');
        for (char &c : s) c = (char)*p++;
        return s;
    };
    o.ok = *p++;
    o.oom = *p++;
    o.ival = (i64)*p++;
    o.type = str();
    o.what = str();
    size_t w = *p++;
    o.w.assign(p, p + w);
    return true;
}

// ---------------------------------------------------------------------------------------- threads
// Run body(0..n-1), each on its own std::thread (n > 1) or on the calling thread (n == 1).
template <class F> void on_threads(int n, F body) {
    if (n <= 1) {
        body(0);
        return;
    }
    std::vector<std::thread> t;
    t.reserve(n);
    for (int i = 0; i < n; i++) t.emplace_back([&body, i] { body(i); });
    for (auto &x : t) x.join();
}

inline void check_same(const char *cls, const char *what, const Outcome &expected, const Outcome &got) {
    Off off;
    if (!(expected == got))
        sim::violation(cls, "%s: expected %s, got %s%s", what, expected.str().c_str(), got.str().c_str(),
                       expected.ok && got.ok ? first_diff(expected.w, got.w).c_str() : "");
    sim::log(got.hash());
}

} // namespace h
