// C17: callbacks see each item exactly once, in order, and may stop by throwing.
#include "common.h"
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/reject.h>
using namespace h;
using namespace df;

namespace {

enum { O_SERIES, O_CALL };
enum { P_DONE, P_THROW, P_MISMATCH, P_EMPTY, P_OOM, P_FOUND, P_NOTFOUND, P_THREADS, P_NESTED, P_SEVERAL, P_ITEMSIZE, P_LARGE, P_NESTED_THROW, P_AFTER };
enum {
    T_EACH_S, T_EACH_A, T_EACH_G, T_EACH_2, T_EACH_3, T_EACH_MEMBER, T_EACH_MADE, T_MAP_SS, T_MAP_SI, T_MAP_SA, T_MAP_AS, T_MAP_AA, T_MAP_2S, T_MAP_3A, T_MAP_MEMBER, T_MAP_MADE, T_APPLY, T_APPLY_2, T_REDUCE_S, T_REDUCE_A,
    T_REDUCE_MADE, T_FILTER_S, T_FILTER_A, T_FILTER_2, T_FILTER_3, T_FILTER_MEMBER, T_FILTER_MADE, T_FILTERALL, T_REJECT_S, T_REJECT_A, T_REJECT_2, T_REJECT_MADE, T_REJECTALL, T_CUT_S, T_CUT_A, T_PARTITION_S, T_PARTITION_A, T_CHECK_S, T_CHECK_A,
    T_FIND_S, T_FIND_A, T_FIND_MADE, T_FINDALL_S, T_FINDALL_A, T_FINDALL_MADE, T_COUNT
};
static const char *const tnames[] = {"forEach scalar", "forEach array", "forEach generic", "forEach of two", "forEach of three", "member forEach", "made forEach", "map scalar to scalar", "map scalar to integer", "map scalar to array", "map array to scalar", "map array to array", "map of two to scalar",
                                     "map of three to array", "member map", "made map", "apply", "apply to two", "reduce scalar", "reduce array", "made reduce", "filter scalar", "filter array", "filter of two", "filter of three", "member filter", "made filter", "filterAll", "reject scalar",
                                     "reject array", "reject of two", "made reject", "rejectAll", "cut scalar", "cut array", "partition scalar", "partition array", "check scalar", "check array", "find scalar", "find array", "made find", "findAll scalar", "findAll array", "made findAll"};
static_assert(sizeof tnames / sizeof *tnames == T_COUNT);
enum { KIND_SCALAR = 1, KIND_ARRAY = 2, KIND_MULTI = 4 };
int series_of(int t) {
    switch (t) {
    case T_EACH_2: case T_MAP_2S: case T_APPLY_2: case T_FILTER_2: case T_FILTERALL: case T_REJECT_2: case T_REJECTALL: return 2;
    case T_EACH_3: case T_MAP_3A: case T_FILTER_3: return 3;
    default: return 1;
    }
}
bool scalar_callback(int t) {
    switch (t) {
    case T_EACH_S: case T_EACH_MADE: case T_MAP_SS: case T_MAP_SI: case T_MAP_SA: case T_MAP_MEMBER: case T_MAP_MADE: case T_REDUCE_S: case T_REDUCE_MADE: case T_FILTER_S: case T_FILTER_MADE: case T_REJECT_S: case T_REJECT_MADE:
    case T_CUT_S: case T_PARTITION_S: case T_CHECK_S: case T_FIND_S: case T_FIND_MADE: case T_FINDALL_S: case T_FINDALL_MADE: return true;
    default: return false;
    }
}
// the traversal refuses series of the wrong item size for its callback
bool refuses(int t) { return t == T_EACH_S || t == T_EACH_A || t == T_EACH_MEMBER || t == T_EACH_MADE || t == T_PARTITION_S || t == T_FIND_S || t == T_FIND_A || t == T_FIND_MADE; }

const int POOL = 6; // shared series: 0,1 scalars; 2,3 arrays; 4 of another count; 5 array of one
void gen(Rng &r, Plan &p) {
    static const int isz[] = {2, 3, 3, 6, 9};
    bool huge = r.rare(500);
    if (huge) p.scale = 30;
    u64 n = huge ? r.huge() : r.chance(12) ? 0 : 1 + r.small(r.chance(8) ? 300 : r.chance(2) ? 2500 : 12);
    p.add(O_SERIES, {(i64)n, isz[r.below(5)], isz[r.below(5)], (i64)r.below(V_KINDS), (i64)(r.next() >> 1), r.chance(50) ? (i64)r.below(14) : (i64)n + 1});
    int nt = huge || r.chance(65) ? 1 : 2 + r.below(2);
    int k = huge ? 1 : nt + r.below(r.chance(20) ? 20 : 7);
    for (int i = 0; i < k; i++) {
        i64 t = (i64)r.below(T_COUNT);
        p.add(O_CALL, {i < nt ? (i64)i : (i64)r.below(nt), t, (i64)(r.next() >> 1), r.chance(45) ? 1 + (i64)r.below(r.chance(50) ? 5 : ANY_KINDS) : 0, r.chance(50) ? r.small(12) : (i64)(r.next() >> 44), r.chance(15) ? 1 + (i64)r.below(40) : 0, r.chance(20) ? 1 + (r.chance(40) ? t : (i64)r.below(T_COUNT)) : 0, (i64)r.below(3), (i64)r.below(10)});
    }
}

// what one traversal did
struct Rec {
    std::vector<i64> idx;
    std::vector<Words> val;
    bool foreign = false; // called from another thread
    int me = 0;
    i64 throw_at = -1;
    int kind = 0;
    bool thrown = false;
    u64 salt = 0;
    int yields = 0;
    std::function<void(u64)> nested;
    // the decisions and values a callback gives are functions of what it is called with
    static u64 key(u64 salt, i64 i, const Words &w) { return sim::mix64(hash_words(w) ^ salt, (u64)i); }
    u64 hit(i64 i, std::initializer_list<const Array *> v) {
        u64 k, n;
        bool boom, nest;
        {
            Off off;
            Words w;
            for (auto a : v) {
                put(w, (u64)a->size());
                for (double d : *a) put(w, d);
            }
            if (sim::self() != me) foreign = true;
            n = idx.size();
            idx.push_back(i);
            k = key(salt, i, w);
            val.push_back(std::move(w));
            boom = (i64)n == throw_at;
            if (boom) {
                thrown = true;
                sim::fired(sim::F_CALLBACK);
            }
            nest = nested && n < 4;
            if (nest) sim::fired(sim::F_REENTRY);
        }
        if (yields && n % (u64)(yields + 1) == 0) sim::yield_point();
        if (nest) nested(n);
        if (boom) throw_any((u64)kind - 1, (i64)n);
        return k;
    }
    u64 hit(i64 i, double x) {
        Words w;
        Array a;
        {
            Off off;
            a.assign(1, x);
        }
        u64 k;
        try {
            k = hit(i, {&a});
        } catch (...) {
            Off off;
            Array().swap(a);
            throw;
        }
        Off off;
        Array().swap(a);
        return k;
    }
};
double number(u64 k) { return (double)(i64)(k >> 40) - 1000; }
Array numbers(u64 k, size_t n) {
    Array a(n);
    for (size_t i = 0; i < n; i++) a[i] = number(sim::mix64(k, i));
    return a;
}
bool decide(u64 k, int often) { return often == 0 ? k % 2 : often == 1 ? k % 4 == 0 : often == 2 ? k % 8 == 0 : often == 3 ? true : often == 4 ? false : k % 3 == 0; }

// results without the dimension
struct Flat {
    Words w;
};
void flat(Words &w, const Serie &s) {
    if (s.count()) put(w, (u64)s.itemSize());
    put(w, (u64)s.count());
    for (double d : s.asArray()) put(w, d);
}
void flat(Words &w, double d) { put(w, d); }
void flat(Words &w, const Series &v) {
    for (auto &s : v) flat(w, s);
}
template <class... T> void flat(Words &w, const std::tuple<T...> &t) {
    std::apply([&](const auto &...x) { (flat(w, x), ...); }, t);
}
void flat(Words &w, const FindResult<double> &r) {
    put(w, (u64)r.found);
    if (r.found) {
        put(w, r.value);
        put(w, (u64)r.index);
    }
}
void flat(Words &w, const FindResult<Array> &r) {
    put(w, (u64)r.found);
    if (r.found) {
        for (double d : r.value) put(w, d);
        put(w, (u64)r.index);
    }
}
struct Nothing {};
void flat(Words &, Nothing) {}

struct CallPlan {
    int thread, t, kind, yields, often, nested;
    u64 v;
    i64 throw_at;
    i64 falloc;
    int s[3] = {0, 0, 0};
};

template <class F> Outcome run(F f) {
    Outcome o;
    try {
        auto r = f();
        Off off;
        flat(o.w, r);
        o.ok = true;
    } catch (...) {
        o = current_exception_outcome();
    }
    return o;
}

Outcome traverse(const CallPlan &c, const Serie *pool, Rec &rec) {
    const Serie &a = pool[c.s[0]], &b = pool[c.s[1]], &d = pool[c.s[2]];
    const int often = c.often;
    auto vs = [&rec](double x, uint32_t i) { rec.hit(i, x); };
    auto va = [&rec](const Array &x, uint32_t i) { rec.hit(i, {&x}); };
    auto vg = [&rec](const auto &x, uint32_t i) {
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>)
            rec.hit(i, x);
        else
            rec.hit(i, {&x});
    };
    auto ps = [&rec, often](double x, uint32_t i) -> bool { return decide(rec.hit(i, x), often); };
    auto pa = [&rec, often](const Array &x, uint32_t i) -> bool { return decide(rec.hit(i, {&x}), often); };
    auto p2 = [&rec, often](const Array &x, const Array &y, uint32_t i) -> bool { return decide(rec.hit(i, {&x, &y}), often); };
    auto p3 = [&rec, often](const Array &x, const Array &y, const Array &z, uint32_t i) -> bool { return decide(rec.hit(i, {&x, &y, &z}), often); };
    auto pall = [&rec, often](const Array &x, const Array &y) -> bool { return decide(rec.hit(-1, {&x, &y}), often); };
    auto ms = [&rec](double x, uint32_t i) -> double { return number(rec.hit(i, x)); };
    auto mi = [&rec](double x, uint32_t i) -> int { return (int)number(rec.hit(i, x)); };
    auto msa = [&rec](double x, uint32_t i) -> Array { return numbers(rec.hit(i, x), 3); };
    auto mas = [&rec](const Array &x, uint32_t i) -> double { return number(rec.hit(i, {&x})); };
    auto maa = [&rec](const Array &x, uint32_t i) -> Array { return numbers(rec.hit(i, {&x}), 2); };
    auto m2s = [&rec](const Array &x, const Array &y, uint32_t i) -> double { return number(rec.hit(i, {&x, &y})); };
    auto m3a = [&rec](const Array &x, const Array &y, const Array &z, uint32_t i) -> Array { return numbers(rec.hit(i, {&x, &y, &z}), 4); };
    auto rs = [&rec](double acc, double x, uint32_t i) -> double { return acc * 0.5 + number(rec.hit(i, x)); };
    auto ra = [&rec](const Array &acc, const Array &x, uint32_t i) -> Array {
        Array r = acc;
        u64 k = rec.hit(i, {&x});
        for (size_t j = 0; j < r.size(); j++) r[j] = r[j] * 0.5 + number(sim::mix64(k, j));
        return r;
    };
    auto none = [](auto f) {
        return [f] {
            f();
            return Nothing();
        };
    };
    switch (c.t) {
    case T_EACH_S: return run(none([&] { forEach(vs, a); }));
    case T_EACH_A: return run(none([&] { forEach(va, a); }));
    case T_EACH_G: return run(none([&] { forEach(vg, a); }));
    case T_EACH_2: return run(none([&] { forEach([&rec](const Array &x, const Array &y, uint32_t i) { rec.hit(i, {&x, &y}); }, a, b); }));
    case T_EACH_3: return run(none([&] { forEach([&rec](const Array &x, const Array &y, const Array &z, uint32_t i) { rec.hit(i, {&x, &y, &z}); }, a, b, d); }));
    case T_EACH_MEMBER: return run(none([&] { a.forEach(va); }));
    case T_EACH_MADE: return run(none([&] {
        auto f = make_forEach(vs);
        f(a);
    }));
    case T_MAP_SS: return run([&] { return df::map(ms, a); });
    case T_MAP_SI: return run([&] { return df::map(mi, a); });
    case T_MAP_SA: return run([&] { return df::map(msa, a); });
    case T_MAP_AS: return run([&] { return df::map(mas, a); });
    case T_MAP_AA: return run([&] { return df::map(maa, a); });
    case T_MAP_2S: return run([&] { return df::map(m2s, a, b); });
    case T_MAP_3A: return run([&] { return df::map(m3a, a, b, d); });
    case T_MAP_MEMBER: return run([&] { return a.map(ms); });
    case T_MAP_MADE: return run([&] { return make_map(ms)(a); });
    case T_APPLY: return run([&] { return utils::apply(maa, a); });
    case T_APPLY_2: return run([&] { return utils::apply(m2s, a, b); });
    case T_REDUCE_S: return run([&] { return reduce(rs, a, 7.0); });
    case T_REDUCE_A: return run([&] { return reduce(ra, a, Array{1, 2, 3}); });
    case T_REDUCE_MADE: return run([&] { return make_reduce(rs, 7.0)(a); });
    case T_FILTER_S: return run([&] { return filter(ps, a); });
    case T_FILTER_A: return run([&] { return filter(pa, a); });
    case T_FILTER_2: return run([&] { return filter(p2, a, b); });
    case T_FILTER_3: return run([&] { return filter(p3, a, b, d); });
    case T_FILTER_MEMBER: return run([&] { return a.filter(pa); });
    case T_FILTER_MADE: return run([&] { return make_filter(ps)(a); });
    case T_FILTERALL: return run([&] { return filterAll(pall, a, b); });
    case T_REJECT_S: return run([&] { return utils::reject(ps, a); });
    case T_REJECT_A: return run([&] { return utils::reject(pa, a); });
    case T_REJECT_2: return run([&] { return utils::reject(p2, a, b); });
    case T_REJECT_MADE: return run([&] { return utils::make_reject(ps)(a); });
    case T_REJECTALL: return run([&] { return utils::rejectAll(pall, a, b); });
    case T_CUT_S: return run([&] { return utils::cut(ps, a); });
    case T_CUT_A: return run([&] { return utils::cut(pa, a); });
    case T_PARTITION_S: return run([&] { return utils::partition(ps, a); });
    case T_PARTITION_A: return run([&] { return utils::partition(pa, a); });
    case T_CHECK_S: return run([&] { return cond::check(a, ps); });
    case T_CHECK_A: return run([&] { return cond::check(a, pa); });
    case T_FIND_S: return run([&] { return find(ps, a); });
    case T_FIND_A: return run([&] { return find(pa, a); });
    case T_FIND_MADE: return run([&] { return makeFind(ps)(a); });
    case T_FINDALL_S: return run([&] { return findAll(ps, a); });
    case T_FINDALL_A: return run([&] { return findAll(pa, a); });
    default: return run([&] { return makeFindAll(ps)(a); });
    }
}

// What should happen: the calls and the result, from plain arrays
struct Want {
    bool refused = false;
    std::vector<i64> idx;
    std::vector<Words> val;
    Words result;
};
Want expected(const CallPlan &c, const std::vector<Model> &pool, u64 salt) {
    Want w;
    int n = series_of(c.t);
    const Model *m[3] = {&pool[c.s[0]], &pool[c.s[1]], &pool[c.s[2]]};
    for (int i = 1; i < n; i++)
        if (m[i]->count != m[0]->count) w.refused = true;
    if (refuses(c.t)) w.refused |= scalar_callback(c.t) ? m[0]->itemSize != 1 : m[0]->itemSize == 1;
    if (w.refused) return w;
    auto item = [&](const Model &s, u64 i) { return Array(s.v.begin() + i * s.itemSize, s.v.begin() + (i + 1) * s.itemSize); };
    std::vector<u64> keys, yes, no;
    bool all = c.t == T_FILTERALL || c.t == T_REJECTALL, find = c.t == T_FIND_S || c.t == T_FIND_A || c.t == T_FIND_MADE;
    for (u64 i = 0; i < m[0]->count; i++) {
        Words x;
        for (int k = 0; k < n; k++) {
            Array v = item(*m[k], i);
            put(x, (u64)v.size());
            for (double d : v) put(x, d);
        }
        w.idx.push_back(all ? -1 : (i64)i);
        u64 k = Rec::key(salt, w.idx.back(), x);
        w.val.push_back(std::move(x));
        keys.push_back(k);
        (decide(k, c.often) ? yes : no).push_back(i);
        if (find && decide(k, c.often)) break;
    }
    auto some = [&](const Model &s, const std::vector<u64> &which) {
        Array v;
        for (u64 i : which) {
            Array x = item(s, i);
            v.insert(v.end(), x.begin(), x.end());
        }
        flat(w.result, Serie((int)s.itemSize, v));
    };
    auto mapped = [&](size_t size) {
        Array v;
        for (u64 k : keys) {
            if (!size)
                v.push_back(number(k));
            else
                for (double d : numbers(k, size)) v.push_back(d);
        }
        flat(w.result, Serie(size ? (int)size : 1, v));
    };
    switch (c.t) {
    case T_MAP_SS: case T_MAP_AS: case T_MAP_2S: case T_MAP_MEMBER: case T_MAP_MADE: case T_APPLY_2: case T_MAP_SI: mapped(0); break;
    case T_MAP_SA: mapped(3); break;
    case T_MAP_AA: case T_APPLY: mapped(2); break;
    case T_MAP_3A: mapped(4); break;
    case T_REDUCE_S:
    case T_REDUCE_MADE: {
        double r = 7;
        for (u64 k : keys) r = r * 0.5 + number(k);
        put(w.result, r);
        break;
    }
    case T_REDUCE_A: {
        Array r{1, 2, 3};
        for (u64 k : keys)
            for (size_t j = 0; j < 3; j++) r[j] = r[j] * 0.5 + number(sim::mix64(k, j));
        flat(w.result, Serie(3, r));
        break;
    }
    case T_FILTER_S: case T_FILTER_A: case T_FILTER_MEMBER: case T_FILTER_MADE: case T_CUT_S: case T_CUT_A: case T_FINDALL_S: case T_FINDALL_A: case T_FINDALL_MADE: some(*m[0], yes); break;
    case T_FILTER_2: case T_FILTERALL: case T_FILTER_3:
        for (int k = 0; k < n; k++) some(*m[k], yes);
        break;
    case T_REJECT_S: case T_REJECT_A: case T_REJECT_MADE: some(*m[0], no); break;
    case T_REJECT_2: case T_REJECTALL:
        for (int k = 0; k < n; k++) some(*m[k], no);
        break;
    case T_PARTITION_S: case T_PARTITION_A:
        some(*m[0], yes);
        some(*m[0], no);
        break;
    case T_CHECK_S: case T_CHECK_A: {
        Array v;
        for (u64 k : keys) v.push_back(decide(k, c.often) ? 1 : 0);
        flat(w.result, Serie(1, v));
        break;
    }
    case T_FIND_S: case T_FIND_A: case T_FIND_MADE:
        put(w.result, (u64)yes.size());
        if (yes.size()) {
            for (double d : item(*m[0], yes[0])) put(w.result, d);
            put(w.result, (u64)yes[0]);
        }
        break;
    default: break;
    }
    return w;
}

void pick_series(CallPlan &c, const std::vector<Model> &pool) {
    u64 v = c.v;
    for (int k = 0; k < 3; k++) {
        int s;
        if (scalar_callback(c.t))
            s = v % 16 == 15 && refuses(c.t) ? 2 + (int)(v / 16 % 2) : (int)(v / 32 % 2);
        else if (v % 16 == 15)
            s = (int)(v / 64 % 2); // scalars given as arrays
        else
            s = (int)(v / 64 % (u64)(series_of(c.t) > 1 ? 6 : 4));
        if (series_of(c.t) == 1 && v % 64 == 62 && !scalar_callback(c.t)) s = 5;
        if (series_of(c.t) > 1 && s == 4 && v % 8 > 2) s = 3; // mismatches now and then
        if (series_of(c.t) > 1 && s == 5 && v % 8 > 1) s = 2;
        c.s[k] = s;
        v = sim::mix64(v, k);
    }
}

void check(const CallPlan &c, const Rec &rec, const Want &w, const Outcome &o, u64 fired, const char *how) {
    std::string what = std::string(tnames[c.t]) + how;
    const char *n = what.c_str();
    if (rec.foreign) sim::violation("wrong-thread", "%s: the callback was called from another thread", n);
    size_t lim = rec.idx.size();
    for (size_t i = 0; i < lim; i++) {
        if (i >= w.idx.size()) sim::violation(w.refused ? "called-although-refused" : "extra-call", "%s: call %zu with index %lld, %zu items", n, i, (long long)rec.idx[i], w.idx.size());
        if (rec.idx[i] != w.idx[i]) sim::violation("wrong-order", "%s: call %zu has index %lld instead of %lld", n, i, (long long)rec.idx[i], (long long)w.idx[i]);
        if (rec.val[i] != w.val[i]) sim::violation("wrong-item", "%s: at index %lld the callback got %s, the item is %s", n, (long long)w.idx[i], show(rec.val[i]).c_str(), show(w.val[i]).c_str());
    }
    if (rec.thrown) {
        if (rec.idx.size() != (size_t)rec.throw_at + 1) sim::violation("visited-after-throw", "%s: %zu calls, although call %lld threw", n, rec.idx.size(), (long long)rec.throw_at);
        Outcome e = any_outcome((u64)rec.kind - 1, rec.throw_at);
        if (!(o == e)) sim::violation(o.ok ? "failure-hidden" : "wrong-exception", "%s: the callback threw %s, the caller got %s", n, e.str().c_str(), o.str().c_str());
        sim::probe(P_THROW);
        return;
    }
    if (!o.ok && o.oom && fired) {
        sim::probe(P_OOM);
        return;
    }
    if (w.refused) {
        if (o.ok) sim::violation("not-refused", "%s: series that do not fit were accepted", n);
        sim::probe(series_of(c.t) > 1 ? P_MISMATCH : P_ITEMSIZE);
        return;
    }
    if (!o.ok) sim::violation("unexpected-exception", "%s: %s", n, o.str().c_str());
    if (rec.idx.size() != w.idx.size()) sim::violation("missing-call", "%s: %zu calls instead of %zu", n, rec.idx.size(), w.idx.size());
    if (o.w != w.result) sim::violation("wrong-result", "%s: gives %s, the callback's answers make %s", n, show(o.w).c_str(), show(w.result).c_str());
    sim::probe(P_DONE);
    if (c.t >= T_FIND_S && c.t <= T_FIND_MADE) sim::probe(w.result.size() > 1 ? P_FOUND : P_NOTFOUND);
}

void exec(const Plan &p) {
    std::vector<Serie> pool;
    std::vector<Model> pm;
    std::vector<CallPlan> calls;
    int nt = 1;
    {
        Off off;
        uint32_t n = 4, n2 = 5;
        int is1 = 3, is2 = 2, vk = V_UNIFORM;
        u64 seed = 1;
        for (const auto &o : p.ops)
            if (o.kind == O_SERIES) {
                n = (uint32_t)o.mod(0, 80000);
                is1 = 2 + (int)o.mod(1, 9);
                is2 = 2 + (int)o.mod(2, 9);
                if (o.at(1) >= 2 && o.at(1) < 11) is1 = (int)o.at(1);
                if (o.at(2) >= 2 && o.at(2) < 11) is2 = (int)o.at(2);
                vk = (int)o.mod(3, V_KINDS);
                seed = (u64)o.at(4);
                n2 = (uint32_t)o.mod(5, 80001);
            }
        pool.push_back(make_serie(1, n, 3, vk, seed));
        pool.push_back(make_serie(1, n, 2, V_INDEX, seed + 1));
        pool.push_back(make_serie(is1, n, 3, vk, seed + 2));
        pool.push_back(make_serie(is2, n, 1, V_SMALLINT, seed + 3));
        pool.push_back(make_serie(is1, n2, 3, vk, seed + 4));
        pool.push_back(make_serie(is2, 1, 3, vk, seed + 5));
        for (auto &s : pool) pm.push_back(model_of(s));
        if (!n) sim::probe(P_EMPTY);
        if (n > 100) sim::probe(P_LARGE);
        for (const auto &o : p.ops)
            if (o.kind == O_CALL) {
                CallPlan c;
                c.thread = (int)o.mod(0, 3);
                c.t = (int)o.mod(1, T_COUNT);
                c.v = (u64)o.at(2);
                c.kind = (int)o.mod(3, 1 + ANY_KINDS);
                c.throw_at = (i64)o.mod(4, n > 12 && o.at(4) > 12 ? n + 2 : 14);
                c.falloc = (i64)o.mod(5, 64);
                c.nested = (int)o.mod(6, T_COUNT + 1);
                c.yields = (int)o.mod(7, 3);
                c.often = (int)o.mod(8, 6);
                pick_series(c, pm);
                nt = std::max(nt, c.thread + 1);
                calls.push_back(c);
            }
        if (nt > 1) sim::probe(P_THREADS);
    }
    on_threads(nt, [&](int t) {
        for (const auto &c : calls) {
            if (c.thread != t) continue;
            for (int pass = 0; pass < 2; pass++) { // with the fault, and without
                if (pass == 1 && !c.kind && !c.falloc) break;
                std::unique_ptr<Rec> rec;
                Want w;
                {
                    Off off;
                    rec = std::make_unique<Rec>();
                    rec->me = sim::self();
                    rec->salt = c.v ^ 0x55;
                    rec->yields = c.yields;
                    if (pass == 0 && c.kind) {
                        rec->kind = c.kind;
                        rec->throw_at = c.throw_at;
                    }
                    w = expected(c, pm, rec->salt);
                    if (series_of(c.t) > 1) sim::probe(P_SEVERAL);
                    if (c.nested) { // the callback itself traverses the same series
                        rec->nested = [&, pass](u64 n) {
                            CallPlan in;
                            std::unique_ptr<Rec> r2;
                            Want w2;
                            {
                                Off off;
                                in = c;
                                in.t = c.nested - 1;
                                in.v = sim::mix64(c.v, n);
                                pick_series(in, pm);
                                r2 = std::make_unique<Rec>();
                                r2->me = sim::self();
                                r2->salt = in.v;
                                if (pass == 0 && c.kind && (in.v & 1)) { // fails inside, is caught there
                                    r2->kind = c.kind;
                                    r2->throw_at = (i64)(in.v / 2 % 5);
                                }
                                w2 = expected(in, pm, r2->salt);
                            }
                            Outcome o = traverse(in, pool.data(), *r2);
                            Off off;
                            if (o.oom && c.falloc && pass == 0 && !r2->thrown) {
                                r2.reset();
                                return;
                            }
                            check(in, *r2, w2, o, 0, " (nested)");
                            sim::probe(r2->thrown ? P_NESTED_THROW : P_NESTED);
                        };
                    }
                }
                bool oom = pass == 0 && c.falloc && !c.kind;
                if (oom) sim::alloc_fault((u64)c.falloc, false);
                Outcome o = traverse(c, pool.data(), *rec);
                u64 fired = sim::alloc_fault_end();
                Off off;
                check(c, *rec, w, o, fired, pass ? " (again)" : "");
                if (pass) sim::probe(P_AFTER);
                for (int k = 0; k < POOL; k++)
                    if (!(model_of(pool[k]) == pm[k])) sim::violation("input-changed", "%s: a series changed from %s to %s", tnames[c.t], pm[k].str().c_str(), model_of(pool[k]).str().c_str());
                sim::log(o.hash() + rec->idx.size());
                rec.reset();
            }
        }
    });
}

const char *op_name(int k) { return k == O_SERIES ? "series(count,itemSize,itemSize2,values,seed,otherCount)" : "call(thread,traversal,variant,throws,throwsAt,failingAllocation,nested,yields,answers)"; }

} // namespace

sim::Harness sim::harness = {"C17", gen, exec, op_name,
                             {"complete traversal", "callback threw", "counts do not agree", "empty series", "out of memory", "found", "not found", "several threads", "nested traversal", "several series", "wrong item size refused", "long series", "callback threw in a nested traversal",
                              "again after a failure"}};
