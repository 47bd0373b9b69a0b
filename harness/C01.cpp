// C01: parallel execution equals sequential execution under every schedule.
#include "common.h"
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/parallel_execute.h>
#include <dataframe/functional/map.h>
#include <algorithm>

using namespace h;

enum { O_SERIE, O_EXEC };
enum { P_EMPTY, P_SPLIT, P_MORE_CORES, P_NESTED, P_CONCURRENT, P_DIM2, P_ONE_CORE, P_DELAYED, P_INVALID, P_MAX_PARTS_8 };

namespace {

// What one call of the job was handed
struct Part {
    Model m;
};
struct Rec { // of one parallel execution
    std::vector<Part> parts;
};

enum { J_IDENT, J_MAP, J_SCALAR, J_WIDER, J_FRESH, J_BYVALUE, J_KINDS };

double f1(double x) { return x * 1.5 - 0.25; }

df::Serie transform(int job, const df::Serie &s) { // item-wise, of any part
    switch (job) {
    case J_MAP: // through the library
        if (s.count() == 0) return s;
        if (s.itemSize() == 1) return df::map([](double v, uint32_t) { return f1(v); }, s);
        return df::map(
            [](const Array &v, uint32_t) {
                Array r(v.size());
                for (size_t i = 0; i < v.size(); i++) r[i] = f1(v[v.size() - 1 - i]);
                return r;
            },
            s);
    case J_SCALAR: { // one number per item
        df::Serie r(1, s.count(), s.dimension());
        for (uint32_t i = 0; i < s.count(); i++) {
            double x = 0;
            for (double v : s.get<Array>(i)) x += v;
            r.set(i, x);
        }
        return r;
    }
    case J_WIDER: { // larger items, another dimension
        df::Serie r(s.itemSize() + 2, s.count(), s.dimension() + 1);
        for (uint32_t i = 0; i < s.count(); i++) {
            Array a = s.get<Array>(i);
            a.push_back(a[0] + 1);
            a.push_back(-a[0]);
            r.set(i, a);
        }
        return r;
    }
    case J_FRESH: {
        if (!s.isValid()) return s;
        df::Serie r(s.itemSize(), s.asArray(), s.dimension());
        for (auto &x : r.asArray()) x = f1(x);
        return r;
    }
    default: return s;
    }
}

struct Delay {
    int kind;
    u64 seed;
    void operator()(const df::Serie &s) const {
        if (!kind) return;
        u64 x;
        {
            Off off;
            x = sim::mix64(seed, s.count() ? sim::bits(s.asArray()[0]) : 0);
        }
        if (kind == 1)
            sim::sleep_ns(x % 1000000);
        else if (kind == 2) {
            if (x & 1) sim::sleep_ns(1000000000);
        } else
            for (u64 i = 0; i < x % 4; i++) sim::yield_point();
    }
};

struct Job {
    int kind;
    Delay delay;
    Rec *rec; // null: sequential reference
    df::Serie operator()(const df::Serie &s) const {
        if (rec) {
            Off off;
            rec->parts.push_back({model_of(s)});
        }
        delay(s);
        df::Serie r = transform(kind, s);
        return r;
    }
};
struct ByValueJob { // takes its part by value and works in place
    Delay delay;
    Rec *rec;
    df::Serie operator()(df::Serie s) const {
        if (rec) {
            Off off;
            rec->parts.push_back({model_of(s)});
        }
        delay(s);
        for (auto &x : s.asArray()) x = f1(x);
        return s;
    }
};
struct NestedJob {
    Job inner;
    unsigned n;
    Rec *rec;
    df::Serie operator()(const df::Serie &s) const {
        {
            Off off;
            if (rec) rec->parts.push_back({model_of(s)});
        }
        Job in = inner;
        in.rec = nullptr;
        return df::utils::parallel_execute(in, s, n);
    }
};

void check_parts(const Rec &rec, const Model &in, unsigned n, bool unique) {
    if (in.count == 0) return; // nothing to divide
    u64 want = std::min<u64>(n, in.count);
    // positions: by the first value, when values are unique
    std::vector<std::pair<u64, const Model *>> pos;
    u64 total = 0, lo = ~0ull, hi = 0;
    for (const auto &p : rec.parts) {
        const Model &m = p.m;
        if (m.itemSize != in.itemSize || m.dim != in.dim)
            sim::violation("part-shape", "a part has item size %llu dimension %llu, the input %llu and %llu", (unsigned long long)m.itemSize, (unsigned long long)m.dim,
                           (unsigned long long)in.itemSize, (unsigned long long)in.dim);
        if (m.v.size() != m.count * m.itemSize) sim::violation("part-shape", "a part of %llu items has %zu numbers", (unsigned long long)m.count, m.v.size());
        total += m.count;
        lo = std::min(lo, m.count);
        hi = std::max(hi, m.count);
        if (unique && m.count) {
            u64 idx = (u64)(m.v[0] - 1) / in.itemSize;
            pos.push_back({idx, &m});
        }
    }
    if (rec.parts.size() != want)
        sim::violation("part-count", "%zu parts of %llu items on %u cores", rec.parts.size(), (unsigned long long)in.count, n);
    if (total != in.count) sim::violation("part-cover", "the parts have %llu items together, the input %llu", (unsigned long long)total, (unsigned long long)in.count);
    if (hi - lo > 1) sim::violation("part-balance", "part sizes between %llu and %llu", (unsigned long long)lo, (unsigned long long)hi);
    if (unique) {
        std::sort(pos.begin(), pos.end(), [](auto &a, auto &b) { return a.first < b.first; });
        u64 next = 0;
        for (auto &[idx, m] : pos) {
            if (idx != next) sim::violation("part-cover", "a part starts at item %llu instead of %llu", (unsigned long long)idx, (unsigned long long)next);
            for (u64 k = 0; k < m->v.size(); k++)
                if (sim::bits(m->v[k]) != sim::bits(in.v[idx * in.itemSize + k])) sim::violation("part-cover", "a part differs from the input at number %llu", (unsigned long long)(idx * in.itemSize + k));
            next = idx + m->count;
        }
        if (next != in.count) sim::violation("part-cover", "the parts end at item %llu of %llu", (unsigned long long)next, (unsigned long long)in.count);
    }
}

void gen(Rng &r, Plan &p) {
    bool huge = r.rare(500);
    if (huge) p.scale = 30;
    int ns = huge ? 1 : 1 + r.below(3);
    for (int i = 0; i < ns; i++) {
        static const int isz[] = {1, 1, 2, 3, 3, 4, 6, 9};
        i64 is = huge ? 1 + (i64)r.below(4) : r.chance(2) ? r.range(10, 100) : isz[r.below(8)];
        i64 cnt = huge ? r.huge() : r.chance(12) ? 0 : r.chance(2) ? r.range(200, 6000) : r.small(r.chance(10) ? 200 : 24);
        i64 vk = r.chance(60) ? (i64)V_INDEX : (i64)r.below(V_KINDS);
        if (r.chance(3)) is = 0, cnt = 0;
        p.add(O_SERIE, {is, cnt, r.chance(50) ? 3 : r.chance(70) ? 2 : (i64)r.below(5), vk, (i64)(r.next() >> 1)});
    }
    int nt = huge || r.chance(40) ? 1 : 1 + r.below(4);
    int ops = huge ? 1 : 1 + r.below(nt > 1 ? 5 : 3);
    for (int i = 0; i < ops; i++) {
        i64 n = r.chance(10) ? 1 : r.chance(80) ? r.range(2, 6) : r.chance(90) ? r.range(2, 16) : r.chance(90) ? r.range(17, 40) : r.chance(80) ? r.range(41, 130) : r.range(131, 550);
        i64 nested = r.chance(15) ? r.range(1, 4) : 0;
        p.add(O_EXEC, {(i64)r.below(nt), (i64)r.below(ns), n, (i64)r.below(J_KINDS), nested, r.chance(40) ? 0 : (i64)r.below(4), (i64)(r.next() >> 1), r.chance(50)});
    }
}

struct Exec {
    int thread, slot, job;
    unsigned n, nested;
    Delay delay;
    bool before; // reference computed before the threads start
    Rec rec;
    Outcome got, want;
};

Outcome reference(const Exec &e, const df::Serie &s) {
    Off off;
    return outcome_of([&] {
        if (e.job == J_BYVALUE) return ByValueJob{{0, 0}, nullptr}(s);
        return Job{e.job, {0, 0}, nullptr}(s);
    });
}

void exec(const Plan &p) {
    std::vector<df::Serie> series;
    std::vector<Model> models;
    std::vector<bool> unique;
    std::vector<Exec> ex;
    int nt = 1;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_SERIE) {
                int is = (int)o.mod(0, 101), vk = (int)o.mod(3, V_KINDS);
                uint32_t c = (uint32_t)o.mod(1, 80000);
                if (is == 0) c = 0;
                series.push_back(make_serie(is ? is : 1, c, (unsigned)o.mod(2, 6), vk, (u64)o.at(4)));
                if (is == 0) series.back() = df::Serie();
                unique.push_back(vk == V_INDEX);
            }
        if (series.empty()) series.push_back(make_serie(1, 4, 3, V_INDEX, 1)), unique.push_back(true);
        for (auto &s : series) models.push_back(model_of(s));
        u64 threads = sim::MAX_THREADS - 40;
        for (const auto &o : p.ops)
            if (o.kind == O_EXEC) {
                Exec e;
                e.thread = (int)o.mod(0, 4);
                e.slot = (int)o.mod(1, series.size());
                e.n = 1 + (unsigned)((o.at(2) < 1 ? 0 : o.at(2) - 1) % 560);
                e.job = (int)o.mod(3, J_KINDS);
                e.nested = (unsigned)o.mod(4, 5);
                e.delay = {(int)o.mod(5, 4), (u64)o.at(6)};
                e.before = o.at(7) & 1;
                if (e.nested && e.job == J_BYVALUE) e.nested = 0;
                u64 cost = (std::min<u64>(e.n, models[e.slot].count) + 1) * (1 + e.nested);
                if (cost > threads) continue;
                threads -= cost;
                nt = std::max(nt, e.thread + 1);
                ex.push_back(e);
                const Model &m = models[e.slot];
                if (m.count == 0) sim::probe(P_EMPTY);
                if (m.itemSize == 0) sim::probe(P_INVALID);
                if (m.count > 1 && e.n > 1) sim::probe(P_SPLIT);
                if (m.count < e.n) sim::probe(P_MORE_CORES);
                if (e.nested > 1 && m.count > 1) sim::probe(P_NESTED);
                if (m.dim != 3) sim::probe(P_DIM2);
                if (e.n == 1) sim::probe(P_ONE_CORE);
                if (e.delay.kind) sim::probe(P_DELAYED);
                if (std::min<u64>(m.count, e.n) >= 8) sim::probe(P_MAX_PARTS_8);
            }
        if (nt > 1) sim::probe(P_CONCURRENT);
        for (auto &e : ex)
            if (e.before) e.want = reference(e, series[e.slot]);
    }
    on_threads(nt, [&](int t) {
        for (auto &e : ex) {
            if (e.thread != t) continue;
            const df::Serie &s = series[e.slot];
            Outcome o = outcome_of([&] {
                if (e.nested) return df::utils::parallel_execute(NestedJob{{e.job, e.delay, nullptr}, e.nested, &e.rec}, s, e.n);
                if (e.job == J_BYVALUE) return df::utils::parallel_execute(ByValueJob{e.delay, &e.rec}, s, e.n);
                return df::utils::parallel_execute(Job{e.job, e.delay, &e.rec}, s, e.n);
            });
            Off off;
            e.got = o;
        }
    });
    Off off;
    for (auto &e : ex) {
        if (!e.before) e.want = reference(e, series[e.slot]);
        if (!(model_of(series[e.slot]) == models[e.slot])) sim::violation("input-changed", "the input series was %s and is now %s", models[e.slot].str().c_str(), model_of(series[e.slot]).str().c_str());
        char what[200];
        snprintf(what, sizeof what, "job %d on %u cores (nested %u) over %s", e.job, e.n, e.nested, models[e.slot].str().c_str());
        if (!e.got.ok) sim::violation("unexpected-failure", "%s: %s", what, e.got.str().c_str());
        check_same("wrong-result", what, e.want, e.got);
        if (e.n > 1) check_parts(e.rec, models[e.slot], e.n, unique[e.slot]);
    }
}

const char *op_name(int k) { return k == O_SERIE ? "serie(itemSize,count,dim,values,seed)" : "parallel_execute(thread,serie,cores,job,nested,delay,seed,when)"; }

} // namespace

sim::Harness sim::harness = {"C01", gen, exec, op_name,
                             {"empty input", "split into several parts", "more cores than items", "nested execution", "concurrent executions", "dimension other than 3",
                              "one core", "delayed jobs", "default-constructed series", "eight parts or more"}};
