// C11: memoization is transparent over every history of calls and failures.
#include "memo.h"
#include <dataframe/functional/utils/compose.h>
#include <map>
#include <optional>
#include <set>
using namespace h;

namespace {

enum { O_OBJECT, O_STEP };
enum { P_CALL, P_HIT, P_CLEAR, P_COPY, P_ASSIGNED, P_THROW, P_OOM, P_OOM_DONE, P_AFTER_FAILURE, P_RESULT_MODIFIED, P_ARG_MODIFIED, P_ALIAS, P_RECURSIVE, P_OPERATION, P_TWO_OBJECTS, P_LONG, P_FUNPTR, P_MOVED, P_MANY };
enum { F_PLAIN, F_RECURSIVE, F_POINTER, F_COMPOSED, F_KINDS };
enum { S_CALL, S_CLEAR, S_COPY, S_ASSIGN, S_MOVE, S_MANY, S_KINDS };

void gen(Rng &r, Plan &p) {
    int no = 1 + r.below(3);
    for (int i = 0; i < no; i++) p.add(O_OBJECT, {r.chance(50) ? (i64)F_PLAIN : (i64)r.below(F_KINDS), (i64)r.below(4)});
    if (r.chance(2)) p.add(O_STEP, {S_MANY, (i64)r.below(no), (i64)(r.next() >> 12), r.rare(60) ? (p.scale = 30, std::min<i64>(r.huge(), 17000)) : r.range(100, 1500)});
    int n = 2 + r.below(r.chance(20) ? 120 : 30);
    u64 seed = r.next() >> 1;
    int few = 1 + (int)r.below(48), seeds = 1 + (int)r.below(2);
    if ((seed + 1) % 256 == 9 || seed % 256 == 9) p.scale = 30; // huge series
    for (int i = 0; i < n; i++) {
        int k = r.chance(85) ? S_CALL : (int)r.below(S_MANY);
        p.add(O_STEP, {k, (i64)r.below(no), (i64)(seed + r.below(seeds)), r.chance(35) ? 0 : r.chance(50) ? (i64)r.below(few) : (i64)r.below(48), (i64)r.below(64), r.chance(12) ? 1 + (i64)r.below(r.chance(50) ? 5 : ANY_KINDS) : 0, r.chance(25) ? 1 + r.small(14) : 0, (i64)r.chance(50)});
    }
}

// The wrapped function: counts its evaluations and fails when told so
struct Control {
    int fail = 0;     // what the next evaluation throws
    bool thrown = false;
    std::vector<Words> evals; // arguments of this call's evaluations
};
Control *ctl;

void evaluated(const df::Serie &s, u64 salt) {
    int f;
    {
        Off off;
        ctl->evals.push_back(words(s));
        ctl->evals.back().push_back(salt);
        f = ctl->fail;
        ctl->fail = 0;
        if (f) {
            ctl->thrown = true;
            sim::fired(sim::F_CALLBACK);
        }
    }
    if (f) throw_any((u64)f - 1, 17);
}

struct Plain {
    u64 salt;
    df::Serie operator()(const df::Serie &s) const {
        evaluated(s, salt);
        return digest(s, salt);
    }
};
struct Recursive { // calls the memoized function for the series without its last item
    u64 salt;
    std::shared_ptr<std::function<df::Serie(const df::Serie &)>> self;
    df::Serie operator()(const df::Serie &s) const {
        evaluated(s, salt);
        if (s.count() < 2 || s.count() > 60 || s.itemSize() < 1) return digest(s, salt);
        Array a = s.asArray();
        a.resize(a.size() - s.itemSize());
        df::Serie inner = (*self)(df::Serie(s.itemSize(), a, s.dimension()));
        df::Serie d = digest(s, salt);
        if (d.asArray().empty()) return d;
        Array v = d.asArray();
        if (!inner.asArray().empty()) v[0] += inner.asArray()[0];
        return df::Serie(d.itemSize(), v, d.dimension());
    }
};
df::Serie plain_function(const df::Serie &s) {
    evaluated(s, 77);
    return digest(s, 77);
}
struct Stage2 {
    u64 salt;
    df::Serie operator()(const df::Serie &s) const { return digest(s, salt); }
};

// what the function gives, by plain means (no evaluation is counted)
df::Serie expected(int kind, u64 salt, const df::Serie &s) {
    switch (kind) {
    case F_POINTER: return digest(s, 77);
    case F_COMPOSED: return digest(digest(s, salt), salt + 1);
    case F_RECURSIVE: {
        if (s.count() < 2 || s.count() > 60 || s.itemSize() < 1) return digest(s, salt);
        Array a = s.asArray();
        a.resize(a.size() - s.itemSize());
        df::Serie inner = expected(kind, salt, df::Serie(s.itemSize(), a, s.dimension()));
        df::Serie d = digest(s, salt);
        if (d.asArray().empty()) return d;
        Array v = d.asArray();
        if (!inner.asArray().empty()) v[0] += inner.asArray()[0];
        return df::Serie(d.itemSize(), v, d.dimension());
    }
    default: return digest(s, salt);
    }
}

struct Memo { // one memoized function
    virtual ~Memo() {}
    virtual df::Serie call(const df::Serie &s) = 0;
    virtual void clear() = 0;
    virtual std::unique_ptr<Memo> copy() const = 0;
    virtual std::unique_ptr<Memo> move() = 0;
    virtual bool assign(const Memo &o) = 0;
    int kind = 0;
    u64 salt = 0;
    int family = 0;            // objects copied from each other
    std::set<Words> known;     // surely remembered
    std::set<Words> maybe;     // may be remembered
    void record_like(const Memo &o) {
        kind = o.kind;
        salt = o.salt;
        family = o.family;
        maybe = o.maybe;
        maybe.insert(o.known.begin(), o.known.end());
        known.clear();
    }
};
template <class F> struct MemoOf : Memo {
    using M = df::utils::Memoized<F>;
    M m;
    MemoOf(M x) : m(x) {}
    MemoOf(F f, int) : m(df::utils::memoize(f)) {}
    df::Serie call(const df::Serie &s) override {
        const M &c = m;
        return c(s);
    }
    void clear() override { m.clear_cache(); }
    std::unique_ptr<Memo> copy() const override {
        M t(m);
        return std::make_unique<MemoOf<F>>(t);
    }
    std::unique_ptr<Memo> move() override { return std::make_unique<MemoOf<F>>(std::move(m)); }
    bool assign(const Memo &o) override {
        if constexpr (std::is_copy_assignable_v<M>) {
            m = static_cast<const MemoOf<F> &>(o).m;
            return true;
        }
        return false;
    }
};

std::unique_ptr<Memo> make(int kind, u64 salt) {
    std::unique_ptr<Memo> r;
    switch (kind) {
    case F_RECURSIVE: {
        auto self = std::make_shared<std::function<df::Serie(const df::Serie &)>>();
        auto m = std::make_unique<MemoOf<Recursive>>(Recursive{salt, self}, 0);
        auto *p = m.get();
        *self = [p](const df::Serie &s) { return p->m(s); };
        r = std::move(m);
        break;
    }
    case F_POINTER: r = std::make_unique<MemoOf<df::Serie (*)(const df::Serie &)>>(plain_function, 0); break;
    case F_COMPOSED: {
        Plain first{salt};
        Stage2 second{salt + 1};
        auto f = df::utils::compose(second, first);
        r = std::make_unique<MemoOf<decltype(f)>>(f, 0);
        break;
    }
    default: r = std::make_unique<MemoOf<Plain>>(Plain{salt}, 0); break;
    }
    r->kind = kind;
    r->salt = salt;
    return r;
}

void exec(const Plan &p) {
    std::vector<std::unique_ptr<Memo>> objs;
    Control control;
    bool long_run = false;
    {
        Off off;
        ctl = &control;
        int n = 0;
        for (const auto &o : p.ops) n += o.kind == O_STEP;
        long_run = n > 50;
    }
    int families = 0;
    for (const auto &o : p.ops)
        if (o.kind == O_OBJECT && objs.size() < 3) {
            objs.push_back(make((int)o.mod(0, F_KINDS), o.mod(1, 4)));
            objs.back()->family = families++;
        }
    if (objs.empty()) objs.push_back(make(F_PLAIN, 1)), families++;
    size_t originals = objs.size();
    if (objs.size() > 1) sim::probe(P_TWO_OBJECTS);
    if (long_run) sim::probe(P_LONG);
    std::set<int> copied; // families in which copies may share
    for (const auto &o : p.ops) {
        if (o.kind != O_STEP) continue;
        size_t oi;
        int kind, fthrow;
        u64 extra;
        i64 falloc;
        {
            Off off;
            oi = o.mod(1, objs.size());
            kind = (int)o.mod(0, S_KINDS);
            extra = o.mod(4, 64);
            fthrow = (int)o.mod(5, 1 + ANY_KINDS);
            falloc = (i64)o.mod(6, 16);
            if (extra & 32) oi = objs.size() - 1 - oi; // the copies too
        }
        Memo &m = *objs[oi];
        if (kind == S_COPY || kind == S_MOVE) {
            if (m.kind == F_RECURSIVE || objs.size() > 6) continue; // calls the original
            std::unique_ptr<Memo> c;
            if (kind == S_COPY)
                c = m.copy();
            else
                c = objs[oi]->move();
            Off off;
            c->record_like(m);
            if (kind == S_MOVE) {
                objs[oi] = std::move(c);
                copied.insert(objs[oi]->family);
                sim::probe(P_MOVED);
            } else {
                objs.push_back(std::move(c));
                copied.insert(m.family);
                sim::probe(P_COPY);
            }
            continue;
        }
        if (kind == S_ASSIGN) {
            size_t from;
            bool same;
            {
                Off off;
                from = extra % objs.size();
                same = objs[from]->kind == m.kind && m.kind != F_RECURSIVE;
            }
            if (!same) continue;
            bool done = m.assign(*objs[from]);
            Off off;
            if (done && from != oi) {
                m.record_like(*objs[from]);
                copied.insert(m.family);
                sim::probe(P_ASSIGNED);
            }
            continue;
        }
        if (kind == S_CLEAR) {
            m.clear();
            Off off;
            if (!copied.count(m.family)) {
                m.known.clear();
                m.maybe.clear();
            } else { // copies that share a cache would forget as well
                for (auto &x : objs)
                    if (x->family == m.family) {
                        x->maybe.insert(x->known.begin(), x->known.end());
                        x->known.clear();
                    }
            }
            sim::probe(P_CLEAR);
            continue;
        }
        if (kind == S_MANY) { // many different series, then some of them again
            u64 n = o.mod(3, 80000), first = (u64)o.at(2) >> 1, again = n < 60 ? n : 60;
            if (copied.count(m.family)) continue;
            for (u64 i = 0; i < n + again; i++) {
                df::Serie arg;
                Words id;
                Outcome want;
                {
                    Off off;
                    u64 k = i < n ? i : sim::mix64(first, i) % n;
                    if (i == n) k = 0;
                    arg = df::Serie(1, Array{(double)first + (double)k * 0.5});
                    id = words(arg);
                    want.ok = true;
                    want.w = words(expected(m.kind, m.salt, arg));
                    control.evals.clear();
                }
                Outcome got;
                try {
                    df::Serie r = m.call(arg);
                    Off off;
                    got.ok = true;
                    got.w = words(r);
                } catch (...) {
                    got = current_exception_outcome();
                }
                Off off;
                bool known = m.known.count(id), maybe = m.maybe.count(id);
                u64 own = control.evals.size();
                if (!(got == want)) sim::violation("wrong-result", "memoized function %zu for the %llu-th of many series: gives %s, should give %s", oi, (unsigned long long)i, got.str().c_str(), want.str().c_str());
                if (known && own) sim::violation("evaluated-again", "memoized function %zu, which remembers %zu series: evaluated again for %s", oi, m.known.size(), show(id).c_str());
                if (!known && !maybe && own != 1) sim::violation("not-evaluated", "memoized function %zu: evaluated %llu times for a new series", oi, (unsigned long long)own);
                m.known.insert(id);
            }
            sim::probe(P_MANY);
            continue;
        }
        df::Serie arg;
        Outcome want;
        Words id;
        {
            Off off;
            arg = look_alike((u64)o.at(2), o.mod(3, LOOK_ALIKES));
            id = words(arg);
            want.ok = true;
            want.w = words(expected(m.kind, m.salt, arg));
            control.evals.clear();
            control.fail = fthrow;
            control.thrown = false;
        }
        df::Serie result;
        Outcome got;
        if (falloc) sim::alloc_fault((u64)falloc, o.at(7) & 1);
        try {
            if (extra & 16) {
                arg = m.call(arg); // the result replaces the argument
                sim::alloc_fault_end();
                result = arg;
                sim::probe(P_ALIAS);
            } else {
                df::Serie r = m.call(arg);
                sim::alloc_fault_end();
                result = r;
            }
            Off off;
            got.ok = true;
            got.w = words(result);
        } catch (...) {
            got = current_exception_outcome();
        }
        u64 fired = sim::alloc_fault_end();
        bool failed = !got.ok;
        {
            Off off;
            control.fail = 0;
            char what[160];
            snprintf(what, sizeof what, "memoized function %zu (kind %d)", oi, m.kind);
            u64 own = 0; // evaluations for this very series
            for (auto &e : control.evals) {
                Words k(e.begin(), e.end() - 1);
                own += k == id;
            }
            sim::probe(P_CALL);
            if (failed) {
                if (control.thrown) {
                    sim::probe(P_THROW);
                    if (!(got == any_outcome((u64)fthrow - 1, 17)))
                        if (!got.oom || !falloc) sim::violation("wrong-exception", "%s: the function threw %d, the caller got %s", what, fthrow, got.str().c_str());
                } else if (got.oom && (fired || falloc))
                    sim::probe(P_OOM);
                else
                    sim::violation("unexpected-exception", "%s for %s: %s", what, show(id).c_str(), got.str().c_str());
                if (!(extra & 16) && words(arg) != id) sim::violation("input-changed", "%s: the argument was changed by the failed call", what);
            } else {
                if (control.thrown) sim::violation("failure-hidden", "%s: the function threw, the call gave %s", what, got.str().c_str());
                if (got.w != want.w)
                    sim::violation("wrong-result", "%s for %s: gives %s, the function gives %s", what, show(id).c_str(), show(got.w).c_str(), show(want.w).c_str());
                if (!(extra & 16) && words(arg) != id) sim::violation("input-changed", "%s: the argument was changed by the call", what);
                if (fired) sim::probe(P_OOM_DONE);
            }
            bool known = m.known.count(id), maybe = m.maybe.count(id);
            if (known && own) sim::violation("evaluated-again", "%s for %s: evaluated again although it is remembered", what, show(id).c_str());
            if (!failed && !known && !maybe && !own) sim::violation("not-evaluated", "%s for %s: not evaluated although it is not remembered", what, show(id).c_str());
            if (own > 1) sim::violation("evaluated-again", "%s for %s: evaluated %llu times in one call", what, show(id).c_str(), (unsigned long long)own);
            if (known) sim::probe(P_HIT);
            // what is remembered now
            if (!failed) {
                m.known.insert(id);
                if (m.kind == F_RECURSIVE)
                    for (auto &e : control.evals) m.known.insert(Words(e.begin(), e.end() - 1));
                if (maybe) sim::probe(P_AFTER_FAILURE);
            } else {
                for (auto &e : control.evals) m.maybe.insert(Words(e.begin(), e.end() - 1));
                m.maybe.insert(id);
            }
            if (copied.count(m.family)) // a shared cache would have it for the copies as well
                for (auto &x : objs)
                    if (x->family == m.family && x.get() != &m) {
                        x->maybe.insert(m.known.begin(), m.known.end());
                        x->maybe.insert(m.maybe.begin(), m.maybe.end());
                    }
            if (m.kind == F_RECURSIVE) sim::probe(P_RECURSIVE);
            if (m.kind == F_COMPOSED) sim::probe(P_OPERATION);
            if (m.kind == F_POINTER) sim::probe(P_FUNPTR);
            sim::log(got.hash() + own);
        }
        // neither result nor argument is the cache's own
        if (!failed && (extra & 1)) {
            for (auto &x : result.asArray()) x = -1;
            result.reCount(1);
            sim::probe(P_RESULT_MODIFIED);
        }
        if (extra & 2) {
            for (auto &x : arg.asArray()) x = -2;
            sim::probe(P_ARG_MODIFIED);
        }
    }
    for (size_t i = 0; i < originals && i < objs.size(); i++) objs[i]->clear();
}

const char *op_name(int k) { return k == O_OBJECT ? "memoized(function,salt)" : "step(kind,object,seed,lookAlike,extra,throws,failingAllocation,persistent)"; }

} // namespace

sim::Harness sim::harness = {"C11", gen, exec, op_name,
                             {"call", "remembered result", "cache cleared", "memoized function copied", "memoized function assigned", "function threw", "out of memory", "allocation failed, result complete", "call after a failed call for the same series",
                              "result modified", "argument modified", "result replaces argument", "recursive function", "composed function", "several memoized functions", "long history", "function pointer", "memoized function moved", "more than a hundred series remembered"},
                             {}, 10, false};
