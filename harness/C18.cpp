// C18: pipelines and compositions run their stages in order, once per use.
#include "common.h"
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/zip.h>
#include <set>
using namespace h;
using namespace df;

namespace {

enum { O_SERIES, O_STEP };
enum { P_RUN, P_THROW, P_OOM, P_COPY, P_COPY_OOM, P_CREATE_OOM, P_COPY_USED, P_ORIGINAL_GONE, P_ORIGINAL_CHANGED, P_AGAIN, P_AFTER_FAIL, P_SHARED, P_THREADS, P_COPY_SHARED, P_ONCE, P_MADE, P_COMPOSED, P_PIPED, P_NESTED, P_PAIR, P_LONG, P_TWO_ARGS, P_DATA, P_BOUND };
enum { S_CREATE, S_RUN, S_COPY, S_DROP, S_ONCE, S_BOUND, S_KINDS };
static const char *const step_names[] = {"create", "run", "copy", "drop", "run a pipeline made on the spot", "run an operation bound to a series"};
static_assert(sizeof step_names / sizeof *step_names == S_KINDS);
enum {
    T_PIPE1, T_PIPE3, T_PIPE6, T_PIPENEST, T_COMP2, T_COMP4, T_COMPNEST, T_PIPECOMP, T_MFR, T_PAIR, T_COMPTWO, T_REJECT, T_MAP, T_MAPA, T_FILTER, T_FILTERA, T_REDUCE, T_REDUCEA, T_FIND, T_FINDALL, T_FOREACH, T_APPLY, T_CUT, T_CHECK, T_NUMBERS, T_DATA, T_COUNT
};
static const char *const tnames[] = {"pipeline of one", "pipeline of three", "pipeline of six", "pipeline of pipelines", "composition of two", "composition of four", "composition of compositions", "pipeline with a composition and a map", "map, filter, reduce", "pipeline through a pair", "composition of a function of two arguments",
                                     "stage and reject", "made map", "made map of arrays", "made filter", "made filter of arrays", "made reduce", "made reduce of arrays", "made find", "made find all", "made for each", "made apply", "made cut", "made check", "composition on numbers", "pipeline on a structure"};
static_assert(sizeof tnames / sizeof *tnames == T_COUNT);
enum { B_ADD, B_MULT, B_DIV, B_DIVNUM, B_EQUALS, B_CROSS, B_DOT, B_COVARIANCE, B_ZIP, B_CONCAT, B_COUNT };
enum { ONCE_PIPE1, ONCE_PIPE3, ONCE_MEMBER1, ONCE_MEMBER2, ONCE_PIPELVALUE, ONCE_COUNT };
const int SHARED = 3, OWN = 4, SLOTS = SHARED + OWN, POOL = 6;

void gen(Rng &r, Plan &p) {
    bool huge = r.rare(500);
    if (huge) p.scale = 30;
    p.add(O_SERIES, {huge ? r.huge() : 1 + r.small(r.chance(10) ? 60 : r.chance(1) ? 1500 : 7), (i64)(r.next() >> 1), (i64)r.below(V_KINDS), (i64)r.below(T_COUNT), (i64)r.below(T_COUNT), (i64)r.below(T_COUNT)});
    int nt = huge || r.chance(55) ? 1 : 2 + r.below(3);
    int n = huge ? 4 : nt + 2 + r.below(r.chance(20) ? 60 : 14);
    int fault = r.chance(35) ? 0 : 35;
    for (int i = 0; i < n; i++) {
        int k = (int)r.below(20);
        k = k < 11 ? (int)S_RUN : (int)r.below(S_KINDS);
        p.add(O_STEP, {i < nt ? (i64)i : (i64)r.below(nt), k, (i64)r.below(SLOTS), (i64)r.below(SLOTS), (i64)r.below(T_COUNT), (i64)r.below(POOL), (i64)(r.next() >> 1), r.chance(fault) ? 1 + r.small(20) : 0, (i64)r.below(6), (i64)r.below(4)});
    }
}

// ---------------------------------------------------------------------------------- what happens
struct Event {
    int id;
    u64 in;
    bool operator==(const Event &o) const { return id == o.id && in == o.in; }
};
struct Rec { // of one thread; also used by the reference
    std::vector<Event> ev;
    i64 throw_at = -1;
    int kind = 0, yields = 0;
    bool thrown = false;
    bool own = false; // the pipeline is the thread's own, so its stages may change what they own
};
Rec *recs[64];
std::set<const void *> *alive; // stages in existence

// called by each stage
void hit(int id, u64 in) {
    Rec *r;
    i64 n;
    {
        Off off;
        r = recs[sim::self() & 63];
        if (!r) sim::violation("wrong-thread", "stage %d is called by a thread that runs no pipeline", id);
        n = (i64)r->ev.size();
        r->ev.push_back({id, in});
        if (n == r->throw_at) {
            r->thrown = true;
            sim::fired(sim::F_CALLBACK);
        }
    }
    if (r->yields && n % r->yields == 0) sim::yield_point();
    if (n == r->throw_at) throw_any((unsigned)r->kind, n);
}
u64 word(double d) { return sim::bits(d); }
u64 key(const Array &a) { return hash_words(words(a)); }
u64 key(const Serie &s) { return hash_words(words(s)); }

bool own_run() {
    Off off;
    Rec *r = recs[sim::self() & 63];
    return r && r->own;
}
// A stage: owns memory, knows whether it still exists.
struct Stage {
    int id;
    Array mem;
    mutable u64 scratch = 0;
    explicit Stage(int i) : id(i), mem(5, (double)i + 0.25) { enter(); }
    Stage(const Stage &o) : id(o.id), mem(o.mem) {
        o.look();
        enter();
    }
    Stage(Stage &&o) : id(o.id), mem(o.mem) {
        o.look();
        enter();
    }
    Stage &operator=(const Stage &) = delete;
    ~Stage() {
        Off off;
        if (!alive->erase(this)) sim::violation("destroyed-twice", "a stage that does not exist is destroyed");
    }
    void enter() {
        Off off;
        if (!alive->insert(this).second) sim::violation("destroyed-twice", "a stage is created where one exists");
    }
    void look() const {
        Off off;
        if (!alive->count(this)) sim::violation("dead-stage", "a stage that does not exist any more is used");
    }
    // the work of a stage, on plain values
    u64 enter_call(u64 in) const {
        look();
        double own = mem[(size_t)id % 5]; // a read of what it owns
        bool mine = own_run();
        if (mine) scratch = in;
        hit(id, in);
        if (mine && scratch != in) sim::violation("shared-stage", "a stage of a pipeline that one thread owns was called by somebody else");
        return sim::mix64(sim::bits(own), (u64)id);
    }
};
double number(u64 k) { return (double)(k % 2001) / 16 - 60; }
Array change(const Array &v, u64 k) {
    Array r(v.size());
    for (size_t i = 0; i < v.size(); i++) r[i] = v[i] * 0.5 + number(k + i);
    return r;
}
struct SS : Stage { // series to series
    using Stage::Stage;
    Serie operator()(const Serie &s) const {
        u64 k;
        {
            Off off;
            k = key(s);
        }
        k = enter_call(k);
        return Serie((int)s.itemSize(), change(s.asArray(), k), s.dimension());
    }
};
struct Split : Stage {
    using Stage::Stage;
    std::pair<Serie, Serie> operator()(const Serie &s) const {
        u64 k;
        {
            Off off;
            k = key(s);
        }
        k = enter_call(k);
        return {Serie((int)s.itemSize(), change(s.asArray(), k)), Serie(1, Array{number(k), (double)s.count()})};
    }
};
struct Join : Stage {
    using Stage::Stage;
    Serie operator()(const std::pair<Serie, Serie> &p) const {
        u64 k;
        {
            Off off;
            k = sim::mix64(key(p.first), key(p.second));
        }
        k = enter_call(k);
        Array a = p.first.asArray();
        for (double d : p.second.asArray()) a.push_back(d + number(k));
        return Serie(1, a);
    }
};
struct Two : Stage { // a function of two arguments
    using Stage::Stage;
    Serie operator()(const Serie &a, const Serie &b) const {
        u64 k;
        {
            Off off;
            k = sim::mix64(key(a), key(b));
        }
        k = enter_call(k);
        Array r = change(a.asArray(), k);
        for (double d : b.asArray()) r.push_back(d);
        return Serie(1, r);
    }
};
struct Num : Stage {
    using Stage::Stage;
    double operator()(double x) const { return x * 0.75 + number(enter_call(word(x))); }
};
struct Data {
    Serie a, b;
    double x;
};
struct Take : Stage {
    using Stage::Stage;
    Serie operator()(const Data &d) const {
        u64 k;
        {
            Off off;
            k = sim::mix64(key(d.a), sim::mix64(key(d.b), word(d.x)));
        }
        k = enter_call(k);
        Array r = change(d.a.asArray(), k);
        r.push_back(d.x);
        return Serie(1, r);
    }
};
// callbacks of made operations
struct CMap : Stage {
    using Stage::Stage;
    double operator()(double x, uint32_t i) const { return x * 2 + number(enter_call(word(x) + i)); }
};
struct CMapA : Stage {
    using Stage::Stage;
    Array operator()(const Array &x, uint32_t i) const {
        u64 k;
        {
            Off off;
            k = key(x) + i;
        }
        return change(x, enter_call(k));
    }
};
struct CPred : Stage {
    using Stage::Stage;
    bool operator()(double x, uint32_t i) const {
        u64 k = enter_call(word(x) + i);
        return sim::mix64(k, word(x)) % 3 != 0;
    }
};
struct CPredA : Stage {
    using Stage::Stage;
    bool operator()(const Array &x, uint32_t i) const {
        u64 k;
        {
            Off off;
            k = key(x) + i;
        }
        return sim::mix64(enter_call(k), k) % 3 != 0;
    }
};
struct CRed : Stage {
    using Stage::Stage;
    double operator()(double acc, double x, uint32_t i) const { return acc * 0.5 + x + number(enter_call(sim::mix64(word(acc), word(x)) + i)); }
};
struct CRedA : Stage {
    using Stage::Stage;
    Array operator()(const Array &acc, const Array &x, uint32_t i) const {
        u64 k;
        {
            Off off;
            k = sim::mix64(key(acc), key(x)) + i;
        }
        return change(acc, enter_call(k));
    }
};
struct CEach : Stage {
    using Stage::Stage;
    void operator()(double x, uint32_t i) const { enter_call(word(x) + i); }
};

// ---------------------------------------------------------------------------------- the pipelines
struct Input {
    const Serie *a, *b; // scalars or arrays as the pipeline wants
};
// results, an empty series without its item size (see C17)
void flat(Words &w, const Serie &s) {
    if (s.count()) put(w, (u64)s.itemSize());
    put(w, (u64)s.count());
    for (double d : s.asArray()) put(w, d);
}
void flat(Words &w, double d) { put(w, d); }
template <class T> void flat(Words &w, const FindResult<T> &r) {
    put(w, (u64)r.found);
    if (r.found) {
        put(w, r.value);
        put(w, (u64)r.index);
    }
}
template <class... T> void flat(Words &w, const std::tuple<T...> &t) {
    std::apply([&](const auto &...x) { (flat(w, x), ...); }, t);
}
void flat(Words &w, const std::pair<Serie, Serie> &p) {
    flat(w, p.first);
    flat(w, p.second);
}
template <class F> Outcome result_of(F f) {
    Outcome o;
    try {
        if constexpr (std::is_void_v<decltype(f())>) {
            f();
            o.ok = true;
        } else {
            auto r = f();
            Off off;
            flat(o.w, r);
            o.ok = true;
        }
    } catch (...) {
        o = current_exception_outcome();
    }
    return o;
}
struct Any {
    virtual ~Any() = default;
    virtual Outcome run(const Input &) const = 0;
    virtual Any *copy() const = 0;
};
template <class P, class Call> struct Holder : Any {
    P p;
    explicit Holder(P &&q) : p(std::move(q)) {}
    Holder(const Holder &) = default;
    Outcome run(const Input &in) const override {
        return result_of([&] { return Call()(p, in); });
    }
    Any *copy() const override { return new Holder(*this); }
};
struct OnSerie {
    template <class P> auto operator()(const P &p, const Input &in) { return p(*in.a); }
};
struct OnTwo {
    template <class P> auto operator()(const P &p, const Input &in) { return p(*in.a, *in.b); }
};
struct OnNumber {
    template <class P> auto operator()(const P &p, const Input &in) { return p(in.a->asArray().empty() ? 1.5 : in.a->asArray()[0]); }
};
struct OnData {
    template <class P> auto operator()(const P &p, const Input &in) { return p(Data{*in.a, *in.b, 2.5}); }
};
template <class Call = OnSerie, class P> Any *hold(P p) { return new Holder<P, Call>(std::move(p)); }

// The stages a pipeline is made from: temporaries, or objects that are destroyed or changed afterwards
struct Source {
    int mode; // 0 temporaries, 1 lvalues destroyed afterwards, 2 lvalues changed afterwards
    std::vector<std::shared_ptr<void>> keep;
    std::vector<Stage *> made;
    template <class S> S &lvalue(int id) {
        std::shared_ptr<S> p = std::make_shared<S>(id);
        S *s = p.get();
        Off off;
        keep.push_back(std::move(p));
        made.push_back(s);
        return *s;
    }
    void spoil() {
        if (mode == 2)
            for (auto s : made) {
                s->id += 1000;
                s->mem.assign(5, -1.0);
            }
    }
    ~Source() {
        Off off;
        made.clear();
        std::vector<std::shared_ptr<void>>().swap(keep);
    }
};
template <class Make> Any *with(Source &s, Make make) { return make(s); }
// S<T>(id): a stage in the mode of the source
#define BUILD(...) (src.mode == 0 ? [&] { auto st = [&]<class T>(std::in_place_type_t<T>, int id) -> T { return T(id); }; return __VA_ARGS__; }() \
                                  : [&] { auto st = [&]<class T>(std::in_place_type_t<T>, int id) -> T & { return src.template lvalue<T>(id); }; return __VA_ARGS__; }())
template <class T> constexpr std::in_place_type_t<T> is{};

Any *build(int t, Source &src, int b) {
    switch (t) {
    case T_PIPE1: return BUILD(hold(make_pipe(st(is<SS>, b))));
    case T_PIPE3: return BUILD(hold(make_pipe(st(is<SS>, b), st(is<SS>, b + 1), st(is<SS>, b + 2))));
    case T_PIPE6: return BUILD(hold(make_pipe(st(is<SS>, b), st(is<SS>, b + 1), st(is<SS>, b + 2), st(is<SS>, b + 3), st(is<SS>, b + 4), st(is<SS>, b + 5))));
    case T_PIPENEST: return BUILD(hold(make_pipe(make_pipe(st(is<SS>, b), st(is<SS>, b + 1)), st(is<SS>, b + 2), make_pipe(st(is<SS>, b + 3)))));
    case T_COMP2: return BUILD(hold(utils::compose(st(is<SS>, b + 1), st(is<SS>, b))));
    case T_COMP4: return BUILD(hold(utils::compose(st(is<SS>, b + 3), st(is<SS>, b + 2), st(is<SS>, b + 1), st(is<SS>, b))));
    case T_COMPNEST: return BUILD(hold(utils::compose(utils::compose(st(is<SS>, b + 3), st(is<SS>, b + 2)), utils::compose(st(is<SS>, b + 1), st(is<SS>, b)))));
    case T_PIPECOMP: return BUILD(hold(make_pipe(utils::compose(st(is<SS>, b + 1), st(is<SS>, b)), df::make_map(st(is<CMap>, b + 2)))));
    case T_MFR: return BUILD(hold(make_pipe(df::make_map(st(is<CMap>, b)), make_filter(st(is<CPred>, b + 1)), make_reduce(st(is<CRed>, b + 2), 3.0))));
    case T_PAIR: return BUILD(hold(make_pipe(st(is<Split>, b), st(is<Join>, b + 1), st(is<SS>, b + 2))));
    case T_COMPTWO: return BUILD(hold<OnTwo>(utils::compose(st(is<SS>, b + 2), st(is<SS>, b + 1), st(is<Two>, b))));
    case T_REJECT: return BUILD(hold(make_pipe(st(is<SS>, b), utils::make_reject(st(is<CPredA>, b + 1)))));
    case T_MAP: return BUILD(hold(df::make_map(st(is<CMap>, b))));
    case T_MAPA: return BUILD(hold(df::make_map(st(is<CMapA>, b))));
    case T_FILTER: return BUILD(hold(make_filter(st(is<CPred>, b))));
    case T_FILTERA: return BUILD(hold(make_filter(st(is<CPredA>, b))));
    case T_REDUCE: return BUILD(hold(make_reduce(st(is<CRed>, b), 3.0)));
    case T_REDUCEA: return BUILD(hold(make_reduce(st(is<CRedA>, b), Array{1, 2, 3})));
    case T_FIND: return BUILD(hold(makeFind(st(is<CPred>, b))));
    case T_FINDALL: return BUILD(hold(makeFindAll(st(is<CPred>, b))));
    case T_FOREACH: return BUILD(hold(df::make_forEach(st(is<CEach>, b))));
    case T_APPLY: return BUILD(hold(utils::make_apply(st(is<CMap>, b))));
    case T_CUT: return BUILD(hold(utils::make_cut(st(is<CPred>, b))));
    case T_CHECK: return BUILD(hold(cond::make_check(st(is<CPred>, b))));
    case T_NUMBERS: return BUILD(hold<OnNumber>(utils::compose(st(is<Num>, b + 2), st(is<Num>, b + 1), st(is<Num>, b))));
    default: return BUILD(hold<OnData>(make_pipe(st(is<Take>, b), st(is<SS>, b + 1))));
    }
}
bool wants_arrays(int t) { return t == T_REJECT || t == T_MAPA || t == T_FILTERA || t == T_REDUCEA; }
bool any_input(int t) { return t <= T_COMPNEST || t == T_PAIR || t == T_COMPTWO || t == T_DATA; }

// The same, one stage at a time on plain loops
Outcome reference(int t, int b, const Input &in) {
    return result_of([&]() -> std::pair<Serie, Serie> { // second: only for find
        auto run = [](Serie s, int from, int n) {
            for (int i = 0; i < n; i++) s = SS(from + i)(s);
            return s;
        };
        auto each = [](const Serie &s, auto f) {
            for (uint32_t i = 0; i < s.count(); i++) f(Array(s.asArray().begin() + i * (size_t)s.itemSize(), s.asArray().begin() + (i + 1) * (size_t)s.itemSize()), i);
        };
        auto mapped = [&](const Serie &s, int id) {
            CMap f(id);
            Array r;
            each(s, [&](const Array &x, uint32_t i) { r.push_back(f(x[0], i)); });
            return Serie(1, r);
        };
        auto kept = [&](const Serie &s, auto f, bool want) {
            Array r;
            each(s, [&](const Array &x, uint32_t i) {
                if (f(x, i) == want) r.insert(r.end(), x.begin(), x.end());
            });
            return Serie((int)s.itemSize(), r);
        };
        auto scalar = [](auto &f) { return [&f](const Array &x, uint32_t i) { return f(x[0], i); }; };
        const Serie &s = *in.a;
        switch (t) {
        case T_PIPE1: return {run(s, b, 1), {}};
        case T_PIPE3: return {run(s, b, 3), {}};
        case T_PIPE6: return {run(s, b, 6), {}};
        case T_PIPENEST: case T_COMP4: case T_COMPNEST: return {run(s, b, 4), {}};
        case T_COMP2: return {run(s, b, 2), {}};
        case T_PIPECOMP: return {mapped(run(s, b, 2), b + 2), {}};
        case T_MFR: {
            CPred p(b + 1);
            CRed f(b + 2);
            Serie k = kept(mapped(s, b), scalar(p), true);
            double acc = 3;
            each(k, [&](const Array &x, uint32_t i) { acc = f(acc, x[0], i); });
            return {Serie(1, Array{acc}), {}};
        }
        case T_PAIR: return {run(Join(b + 1)(Split(b)(s)), b + 2, 1), {}};
        case T_COMPTWO: return {run(Two(b)(s, *in.b), b + 1, 2), {}};
        case T_REJECT: return {kept(run(s, b, 1), CPredA(b + 1), false), {}};
        case T_MAP: case T_APPLY: return {mapped(s, b), {}};
        case T_MAPA: {
            CMapA f(b);
            Array r;
            each(s, [&](const Array &x, uint32_t i) {
                for (double d : f(x, i)) r.push_back(d);
            });
            return {Serie((int)s.itemSize(), r), {}};
        }
        case T_FILTER: case T_FINDALL: {
            CPred p(b);
            return {kept(s, scalar(p), true), {}};
        }
        case T_FILTERA: return {kept(s, CPredA(b), true), {}};
        case T_REDUCE: {
            CRed f(b);
            double acc = 3;
            each(s, [&](const Array &x, uint32_t i) { acc = f(acc, x[0], i); });
            return {Serie(1, Array{acc}), {}};
        }
        case T_REDUCEA: {
            CRedA f(b);
            Array acc{1, 2, 3};
            each(s, [&](const Array &x, uint32_t i) { acc = f(acc, x, i); });
            return {Serie((int)acc.size(), acc), {}};
        }
        case T_FIND: {
            CPred f(b);
            for (uint32_t i = 0; i < s.count(); i++)
                if (f(s.asArray()[i], i)) return {Serie(1, Array{s.asArray()[i]}), Serie(1, Array{(double)i})};
            return {};
        }
        case T_FOREACH: {
            CEach f(b);
            each(s, [&](const Array &x, uint32_t i) { f(x[0], i); });
            return {};
        }
        case T_CUT: {
            CPred p(b);
            // what cut gives is C17's concern: only the calls are compared
            each(s, [&](const Array &x, uint32_t i) { p(x[0], i); });
            return {};
        }
        case T_CHECK: {
            CPred p(b);
            Array r;
            each(s, [&](const Array &x, uint32_t i) { r.push_back(p(x[0], i) ? 1.0 : 0.0); });
            return {Serie(1, r), {}};
        }
        case T_NUMBERS: {
            double x = s.asArray().empty() ? 1.5 : s.asArray()[0];
            for (int i = 0; i < 3; i++) x = Num(b + i)(x);
            return {Serie(1, Array{x}), {}};
        }
        default: return {run(Take(b)(Data{s, *in.b, 2.5}), b + 1, 1), {}};
        }
    });
}
// the reference's form of a real result
bool same_result(int t, const Outcome &want, const Outcome &got) {
    if (want.ok != got.ok) return false;
    if (!want.ok) return want == got;
    Words w = want.w;
    w.pop_back(); // the second series' count; it is 0 or, with find, handled here
    switch (t) {
    case T_FOREACH: return got.w.empty();
    case T_CUT: return true;
    case T_MFR: case T_REDUCE: case T_NUMBERS: return got.w.size() == 1 && w.size() == 3 && got.w[0] == w[2];
    case T_FIND: {
        if (want.w.size() == 2) return got.w.size() == 1 && got.w[0] == 0;
        Words x;
        put(x, (u64)1);
        x.push_back(want.w[2]);
        double i;
        memcpy(&i, &want.w[5], 8);
        put(x, (u64)i);
        return got.w == x;
    }
    default: return got.w == w;
    }
}

struct Slot {
    std::unique_ptr<Any> p;
    int t = 0, base = 0;
    bool copied = false, original_gone = false, used = false, failed = false, concurrent = false;
};
struct Step {
    int thread, kind, slot, other, t, in;
    u64 v;
    i64 fail;
    int mode, yields;
};

Input input(int t, const Serie *pool, int in) {
    // 0,1,4 scalars; 2,3,5 arrays
    static const int sc[] = {0, 1, 4}, ar[] = {2, 3, 5};
    if (any_input(t)) return {&pool[in % POOL], &pool[(in + 1) % POOL]};
    if (wants_arrays(t)) return {&pool[ar[in % 3]], &pool[0]};
    return {&pool[sc[in % 3]], &pool[2]};
}
void compare(const char *what, int t, const Step &o, const Rec &want, const Rec &got, const Outcome &w, const Outcome &g, bool fired) {
    Off off;
    size_t n = std::min(want.ev.size(), got.ev.size());
    for (size_t i = 0; i < n; i++)
        if (!(want.ev[i] == got.ev[i])) {
            bool order = want.ev[i].id != got.ev[i].id;
            sim::violation(order ? "wrong-order" : "wrong-input", "%s: call %zu should be of stage %d with input %llx, is of stage %d with input %llx", what, i + 1, want.ev[i].id, (unsigned long long)want.ev[i].in, got.ev[i].id, (unsigned long long)got.ev[i].in);
        }
    if (fired && !g.ok && g.oom && !got.thrown) {
        if (got.ev.size() > want.ev.size()) sim::violation("extra-call", "%s: %zu calls, at most %zu expected", what, got.ev.size(), want.ev.size());
        sim::probe(P_OOM);
        return;
    }
    if (want.ev.size() != got.ev.size()) sim::violation(got.ev.size() > want.ev.size() ? "extra-call" : "missing-call", "%s: %zu calls of stages, expected %zu", what, got.ev.size(), want.ev.size());
    if (!same_result(t, w, g)) sim::violation("wrong-result", "%s: expected %s, got %s", what, w.str().c_str(), g.str().c_str());
    if (got.thrown) sim::probe(P_THROW);
    sim::log(g.hash() + got.ev.size());
}

// An operation made from a series (or number), which owns it: the source is changed and destroyed before the operation is used
template <class Arg, class Make, class Direct>
void bound(const char *what, const Arg &arg, const Serie &s, u64 mode, Make &&mk, Direct &&direct) {
    Outcome w = outcome_of([&] { return direct(arg, s); });
    auto source = [&] {
        Off off;
        return std::make_unique<Arg>(arg);
    }();
    auto use = [&](auto op) {
        {
            Off off;
            if constexpr (std::is_same_v<Arg, Serie>) {
                for (double &x : source->asArray()) x = -7;
                *source = Serie(1, Array(3, 2.0));
            } else
                *source = -7;
            source.reset();
        }
        Outcome g[4];
        g[0] = outcome_of([&] { return op(s); });
        {
            auto copy = op;
            g[1] = outcome_of([&] { return copy(s); });
            auto moved = std::move(copy);
            g[2] = outcome_of([&] { return moved(s); });
        }
        g[3] = outcome_of([&] { return op(s); });
        Off off;
        for (auto &x : g)
            if (!(x == w)) sim::violation("wrong-result", "%s made into an operation, then applied: expected %s, got %s", what, w.str().c_str(), x.str().c_str());
    };
    if (mode & 1)
        use(mk(std::move(*source)));
    else
        use(mk((const Arg &)*source));
    Off off;
    sim::probe(P_BOUND);
    sim::log(w.hash());
}
#define BOUND(NAME, SPACE, ARG)                                                                                                                                      \
    bound(#NAME, ARG, b, mode, [](auto &&x) { return SPACE::make_##NAME(std::forward<decltype(x)>(x)); }, [](const auto &x, const Serie &y) { return SPACE::NAME(x, y); })
void bound_any(int kind, const Serie &a, const Serie &b, double d, u64 mode) {
    switch (kind) {
    case B_ADD: return BOUND(add, math, a);
    case B_MULT: return BOUND(mult, math, a);
    case B_DIV: return BOUND(div, math, a);
    case B_DIVNUM: return BOUND(div, math, d);
    case B_EQUALS: return BOUND(equals, math, a);
    case B_CROSS: return BOUND(cross, algebra, a);
    case B_DOT: return BOUND(dot, algebra, a);
    case B_COVARIANCE: return BOUND(covariance, stats, a);
    case B_ZIP: return BOUND(zip, utils, a);
    default: return BOUND(concat, utils, a);
    }
}

void exec(const Plan &p) {
    std::vector<Step> steps;
    int nt = 1, n = 3, vk = 0;
    u64 seed = 1;
    int st[SHARED] = {};
    Serie pool[POOL];
    Slot shared[SHARED];
    std::set<const void *> live_stages;
    std::vector<Model> before;
    int longest = 0;
    {
        Off off;
        for (auto &r : recs) r = nullptr;
        alive = &live_stages;
        for (const auto &o : p.ops)
            if (o.kind == O_STEP) {
                steps.push_back({(int)o.mod(0, 4), (int)o.mod(1, S_KINDS), (int)o.mod(2, SLOTS), (int)o.mod(3, SLOTS), (int)o.mod(4, T_COUNT), (int)o.mod(5, POOL), (u64)o.at(6), (i64)o.mod(7, 200), (int)o.mod(8, 6), (int)o.mod(9, 4)});
                nt = std::max(nt, steps.back().thread + 1);
            } else {
                n = 1 + (int)o.mod(0, 80000);
                seed = (u64)o.at(1);
                vk = (int)o.mod(2, V_KINDS);
                for (int i = 0; i < SHARED; i++) st[i] = (int)o.mod(3 + i, T_COUNT);
            }
        if (nt > 1) sim::probe(P_THREADS);
        Rng r(seed);
        for (int i = 0; i < POOL; i++) {
            static const int isz[] = {1, 1, 3, 2, 1, 6};
            int k = i == 4 ? 2 * n : n;
            pool[i] = make_serie(isz[i], (uint32_t)k, 3, vk, r.next());
            before.push_back(model_of(pool[i]));
        }
    }
    auto make = [&](Slot &s, int t, int base, int mode) { // may throw bad_alloc
        Source src;
        src.mode = mode;
        Any *a = build(t, src, base);
        {
            Off off;
            s = Slot();
            s.p.reset(a);
            s.t = t;
            s.base = base;
            s.original_gone = mode == 1;
        }
        src.spoil();
        if (mode == 1) sim::probe(P_ORIGINAL_GONE);
        if (mode == 2) sim::probe(P_ORIGINAL_CHANGED);
    };
    for (int i = 0; i < SHARED; i++) make(shared[i], st[i], 100 * (i + 1), (int)(seed >> (i * 2)) % 3);
    on_threads(nt, [&](int me) {
        Slot own[OWN];
        int k = 0;
        for (size_t si = 0; si < steps.size(); si++) {
            const Step &o = steps[si];
            if (o.thread != me) continue;
            k++;
            Slot &s = o.slot < SHARED ? shared[o.slot] : own[o.slot - SHARED];
            Slot &dst = own[o.other % OWN];
            int base = 1000 * (me + 1) + 10 * (k % 50) + 300;
            bool mem = o.fail && o.mode < 4; // memory, otherwise a throwing stage
            char what[200];
            switch (o.kind) {
            case S_BOUND: bound_any(o.t % B_COUNT, pool[o.in], pool[o.v % 3 ? o.in : (int)(o.v / 3 % POOL)], (double)(o.v % 17) / 4, o.v / 64); break;
            case S_CREATE: {
                if (mem) sim::alloc_fault((u64)o.fail, o.mode & 1);
                bool threw = false;
                Outcome ex;
                try {
                    make(dst, o.t, base, (int)(o.v % 3));
                } catch (...) {
                    threw = true;
                    ex = current_exception_outcome();
                }
                u64 fired = sim::alloc_fault_end();
                Off off;
                if (threw && (!fired || !ex.oom)) sim::violation("unexpected-exception", "making a %s: %s", tnames[o.t], ex.str().c_str());
                if (threw) sim::probe(P_CREATE_OOM);
                break;
            }
            case S_COPY: {
                if (!s.p || &s == &dst) break;
                if (mem) sim::alloc_fault((u64)o.fail, o.mode & 1);
                Any *c = nullptr;
                Outcome ex;
                try {
                    c = s.p->copy();
                } catch (...) {
                    ex = current_exception_outcome();
                }
                u64 fired = sim::alloc_fault_end();
                {
                    Off off;
                    if (!c && (!fired || !ex.oom)) sim::violation("unexpected-exception", "copying a %s: %s", tnames[s.t], ex.str().c_str());
                    sim::probe(c ? P_COPY : P_COPY_OOM);
                    if (o.slot < SHARED && nt > 1) sim::probe(P_COPY_SHARED);
                }
                if (c) {
                    dst.p.reset(c);
                    dst.t = s.t;
                    dst.base = s.base;
                    dst.copied = true;
                    dst.used = dst.failed = false;
                }
                break;
            }
            case S_DROP:
                if (o.slot >= SHARED) s.p.reset();
                break;
            case S_RUN: {
                if (!s.p) break;
                Input in = input(s.t, pool, o.in);
                Rec want, got;
                Outcome w, g;
                int me_id = sim::self() & 63;
                {
                    Off off;
                    if (o.fail && !mem) {
                        want.throw_at = got.throw_at = o.fail % (i64)(s.t >= T_MFR ? 12 : 6);
                        want.kind = got.kind = (int)(o.v >> 8);
                    }
                    got.yields = o.yields;
                    got.own = o.slot >= SHARED;
                    recs[me_id] = &want;
                    w = reference(s.t, s.base, in);
                    recs[me_id] = &got;
                    snprintf(what, sizeof what, "%s%s%s", tnames[s.t], s.copied ? " (a copy)" : "", s.failed ? " after a failure" : "");
                }
                if (mem) sim::alloc_fault((u64)o.fail, o.mode & 1);
                g = s.p->run(in);
                u64 fired = sim::alloc_fault_end();
                compare(what, s.t, o, want, got, w, g, fired);
                Off off;
                recs[me_id] = nullptr;
                sim::probe(P_RUN);
                if (o.slot < SHARED) {
                    if (nt > 1) sim::probe(P_SHARED);
                } else {
                    if (s.used) sim::probe(P_AGAIN);
                    if (s.failed && g.ok) sim::probe(P_AFTER_FAIL);
                    if (s.copied) sim::probe(P_COPY_USED);
                    s.used = true;
                    if (!g.ok) s.failed = true;
                }
                sim::probe(s.t >= T_MAP && s.t <= T_CHECK ? P_MADE : s.t == T_COMP2 || s.t == T_COMP4 || s.t == T_COMPNEST || s.t == T_COMPTWO || s.t == T_NUMBERS ? P_COMPOSED : P_PIPED);
                if (s.t == T_PIPENEST || s.t == T_COMPNEST || s.t == T_PIPECOMP) sim::probe(P_NESTED);
                if (s.t == T_PAIR) sim::probe(P_PAIR);
                if (s.t == T_COMPTWO) sim::probe(P_TWO_ARGS);
                if (s.t == T_DATA) sim::probe(P_DATA);
                break;
            }
            default: { // pipe without an object in between
                int q = (int)(o.v % ONCE_COUNT), count = q == ONCE_PIPE1 || q == ONCE_MEMBER1 ? 1 : q == ONCE_MEMBER2 ? 2 : 3;
                const Serie &s = pool[o.in];
                int t = count == 1 ? T_PIPE1 : count == 2 ? T_COMP2 : T_PIPE3;
                Rec want, got;
                Outcome w, g;
                int me_id = sim::self() & 63;
                {
                    Off off;
                    if (o.fail && !mem) {
                        want.throw_at = got.throw_at = o.fail % 4;
                        want.kind = got.kind = (int)(o.v >> 8);
                    }
                    got.yields = o.yields;
                    recs[me_id] = &want;
                    w = reference(t, base, {&s, &s});
                    recs[me_id] = &got;
                }
                if (mem) sim::alloc_fault((u64)o.fail, o.mode & 1);
                g = result_of([&] {
                    switch (q) {
                    case ONCE_PIPE1: return df::pipe(s, SS(base));
                    case ONCE_PIPE3: return df::pipe(s, SS(base), SS(base + 1), SS(base + 2));
                    case ONCE_MEMBER1: return s.pipe(SS(base));
                    case ONCE_MEMBER2: return s.pipe(SS(base), SS(base + 1));
                    default: {
                        SS a(base), b(base + 1);
                        const SS c(base + 2);
                        return df::pipe(s, a, b, c);
                    }
                    }
                });
                u64 fired = sim::alloc_fault_end();
                compare("pipe", t, o, want, got, w, g, fired);
                Off off;
                recs[me_id] = nullptr;
                sim::probe(P_ONCE);
            }
            }
        }
        Off off;
        longest = std::max(longest, k);
        for (auto &s : own) s.p.reset();
    });
    for (auto &s : shared) s.p.reset();
    Off off;
    if (longest > 25) sim::probe(P_LONG);
    if (!live_stages.empty()) sim::violation("not-destroyed", "%zu stages exist after all pipelines are gone", live_stages.size());
    for (int i = 0; i < POOL; i++)
        if (!(model_of(pool[i]) == before[i])) sim::violation("input-changed", "the series %d was %s, is %s", i, before[i].str().c_str(), model_of(pool[i]).str().c_str());
}

const char *op_name(int k) { return k == O_SERIES ? "start(count,seed,values,pipeline,pipeline,pipeline)" : "step(thread,kind,slot,otherSlot,pipeline,series,variant,failingAt,mode,yields)"; }

} // namespace

sim::Harness sim::harness = {"C18", gen, exec, op_name,
                             {"pipeline run", "stage threw", "out of memory", "pipeline copied", "copy out of memory", "creation out of memory", "copy run", "stages destroyed after creation", "stages changed after creation", "pipeline run again",
                              "pipeline run after a failure", "shared pipeline", "several threads", "shared pipeline copied", "pipe on the spot", "made operation", "composition", "pipeline", "nested pipeline", "pipeline through a pair", "long history", "function of two arguments", "structure", "operation bound to a series"}};
