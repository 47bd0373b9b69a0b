// C20: nothing accumulates, however often a history is repeated.
#include "ops_func.cpp" // in one unit with parallel_execute.h: some functions of the headers are not inline
#include "frame.h"
#include "memo.h"
#include <dataframe/attributes/Decomposer.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/math/random.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/parallel_execute.h>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>
#include <sstream>
using namespace h;

namespace {

enum { O_FAMILY, O_FRAME, O_CALL, O_ROUNDS };
enum { K_NUMERIC, K_FUNC, K_QUERY, K_PARALLEL, K_MEMO, K_STREAM, K_RANDOM, K_SERIES, K_FRAME, K_VIEW, K_MANAGER, K_PIPE, K_KINDS };
enum { FT_NONE, FT_ALLOC, FT_ALLOC_PERSISTENT, FT_THROW, FT_THREAD };
enum { P_THREADS, P_MANY, P_OOM, P_THROW, P_NOTHREAD, P_ERROR, P_HUGE, P_KIND }; // P_KIND..P_KIND+K_KINDS-1
const char *const kind_names[] = {"numeric operation", "functional operation", "query", "parallel execution", "memoized function", "output", "random series", "history of a series", "history of a dataframe", "vectors and matrices", "history of a manager", "pipeline"};

void gen(Rng &r, Plan &p) {
    static const int isz[] = {1, 1, 2, 3, 3, 4, 6, 9};
    bool huge = r.rare(1500), many = !huge && r.chance(6);
    if (huge || many) p.scale = 30;
    p.add(O_FAMILY, {huge ? 1 + (i64)r.below(3) : isz[r.below(8)], huge ? r.range(1000, 2500) : r.chance(6) ? 0 : 1 + r.small(r.chance(10) && !many ? 40 : 8), r.chance(60) ? 3 : r.chance(70) ? 2 : (i64)r.below(5),
                     r.chance(50) ? (i64)V_UNIFORM : (i64)r.below(V_KINDS), (i64)(r.next() >> 1)});
    p.add(O_FRAME, {r.chance(6) ? 0 : 1 + r.small(5), r.chance(40) ? 2047 : (i64)r.below(2048), (i64)(r.next() >> 1), r.chance(40) ? 255 : (i64)r.below(256), (i64)(r.next() >> 1)});
    p.add(O_ROUNDS, {many ? 2 + (i64)r.below(2) : (i64)r.chance(15)});
    int nt = huge || many || r.chance(60) ? 1 : 2 + r.below(2);
    int n = huge || many ? 1 : nt == 1 ? 1 + r.below(4) : nt + r.below(2);
    bool faults = r.chance(50);
    for (int i = 0; i < n; i++) {
        int k = r.chance(45) ? (int)r.below(3) : (int)r.below(K_KINDS);
        i64 op = k == K_NUMERIC ? (i64)r.below(numeric_ops()) : k == K_FUNC ? (i64)r.below(func_ops()) : (i64)r.below(1000);
        i64 ft = !faults || r.chance(50) ? (i64)FT_NONE : k == K_PARALLEL ? 1 + (i64)r.below(4) : (k == K_FUNC || k == K_QUERY) && r.chance(40) ? (i64)FT_THROW : r.chance(70) ? (i64)FT_ALLOC : (i64)FT_ALLOC_PERSISTENT;
        p.add(O_CALL, {i < nt ? (i64)i : (i64)r.below(nt), k, op, (i64)(r.next() >> 1), ft, r.small(r.chance(20) ? 300 : 30), (i64)r.below(ANY_KINDS)});
    }
}

struct Item {
    int thread, cat, op, ft, kind;
    u64 v, at;
    bool have = false;
    Outcome first; // of the first round
    std::string name;
};

struct Job {
    u64 v;
    i64 fail; // the part that starts at this item fails
    int kind;
    df::Serie operator()(const df::Serie &s) const {
        df::Serie r(s);
        for (uint32_t i = 0; i < r.size(); i++) r.setScalar(i, r.get<double>(i) * 2 + (double)(v % 7));
        if (fail >= 0 && s.size() && (u64)fail == sim::bits(s.get<double>(0)) % 3) throw_any((u64)kind, fail);
        return r;
    }
};
df::Serie twice(const df::Serie &s) {
    df::Serie r(s);
    for (uint32_t i = 0; i < r.size(); i++) r.setScalar(i, r.get<double>(i) + r.get<double>(i));
    return r;
}
df::Serie picky(const df::Serie &s) {
    u64 x = hash_words(words(s));
    if (x % 5 == 0) throw std::runtime_error("no value for this series, and a text long enough to need memory");
    return twice(s);
}
df::Serie memoized(const df::Serie &s) {
    u64 x = 0;
    for (double d : s.asArray()) x = sim::mix64(x ^ sim::bits(d));
    if (x % 6 == 1) throw std::runtime_error("no value for this series, and a text long enough to need memory");
    return twice(s);
}
using Memo = decltype(df::utils::memoize(memoized));

struct Round { // what a history makes for itself
    df::Dataframe d;
    std::unique_ptr<df::Manager> mng;
    Memo memo = df::utils::memoize(memoized);
};

Outcome series_history(const Item &it, const Family &f) {
    return outcome_of([&] {
        Rng r(it.v);
        df::Serie a = f.s[r.below(SL_COUNT)], b(f.s[r.below(SL_COUNT)]);
        df::Series list;
        Words w;
        int n = 1 + (int)r.below(8);
        for (int i = 0; i < n; i++) try {
                switch (r.below(10)) {
                case 0: a = b; break;
                case 1: b = a.clone(); break;
                case 2: a.reCount((uint32_t)r.below(20)); break;
                case 3: a.setValue((uint32_t)r.below(12), Array(1 + r.below(4), 2.5)); break;
                case 4: a.setScalar((uint32_t)r.below(30), 7); break;
                case 5: list.push_back(a); break;
                case 6: a = df::Serie((int)r.below(4), (uint32_t)r.below(9)); break;
                case 7: a = a; break;
                case 8: std::swap(a, b); break;
                default: put(w, a.value((uint32_t)r.below(12))); break;
                }
            } catch (const std::exception &e) {
                if (dynamic_cast<const std::bad_alloc *>(&e)) throw;
                put(w, std::string(e.what()));
            }
        return std::make_tuple(w, a, b, list);
    });
}
Outcome frame_history(const Item &it, const Family &f) {
    return outcome_of([&] {
        Rng r(it.v);
        df::Dataframe d((uint32_t)r.below(2) * 3);
        const df::Dataframe &cd = d;
        Words w;
        static const char *const names[] = {"a", "b", "positions", "a rather long name for a series", "", "U"};
        int n = 1 + (int)r.below(10);
        for (int i = 0; i < n; i++) {
            const std::string name = names[r.below(6)];
            const df::Serie &s = f.s[r.below(SL_COUNT)];
            switch (r.below(10)) {
            case 0:
            case 1: d.add(name, s); break;
            case 2: d.set(name, s); break;
            case 3: d.create(name, 1 + (uint32_t)r.below(3), (uint32_t)r.below(9)); break;
            case 4: d.del(name); break;
            case 5: d.setCount((uint32_t)r.below(12)); break;
            case 6: put(w, d.contains(name)); break;
            case 7: put(w, cd.get(name)); break;
            case 8: put(w, d.contains(s)); break;
            default:
                if (r.chance(30)) d.clear();
                break;
            }
        }
        for (const auto &x : d.series()) {
            put(w, x.first);
            put(w, x.second);
        }
        return w;
    });
}
Outcome view_history(const Item &it) {
    return outcome_of([&] {
        Rng r(it.v);
        size_t n = 1 + r.below(3);
        Array x = gen_array(r.next(), V_UNIFORM, n), y = gen_array(r.next(), V_UNIFORM, n);
        df::Vector a(x), b(y);
        df::Matrix m = df::squaredMatrix(gen_array(r.next(), V_UNIFORM, n * n));
        df::Matrix m2(m);
        Words w;
        a.add(b).mult(2);
        put(w, a.norm());
        put(w, b.dot(a));
        put(w, b.normalize().toString());
        put(w, m.trace());
        put(w, m.transpose().array().array());
        put(w, m.multVec(b).array());
        put(w, m.multMat(m2).array().array());
        m2 = m;
        put(w, m2.isSymmetric());
        return w;
    });
}
Outcome manager_history(const Item &it, const Round &rd) {
    return outcome_of([&] {
        Rng r(it.v);
        std::unique_ptr<df::Manager> m = make_manager(rd.d, r.below(256), r.next(), nullptr, 1 + (unsigned)r.below(3));
        Words w;
        auto ask = [&] {
            for (uint32_t is : {1, 3})
                for (const auto &n : m->names(is)) {
                    put(w, n);
                    if (r.chance(30)) put(w, m->serie(is, n));
                }
        };
        if (r.chance(70)) ask();
        if (r.chance(40)) {
            m->clear();
            if (r.chance(50)) {
                std::unique_ptr<df::Decomposer> d(make_decomposer((int)r.below(DE_KINDS), nullptr));
                m->add(d.get());
                d.release();
                ask();
            }
        }
        put(w, m->nbDecomposers());
        return w;
    });
}
Outcome pipeline(const Item &it, const Family &f) {
    return outcome_of([&] {
        const df::Serie &s = f.s[it.v / 8 % SL_COUNT];
        double k = (double)(it.v % 5);
        std::string text = "what the stage owns does not fit in a few bytes";
        auto stage = [k, text](const df::Serie &x) {
            df::Serie r(x);
            for (uint32_t i = 0; i < r.size(); i++) r.setScalar(i, r.get<double>(i) + k * (double)text.size());
            return r;
        };
        Words w;
        switch (it.op % 5) {
        case 0: {
            auto p = df::make_pipe(stage, twice, picky);
            auto q = p;
            put(w, q(s));
            put(w, p(f.s[SL_S]));
            break;
        }
        case 1: {
            auto c = df::utils::compose(twice, stage);
            put(w, c(s));
            put(w, c(f.s[SL_A]));
            break;
        }
        case 2: put(w, df::pipe(s, picky, stage, twice)); break;
        case 3: {
            auto p = df::make_pipe(df::make_map([k, text](double x, uint32_t) { return x * k; }), df::make_filter([text](double x, uint32_t i) { return x > 0 || i % 2; }));
            put(w, p(f.s[SL_S]));
            put(w, p(f.s[SL_S2]));
            break;
        }
        default: {
            auto p = df::make_pipe(twice, df::utils::compose(picky, stage));
            for (int i = 0; i < 3; i++) put(w, p(f.s[(it.v / 8 + (u64)i) % SL_COUNT]));
            break;
        }
        }
        return w;
    });
}

Outcome run(const Item &it, const Family &f, Round &rd, Hook *h) {
    switch (it.cat) {
    case K_NUMERIC: return numeric(Call{it.op, it.v, h}, f);
    case K_FUNC: return functional(Call{it.op, it.v, h}, f);
    case K_QUERY: return query(it.op % queries(), it.v, rd.d, *rd.mng);
    case K_PARALLEL:
        return outcome_of([&] { return df::utils::parallel_execute(Job{it.v, it.ft == FT_THROW ? (i64)(it.at % 3) : -1, it.kind}, f.s[it.v / 8 % SL_COUNT], 1 + (unsigned)(it.op % 4)); });
    case K_MEMO:
        return outcome_of([&] {
            df::Serie a = look_alike(it.v / 64, it.v % LOOK_ALIKES);
            if (it.op % 3 == 0) {
                Memo m(rd.memo);
                return m(a);
            }
            df::Serie x = rd.memo(a);
            if (it.op % 7 == 0) rd.memo.clear_cache();
            return x;
        });
    case K_STREAM:
        return outcome_of([&] {
            std::ostringstream o;
            switch (it.op % 4) {
            case 0: o << f.s[it.v % SL_COUNT]; break;
            case 1: o << df::Series{f.s[SL_A], f.s[it.v % SL_COUNT]}; break;
            case 2: o << f.s[it.v % SL_COUNT].asArray(); break;
            default: o << Strings{"one", "a text that is rather longer than the others"}; break;
            }
            return o.str();
        });
    case K_RANDOM:
        if (it.op % 3 == 0) return outcome_of([&] { return df::math::random((uint32_t)(it.v % 9), 1 + (uint32_t)(it.v / 16 % 4), -1, 1).count(); });
        return outcome_of([&] { return df::math::random((uint32_t)(it.v % 9), 1 + (uint32_t)(it.v / 16 % 4), -1, 1, (unsigned)(it.v >> 20)); });
    case K_SERIES: return series_history(it, f);
    case K_FRAME: return frame_history(it, f);
    case K_VIEW: return view_history(it);
    case K_MANAGER: return manager_history(it, rd);
    default: return pipeline(it, f);
    }
}

void exec(const Plan &p) {
    auto fam = std::make_unique<Family>();
    std::vector<Item> items;
    std::vector<Model> fm;
    Hook shared;
    int nt = 1, rounds = 32;
    u64 bits_ = 2047, seed = 1, mk = 255, mo = 1;
    uint32_t n = 3;
    std::vector<u64> blocks, bytes;
    {
        Off off;
        bool have = false;
        for (const auto &o : p.ops) {
            if (o.kind == O_FAMILY && !have) {
                have = true;
                fill_family(*fam, 1 + (int)(o.at(0) < 1 ? 0 : (o.at(0) - 1) % 9), (uint32_t)o.mod(1, 3000), (unsigned)o.mod(2, 5), (int)o.mod(3, V_KINDS), (u64)o.at(4));
                if (fam->count >= 1000) sim::probe(P_HUGE);
            } else if (o.kind == O_FRAME) {
                n = (uint32_t)o.mod(0, 40);
                bits_ = o.mod(1, 2048);
                seed = (u64)o.at(2);
                mk = o.mod(3, 256);
                mo = (u64)o.at(4);
            } else if (o.kind == O_ROUNDS) {
                rounds = 32 << o.mod(0, 5);
            } else if (o.kind == O_CALL) {
                Item it;
                it.thread = (int)o.mod(0, 3);
                it.cat = (int)o.mod(1, K_KINDS);
                it.op = (int)o.mod(2, it.cat == K_NUMERIC ? (u64)numeric_ops() : it.cat == K_FUNC ? (u64)func_ops() : 1000);
                it.v = (u64)o.at(3);
                it.ft = (int)o.mod(4, 5);
                it.at = o.mod(5, 1 << 16);
                it.kind = (int)o.mod(6, ANY_KINDS);
                it.name = it.cat == K_NUMERIC ? numeric_name(it.op) : it.cat == K_FUNC ? func_name(it.op) : it.cat == K_QUERY ? query_name(it.op % queries()) : kind_names[it.cat];
                if (it.ft == FT_THROW && it.cat != K_FUNC && it.cat != K_QUERY && it.cat != K_PARALLEL) it.ft = FT_NONE;
                nt = std::max(nt, it.thread + 1);
                sim::probe(P_KIND + it.cat);
                items.push_back(std::move(it));
            }
        }
        if (!have) fill_family(*fam, 3, 3, 3, V_UNIFORM, 1);
        if (nt > 1) sim::probe(P_THREADS);
        for (auto &it : items) {
            if (it.ft == FT_THROW && it.cat == K_QUERY && nt > 1) it.ft = FT_NONE;
            if (it.ft == FT_THREAD && (it.cat != K_PARALLEL || nt > 1)) it.ft = FT_NONE;
        }
        if (items.size() > 8) items.resize(8);
        int threads = nt > 1 ? nt : 0; // of one repetition; the simulator has 600 for all
        for (auto &it : items)
            if (it.cat == K_PARALLEL) threads += 4;
        while (rounds > 16 && rounds * threads > 560) rounds /= 2;
        if (rounds > 100) sim::probe(P_MANY);
        fm = models_of(*fam);
        blocks.reserve(1024);
        bytes.reserve(1024);
    }
    for (int r = 0; r < rounds; r++) {
        {
            Round rd;
            fill_frame(rd.d, bits_, n, seed);
            rd.mng = make_manager(rd.d, mk, mo, nt > 1 ? nullptr : &shared);
            on_threads(nt, [&](int t) {
                for (auto &it : items) {
                    if (it.thread != t) continue;
                    Hook h;
                    if (nt == 1) shared = Hook();
                    Hook &hk = it.cat == K_QUERY && nt == 1 ? shared : h;
                    u64 fired = 0;
                    if (it.ft == FT_THROW) {
                        hk.throw_at = (i64)(it.at % 6);
                        hk.kind = it.kind;
                    } else if (it.ft == FT_ALLOC || it.ft == FT_ALLOC_PERSISTENT)
                        sim::alloc_fault(1 + it.at, it.ft == FT_ALLOC_PERSISTENT);
                    else if (it.ft == FT_THREAD)
                        sim::thread_fault(1 + it.at % 6, it.at & 8);
                    Outcome o = run(it, *fam, rd, &h);
                    bool oom = it.ft == FT_ALLOC || it.ft == FT_ALLOC_PERSISTENT;
                    if (oom)
                        fired = sim::alloc_fault_end();
                    else if (it.ft == FT_THREAD)
                        fired = sim::thread_fault_end();
                    Off off;
                    if (fired) sim::probe(oom ? P_OOM : P_NOTHREAD);
                    if (hk.thrown) sim::probe(P_THROW);
                    if (!o.ok) sim::probe(P_ERROR);
                    sim::log(o.hash());
                    if (!o.ok && fired) continue;
                    if (!it.have) {
                        it.have = true;
                        it.first = std::move(o);
                    } else if (!(it.first == o))
                        sim::violation("not-repeatable", "%s gives something else in repetition %d: expected %s, got %s%s", it.name.c_str(), r + 1, it.first.str().c_str(), o.str().c_str(),
                                       it.first.ok && o.ok ? first_diff(it.first.w, o.w).c_str() : "");
                }
            });
        }
        u64 bl, by;
        sim::live(&bl, &by);
        Off off;
        check_family(*fam, fm, "after a repetition");
        blocks.push_back(bl);
        bytes.push_back(by);
    }
    Off off;
    // more after 2, 4, 8, 16, 32 ... repetitions, every time
    bool more_bytes = true, more_blocks = true;
    for (int k = 4; k <= rounds; k *= 2) {
        more_bytes = more_bytes && bytes[k - 1] > bytes[k / 2 - 1];
        more_blocks = more_blocks && blocks[k - 1] > blocks[k / 2 - 1];
    }
    // and not less and less more: what fills up once is no leak
    auto steady = [&](const std::vector<u64> &x) { return x[rounds - 1] - x[rounds / 2 - 1] >= x[rounds / 2 - 1] - x[rounds / 4 - 1]; };
    if ((more_bytes && steady(bytes)) || (more_blocks && steady(blocks))) {
        char w[400] = "";
        sim::newest_live(w, sizeof w, 0);
        std::string all;
        for (auto &it : items) all += (all.empty() ? "" : ", ") + it.name;
        sim::violation("accumulates", "repetitions of [%s] keep memory: %llu bytes in %llu blocks after 2, %llu in %llu after 8, %llu in %llu after %d repetitions; %s", all.c_str(), (unsigned long long)bytes[1],
                       (unsigned long long)blocks[1], (unsigned long long)bytes[7], (unsigned long long)blocks[7], (unsigned long long)bytes[rounds - 1], (unsigned long long)blocks[rounds - 1], rounds, w);
    }
}

const char *op_name(int k) {
    return k == O_FAMILY ? "series(itemSize,count,dim,values,seed)" : k == O_FRAME ? "dataframe(items,series,seed,decomposers,order)" : k == O_ROUNDS ? "repetitions(32<<n)" : "call(thread,kind,operation,variant,fault,at,throwKind)";
}

} // namespace

sim::Harness sim::harness = {"C20", gen, exec, op_name,
                             {"several threads", "more than 100 repetitions", "allocation failed", "callback threw", "no thread to be had", "call that fails", "large series",
                              "numeric operation", "functional operation", "query", "parallel execution", "memoized function", "output", "random series", "history of a series", "history of a dataframe",
                              "vectors and matrices", "history of a manager", "pipeline"}};
