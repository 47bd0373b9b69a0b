// C02: a failing parallel job is reported, never hidden or half-assembled.
#include "common.h"
#include <system_error>
#include <algorithm>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/parallel_execute.h>

using namespace h;

enum { O_SERIE, O_EXEC, O_FAIL };
enum { P_STD, P_FOREIGN, P_COUNT, P_ISIZE, P_SEVERAL, P_LATE_PART_FIRST, P_OOM, P_OOM_RESULT, P_NOTHREAD, P_NOTHREAD_RESULT, P_CONCURRENT, P_AFTER_FAILURE, P_NESTED, P_ONE_CORE, P_FIRST_PART_SLOW };

namespace {

// how a job fails at an item
enum { K_STD, K_FOREIGN, K_INT, K_BADALLOC, K_LOGIC, K_COUNT_LESS, K_COUNT_MORE, K_COUNT_ZERO, K_ISIZE, K_LONG, K_EMPTY, K_TEXT, K_SYSTEM, K_KINDS };
bool misfit(int k) { return k >= K_COUNT_LESS && k <= K_ISIZE; }

struct Fail {
    u64 item;
    int kind;
    i64 id;
};
struct Exec {
    int thread, slot;
    unsigned n, nested;
    int delay;
    u64 seed;
    int fault;      // 0 none, 1 allocation, 2 thread start
    u64 fault_at;
    bool persistent;
    std::vector<Fail> fails; // by item
    // progress of the jobs
    int running = 0;
    bool closed = false;
    u64 calls = 0;
    std::vector<u64> failed_order; // items, in the order in which the jobs failed
    std::string label() const {
        std::string s = "parallel_execute on " + std::to_string(n) + " cores (nested " + std::to_string(nested) + "), failing at";
        for (auto &f : fails) s += " item " + std::to_string(f.item) + " kind " + std::to_string(f.kind);
        if (fault) s += fault == 1 ? ", allocation fails" : ", thread start fails";
        return s;
    }
};

struct LogicFailure : std::logic_error {
    explicit LogicFailure(i64 id) : std::logic_error("logic failure " + std::to_string(id)) {}
};

// much longer than usual, with characters that mean something to some
std::string long_text(i64 id) {
    std::string s = "%s%n job\n" + std::to_string(id) + "\t\xc3\xa9 ";
    while (s.size() < 3000) s += "detail " + std::to_string(s.size()) + ", ";
    return s + " end of " + std::to_string(id);
}
const char *const the_text = "just a text";

struct Running { // also on the exceptional path
    Exec *e;
    explicit Running(Exec *x) : e(x) {
        Off off;
        if (e->closed) sim::violation("job-after-return", "%s: a job starts after the call has ended", e->label().c_str());
        e->running++;
        e->calls++;
    }
    ~Running() {
        Off off;
        if (e->closed) sim::violation("job-after-return", "%s: a job was still running when the call ended", e->label().c_str());
        e->running--;
    }
};

struct Job {
    Exec *e;
    bool inner;
    df::Serie operator()(const df::Serie &s) const {
        Running run(e);
        u64 first = 0;
        const Fail *f = nullptr;
        {
            Off off;
            if (s.count()) first = (u64)s.asArray()[0] / s.itemSize();
            for (auto &x : e->fails)
                if (x.item >= first && x.item < first + s.count() && (!f || x.item < f->item)) f = &x;
        }
        if (e->delay) {
            u64 x;
            {
                Off off;
                x = sim::mix64(e->seed, first);
            }
            if (e->delay == 1 && (x & 1)) sim::sleep_ns(x % 5000000);
            if (e->delay == 2) sim::sleep_ns(f ? 0 : 1000000000); // healthy jobs are slow
            if (e->delay == 3) sim::sleep_ns(f ? 2000000000 - first * 1000 : 0); // failing ones are slow, the later ones fail first
        }
        df::Serie r(2, s.count(), s.dimension());
        for (uint32_t i = 0; i < s.count(); i++) {
            double x = s.get<Array>(i)[0];
            r.set(i, Array{x * 2, -x});
        }
        if (!f) return r;
        {
            Off off;
            sim::fired(misfit(f->kind) ? sim::F_BAD_RESULT : sim::F_CALLBACK);
            if (!inner) e->failed_order.push_back(f->item);
        }
        switch (f->kind) {
        case K_STD: throw StdThrown(f->id);
        case K_FOREIGN: throw Thrown{f->id};
        case K_INT: throw (int)f->id;
        case K_BADALLOC: throw std::bad_alloc();
        case K_LOGIC: throw LogicFailure(f->id);
        case K_LONG: throw std::runtime_error(long_text(f->id));
        case K_EMPTY: throw std::domain_error("");
        case K_TEXT: throw the_text;
        case K_SYSTEM: throw std::system_error(std::make_error_code(std::errc::io_error), "io of job " + std::to_string(f->id));
        case K_COUNT_LESS: return df::Serie(2, s.count() - 1);
        case K_COUNT_MORE: return df::Serie(2, s.count() + 1);
        case K_COUNT_ZERO: return df::Serie(2, 0);
        default: return df::Serie(3, s.count());
        }
    }
};
struct Nested {
    Exec *e;
    df::Serie operator()(const df::Serie &s) const {
        Job in{e, true};
        return df::utils::parallel_execute(in, s, e->nested);
    }
};

void gen(Rng &r, Plan &p) {
    int ns = 1 + r.below(2);
    for (int i = 0; i < ns; i++) p.add(O_SERIE, {1 + (i64)r.below(3), r.chance(6) ? 0 : r.chance(2) ? r.range(60, 1500) : 1 + r.small(r.chance(10) ? 60 : 16), (i64)r.below(4)});
    bool global = r.chance(45);
    int nt = global || r.chance(60) ? 1 : 2 + r.below(2);
    int ops = 1 + r.below(3);
    for (int i = 0; i < ops; i++) {
        i64 n = r.chance(8) ? 1 : r.chance(85) ? r.range(2, 6) : r.chance(95) ? r.range(2, 20) : r.range(20, 70);
        i64 fault = global && r.chance(75) ? 1 + (i64)r.chance(35) : 0;
        i64 at = fault == 2 ? (i64)r.below(8) : r.chance(30) ? (i64)r.below(12) : (i64)r.below(400);
        p.add(O_EXEC, {(i64)r.below(nt), (i64)r.below(ns), n, r.chance(12) ? r.range(1, 3) : 0, (i64)r.below(4), (i64)(r.next() >> 1), fault, at, (i64)r.chance(40)});
        int nf = fault && r.chance(70) ? 0 : r.chance(15) ? 0 : r.chance(50) ? 1 : 2 + r.below(3);
        for (int k = 0; k < nf; k++) p.add(O_FAIL, {(i64)r.below(64), (i64)r.below(K_KINDS), (i64)r.below(1000)});
    }
}

struct Live {
    u64 blocks, bytes;
    Live() { sim::live(&blocks, &bytes); }
};

void exec(const Plan &p) {
    std::vector<df::Serie> series;
    std::vector<Model> models;
    std::vector<Exec> ex;
    int nt = 1;
    bool any_global = false;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_SERIE) {
                int is = 1 + (int)o.mod(0, 4);
                uint32_t c = (uint32_t)o.mod(1, 2000);
                Array a((size_t)is * c);
                for (size_t i = 0; i < a.size(); i++) a[i] = (double)i;
                series.emplace_back(is, a, (unsigned)o.mod(2, 5));
            }
        if (series.empty()) series.emplace_back(1, Array{0, 1, 2, 3}, 3);
        for (auto &s : series) models.push_back(model_of(s));
        u64 threads = sim::MAX_THREADS - 30;
        bool skip = false;
        for (const auto &o : p.ops) {
            if (o.kind == O_EXEC) {
                Exec e;
                e.thread = (int)o.mod(0, 3);
                e.slot = (int)o.mod(1, series.size());
                e.n = 1 + (unsigned)((o.at(2) < 1 ? 0 : o.at(2) - 1) % 110);
                e.nested = (unsigned)o.mod(3, 4);
                e.delay = (int)o.mod(4, 4);
                e.seed = (u64)o.at(5);
                e.fault = (int)o.mod(6, 3);
                e.fault_at = o.mod(7, 100000);
                e.persistent = o.at(8) & 1;
                u64 cost = std::min<u64>(e.n, models[e.slot].count) * (1 + e.nested) * 5; // it may be made so often
                skip = cost > threads;
                if (skip) continue;
                threads -= cost;
                any_global |= e.fault != 0;
                nt = std::max(nt, e.thread + 1);
                ex.push_back(e);
            } else if (o.kind == O_FAIL && !ex.empty() && !skip) {
                Exec &e = ex.back();
                u64 c = models[e.slot].count;
                if (c) e.fails.push_back({o.mod(0, c), (int)o.mod(1, K_KINDS), (i64)o.mod(2, 1000)});
            }
        }
        if (any_global) { // faults of the whole process: one execution at a time
            nt = 1;
            for (auto &e : ex) e.thread = 0;
        }
        for (auto &e : ex) {
            u64 c = models[e.slot].count, parts = std::min<u64>(e.n, c);
            std::sort(e.fails.begin(), e.fails.end(), [](auto &a, auto &b) { return a.item < b.item; });
            e.fails.erase(std::unique(e.fails.begin(), e.fails.end(), [](auto &a, auto &b) { return a.item == b.item; }), e.fails.end());
            if (e.nested || parts < 2) { // sizes are checked where results are put together
                e.fails.erase(std::remove_if(e.fails.begin(), e.fails.end(), [](auto &f) { return misfit(f.kind); }), e.fails.end());
            }
            for (auto &f : e.fails) sim::probe(f.kind == K_ISIZE ? P_ISIZE : f.kind >= K_COUNT_LESS ? P_COUNT : f.kind == K_FOREIGN || f.kind == K_INT ? P_FOREIGN : P_STD);
            if (e.fails.size() > 1) sim::probe(P_SEVERAL);
            if (e.nested) sim::probe(P_NESTED);
            if (e.n == 1) sim::probe(P_ONE_CORE);
        }
        if (nt > 1) sim::probe(P_CONCURRENT);
    }
    bool failed_before = false;
    auto attempt = [&](Exec &e) -> Outcome {
        const df::Serie &s = series[e.slot];
        {
            Off off;
            e.running = 0;
            e.closed = false;
            e.calls = 0;
            e.failed_order.clear();
            u64 c = models[e.slot].count;
            if (e.fault == 1) sim::alloc_fault_all(1 + e.fault_at % (30 + 40 * std::min<u64>(e.n, c)), e.persistent);
            if (e.fault == 2) sim::thread_fault(1 + e.fault_at % (std::min<u64>(e.n, c) + 1), e.persistent);
        }
        Outcome o = outcome_of([&] {
            if (e.nested) return df::utils::parallel_execute(Nested{&e}, s, e.n);
            return df::utils::parallel_execute(Job{&e, false}, s, e.n);
        });
        u64 fired = 0;
        {
            Off off;
            if (e.fault == 1) fired = sim::alloc_fault_all_end();
            if (e.fault == 2) fired = sim::thread_fault_end();
            e.closed = true;
            if (e.running) sim::violation("job-after-return", "%s: the call ended while %d job(s) were running", e.label().c_str(), e.running);
        }
        Off off;
        // what must have happened
        const Model &m = models[e.slot];
        std::string lab = e.label();
        const Fail *first = nullptr;
        bool isize = false;
        for (auto &f : e.fails) {
            if (f.kind == K_ISIZE) {
                isize = true;
                continue;
            }
            if (!first) first = &f;
        }
        // a K_ISIZE item hides later failures of the same part; which part an item is in: balanced consecutive parts
        if (fired) sim::probe(e.fault == 1 ? P_OOM : P_NOTHREAD);
        if (o.ok) {
            if (!e.fails.empty()) {
                // all parts may have the other item size only if there are as many such items as parts
                u64 n = 0;
                for (auto &f : e.fails) n += f.kind == K_ISIZE;
                if (n < std::min<u64>(e.n, m.count)) sim::violation("failure-hidden", "%s: returned %s", lab.c_str(), o.str().c_str());
            } else {
                if (fired) sim::probe(e.fault == 1 ? P_OOM_RESULT : P_NOTHREAD_RESULT);
                df::Serie want(2, (uint32_t)m.count, (unsigned)m.dim);
                for (u64 i = 0; i < m.count; i++) {
                    want.asArray()[2 * i] = m.v[i * m.itemSize] * 2;
                    want.asArray()[2 * i + 1] = -m.v[i * m.itemSize];
                }
                Words w = words(want);
                if (w != o.w) sim::violation("wrong-result", "%s: got %s, expected %s", lab.c_str(), show(o.w).c_str(), show(w).c_str());
                if (failed_before) sim::probe(P_AFTER_FAILURE);
            }
        } else {
            failed_before = true;
            if (o.type == "unknown") sim::violation("wrong-failure", "%s: an unknown exception", lab.c_str());
            if (e.fails.empty()) {
                if (!fired) sim::violation("unexpected-failure", "%s: %s", lab.c_str(), o.str().c_str());
                if (o.type == "Thrown" || o.type == "int" || o.type == "text" || o.type == "StdThrown") sim::violation("wrong-failure", "%s: %s", lab.c_str(), o.str().c_str());
            } else if (!fired) {
                // Failures in the first failing part decide.  Parts are balanced and consecutive but where the larger ones are is the
                // library's choice: candidates are the first failing item and those that could share its part before it.
                bool ok = false;
                auto matches = [&](const Fail &f) {
                    switch (f.kind) {
                    case K_FOREIGN: return o.type == "Thrown" && o.ival == f.id;
                    case K_INT: return o.type == "int" && o.ival == (int)f.id;
                    case K_STD: return o.what.find(StdThrown(f.id).what()) != std::string::npos;
                    case K_LOGIC: return o.what.find(LogicFailure(f.id).what()) != std::string::npos;
                    case K_LONG: return o.what.find(long_text(f.id)) != std::string::npos;
                    case K_TEXT: return o.type == "text" && o.what == the_text;
                    case K_SYSTEM: return o.what.find("io of job " + std::to_string(f.id)) != std::string::npos;
                    case K_BADALLOC: return o.oom || o.what.find("bad_alloc") != std::string::npos;
                    default: return o.type != "Thrown" && o.type != "int" && o.type != "text"; // some standard exception
                    }
                };
                if (isize && o.type != "Thrown" && o.type != "int" && o.type != "text") ok = true; // the odd item size may be what is reported
                if (first && matches(*first)) ok = true;
                // an item size failure may hide the failures of later items of its part
                if (!ok && isize && first) {
                    for (auto &f : e.fails)
                        if (f.kind != K_ISIZE && matches(f)) ok = true;
                }
                if (!ok) sim::violation("wrong-failure", "%s: %s", lab.c_str(), o.str().c_str());
                if (!e.failed_order.empty() && first && e.failed_order.size() > 1 && e.failed_order[0] > first->item) sim::probe(P_LATE_PART_FIRST);
            }
        }
        if (!(model_of(s) == m)) sim::violation("input-changed", "%s: the input series is now %s", lab.c_str(), model_of(s).str().c_str());
        sim::log(o.hash());
        return o;
    };
    if (nt > 1) {
        on_threads(nt, [&](int t) {
            for (auto &e : ex)
                if (e.thread == t) attempt(e);
        });
        sim::sleep_ns(100000000000ull); // whatever still runs shows itself
        return;
    }
    for (auto &e : ex) {
        { // warm up without fault
            Exec w = e;
            w.fault = 0;
            w.fails.clear();
            w.delay = 0;
            attempt(w);
        }
        // Leaks: growth on several attempts.  Threads that still exist are no leak if their jobs are over.
        Live l0;
        attempt(e);
        Live l1;
        if (l1.blocks > l0.blocks) {
            sim::sleep_ns(100000000000ull);
            int grown = 0;
            char where[400] = "";
            Live prev;
            for (int k = 0; k < 3; k++) {
                u64 serial = sim::alloc_serial();
                attempt(e);
                sim::sleep_ns(100000000000ull);
                Live l;
                if (l.blocks > prev.blocks) {
                    grown++;
                    sim::newest_live(where, sizeof where, serial);
                }
                prev = l;
            }
            if (grown >= 2) sim::violation("leak", "%s: every failing call leaves memory behind:%s", e.label().c_str(), where);
        }
    }
    sim::sleep_ns(100000000000ull);
}

const char *op_name(int k) {
    return k == O_SERIE ? "serie(itemSize,count,dim)" : k == O_EXEC ? "parallel_execute(thread,serie,cores,nested,delay,seed,fault,at,persistent)" : "fail(item,kind,id)";
}

} // namespace

sim::Harness sim::harness = {"C02", gen, exec, op_name,
                             {"job throws a standard exception", "job throws something else", "job result with another count", "job result with another item size", "several parts fail",
                              "a later part fails first in time", "allocation failed", "allocation failed, result complete", "thread start failed", "thread start failed, result complete",
                              "concurrent executions", "success after a failure", "nested execution", "one core"}};
