// C03: all parts of a parallel execution run concurrently, each exactly once.
#include "common.h"
#include <system_error>
#include <algorithm>
#include <condition_variable>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/parallel_execute.h>
#include <mutex>

using namespace h;

enum { O_EXEC };
enum { P_BARRIER, P_CHAIN_UP, P_CHAIN_DOWN, P_SLEEP, P_NESTED, P_CROSS, P_BIG, P_FEW_ITEMS, P_THROW, P_MORE_THAN_HW, P_SPIN };

namespace {

// how the jobs of one execution depend on each other
enum { D_NONE, D_BARRIER, D_AFTER_LATER, D_AFTER_EARLIER, D_SLEEP, D_TWO_ROUNDS, D_SPIN, D_KINDS };

struct Group { // jobs that meet
    std::mutex m;
    std::condition_variable cv;
    unsigned expected = 0, started = 0, met = 0;
    std::vector<char> done;
};

struct Exec {
    int thread;
    uint32_t count;
    int itemSize;
    unsigned n, nested;
    int dep;
    u64 seed;
    bool cross; // meets the jobs of the other executions
    bool fails;
    std::shared_ptr<Group> g;
    unsigned parts() const { return (unsigned)std::min<u64>(n, count); }
    // observations
    std::vector<uint32_t> handed; // per item
    u64 calls = 0, t0 = 0, latest = 0, max_delay = 0, running = 0;
    bool closed = false;
};

const u64 SEC = 1000000000ull;

void meet(Group &g) { // all jobs have started
    std::unique_lock<std::mutex> l(g.m);
    if (++g.met == g.expected) g.cv.notify_all();
    g.cv.wait(l, [&] { return g.met >= g.expected; });
}
void meet_again(Group &g) {
    std::unique_lock<std::mutex> l(g.m);
    if (++g.met == 2 * g.expected) g.cv.notify_all();
    g.cv.wait(l, [&] { return g.met >= 2 * g.expected; });
}

struct Job {
    Exec *e;
    df::Serie operator()(const df::Serie &s) const {
        Group &g = *e->g;
        {
            Off off;
            e->calls++;
            e->running++;
            if (e->closed) sim::violation("job-after-return", "a job of an execution on %u cores starts after the call has ended", e->n);
            e->latest = std::max(e->latest, sim::now());
            for (uint32_t i = 0; i < s.count(); i++) {
                u64 item = (u64)(s.asArray()[(size_t)i * s.itemSize()]) / e->itemSize;
                if (item < e->count) e->handed[item]++;
            }
        }
        unsigned ticket;
        {
            std::unique_lock<std::mutex> l(g.m);
            ticket = g.started++;
            if (g.started == g.expected) g.cv.notify_all();
        }
        switch (e->dep) {
        case D_BARRIER: meet(g); break;
        case D_TWO_ROUNDS:
            meet(g);
            meet_again(g);
            break;
        case D_AFTER_LATER: // ends after the job that started next
            if (ticket + 1 < g.expected) {
                std::unique_lock<std::mutex> l(g.m);
                g.cv.wait(l, [&] { return g.done[ticket + 1] != 0; });
            }
            break;
        case D_AFTER_EARLIER: { // waits for all to have started, then for the one before
            std::unique_lock<std::mutex> l(g.m);
            g.cv.wait(l, [&] { return g.started >= g.expected; });
            if (ticket > 0) g.cv.wait(l, [&] { return g.done[ticket - 1] != 0; });
            break;
        }
        case D_SLEEP: {
            u64 d;
            {
                Off off;
                d = (sim::mix64(e->seed, ticket) % 4) * SEC;
                e->max_delay = std::max(e->max_delay, d);
            }
            if (d) sim::sleep_ns(d);
            break;
        }
        case D_SPIN: // polls for the others
            for (;;) {
                {
                    std::lock_guard<std::mutex> l(g.m);
                    if (g.started >= g.expected) break;
                }
                std::this_thread::yield();
            }
            break;
        default: break;
        }
        df::Serie r(s);
        {
            std::unique_lock<std::mutex> l(g.m);
            if (ticket < g.done.size()) g.done[ticket] = 1;
            if (e->dep == D_AFTER_LATER || e->dep == D_AFTER_EARLIER) g.cv.notify_all();
        }
        bool fail = e->fails && ticket == 0;
        {
            Off off;
            if (e->closed) sim::violation("job-after-return", "a job of an execution on %u cores was running when the call ended", e->n);
            e->running--;
            if (fail) sim::fired(sim::F_CALLBACK);
        }
        if (fail) switch (e->seed / 8 % 8) {
            case 0: throw std::bad_alloc();
            case 1: throw Thrown{1};
            case 2: throw 1;
            case 3: throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
            case 4: throw std::logic_error("job");
            default: throw StdThrown(1);
            }
        return r;
    }
};
struct Outer { // every part is executed in parallel again, and all the inner jobs meet
    Exec *e;
    df::Serie operator()(const df::Serie &s) const { return df::utils::parallel_execute(Job{e}, s, e->nested); }
};

void gen(Rng &r, Plan &p) {
    int nt = r.chance(60) ? 1 : 2 + r.below(2);
    int ops = nt == 1 ? 1 + r.below(3) : nt + r.below(2);
    bool big = r.chance(6);
    for (int i = 0; i < ops; i++) {
        i64 n = big && r.chance(10) ? r.range(71, 550) : big ? r.range(40, 70) : r.chance(10) ? 1 : r.chance(80) ? r.range(2, 6) : r.range(5, 24);
        i64 c = n > 70 ? r.range(71, 700) : big ? r.range(30, 120) : r.chance(5) ? 0 : 1 + r.small(20);
        p.add(O_EXEC, {nt == 1 ? 0 : (i64)(i < nt ? i : (i64)r.below(nt)), c, 1 + (i64)r.below(3), n, r.chance(15) ? r.range(2, 3) : 0, (i64)r.below(D_KINDS), (i64)(r.next() >> 1), (i64)r.chance(50), (i64)r.chance(12)});
    }
}

void exec(const Plan &p) {
    std::vector<Exec> ex;
    std::vector<df::Serie> in;
    int nt = 1;
    {
        Off off;
        unsigned budget = sim::MAX_THREADS - 40;
        for (const auto &o : p.ops) {
            Exec e;
            e.thread = (int)o.mod(0, 3);
            e.count = (uint32_t)o.mod(1, 720);
            e.itemSize = 1 + (int)o.mod(2, 3);
            e.n = 1 + (unsigned)((o.at(3) < 1 ? 0 : o.at(3) - 1) % 560);
            e.nested = (unsigned)o.mod(4, 4);
            e.dep = (int)o.mod(5, D_KINDS);
            e.seed = (u64)o.at(6);
            e.cross = o.at(7) & 1;
            e.fails = o.at(8) & 1;
            if (e.nested == 1) e.nested = 0;
            if (e.parts() * (e.nested ? e.nested + 1 : 1) > 60) e.nested = 0;
            if (e.parts() > 80) { // too many for waits that wake everyone each time
                e.cross = false;
                if (e.dep != D_NONE && e.dep != D_SLEEP) e.dep = D_BARRIER;
            }
            unsigned cost = e.parts() * (e.nested ? e.nested + 1 : 1);
            if (cost > budget) continue;
            budget -= cost;
            e.handed.assign(e.count, 0);
            nt = std::max(nt, e.thread + 1);
            ex.push_back(e);
        }
        // the first executions of all threads start together: those marked so meet in one group
        std::vector<int> firsts;
        for (int t = 0; t < nt; t++)
            for (size_t i = 0; i < ex.size(); i++)
                if (ex[i].thread == t) {
                    firsts.push_back((int)i);
                    break;
                }
        std::shared_ptr<Group> common;
        unsigned members = 0;
        for (int i : firsts)
            if (ex[i].cross && ex[i].count) members++;
        for (auto &e : ex) {
            Array a((size_t)e.count * e.itemSize);
            for (size_t i = 0; i < a.size(); i++) a[i] = (double)i;
            in.emplace_back(e.itemSize, a);
            e.g = std::make_shared<Group>();
            unsigned jobs = 0;
            if (e.nested) { // inner jobs
                for (unsigned k = 0; k < e.parts(); k++) {
                    unsigned size = e.count / e.parts() + (k < e.count % e.parts() ? 1 : 0);
                    jobs += std::min(size, e.nested);
                }
            } else
                jobs = e.parts();
            if (e.count == 0) jobs = 1;
            e.g->expected = jobs;
            e.g->done.assign(jobs, 0);
            if (e.nested) sim::probe(P_NESTED);
            if (e.parts() >= 32) sim::probe(P_BIG);
            if (e.count < e.n) sim::probe(P_FEW_ITEMS);
            if (e.count == 0) e.dep = D_NONE; // nothing to hand out
            if (e.dep == D_BARRIER || e.dep == D_TWO_ROUNDS) sim::probe(P_BARRIER);
            if (e.dep == D_AFTER_LATER) sim::probe(P_CHAIN_UP);
            if (e.dep == D_AFTER_EARLIER) sim::probe(P_CHAIN_DOWN);
            if (e.dep == D_SLEEP) sim::probe(P_SLEEP);
            if (e.dep == D_SPIN) sim::probe(P_SPIN);
            if (e.fails) sim::probe(P_THROW);
        }
        if (members >= 2) {
            common = std::make_shared<Group>();
            for (int i : firsts)
                if (ex[i].cross && ex[i].count) common->expected += ex[i].g->expected;
            common->done.assign(common->expected, 0);
            for (int i : firsts)
                if (ex[i].cross && ex[i].count) {
                    ex[i].g = common;
                    ex[i].dep = ex[firsts[0]].cross ? ex[firsts[0]].dep : D_BARRIER;
                    if (ex[i].dep == D_SLEEP || ex[i].dep == D_NONE) ex[i].dep = D_BARRIER;
                    sim::probe(P_CROSS);
                }
            // all members depend in the same way
            int dep = -1;
            for (int i : firsts)
                if (ex[i].g == common) {
                    if (dep < 0) dep = ex[i].dep;
                    ex[i].dep = dep;
                }
        }
    }
    if (std::thread::hardware_concurrency() > 0)
        for (auto &e : ex)
            if (e.parts() > std::thread::hardware_concurrency()) sim::probe(P_MORE_THAN_HW);
    on_threads(nt, [&](int t) {
        for (size_t i = 0; i < ex.size(); i++) {
            Exec &e = ex[i];
            if (e.thread != t) continue;
            {
                Off off;
                e.t0 = e.latest = sim::now();
            }
            Outcome o = outcome_of([&] {
                if (e.nested && e.count) return df::utils::parallel_execute(Outer{&e}, in[i], e.n);
                return df::utils::parallel_execute(Job{&e}, in[i], e.n);
            });
            Off off;
            e.closed = true;
            u64 end = sim::now();
            if (e.running) sim::violation("job-after-return", "the call on %u cores ended while %llu job(s) were running", e.n, (unsigned long long)e.running);
            if (e.count) {
                unsigned want = 0;
                for (uint32_t k = 0; k < e.count; k++)
                    if (e.handed[k] != 1) sim::violation("item-count", "item %u of %u was handed to %u jobs (%u cores, nested %u)", k, e.count, e.handed[k], e.n, e.nested);
                if (e.nested)
                    for (unsigned k = 0; k < e.parts(); k++) want += std::min(e.count / e.parts() + (k < e.count % e.parts() ? 1 : 0), e.nested);
                else
                    want = e.parts();
                if (e.calls != want) sim::violation("job-count", "%llu jobs for %u items on %u cores (nested %u), expected %u", (unsigned long long)e.calls, e.count, e.n, e.nested, want);
                if (e.dep == D_SLEEP) {
                    if (e.latest - e.t0 > SEC / 2)
                        sim::violation("late-start", "a job started %.2f s (simulated) after the call although only other jobs were busy", (double)(e.latest - e.t0) / 1e9);
                    if (end - e.t0 > e.max_delay + SEC / 2)
                        sim::violation("late-end", "the call took %.2f s (simulated), its slowest job %.2f s", (double)(end - e.t0) / 1e9, (double)e.max_delay / 1e9);
                }
            }
            bool must_fail = false;
            // the job with ticket 0 fails
            if (e.fails && e.count && !e.cross) must_fail = true;
            if (must_fail && o.ok) sim::violation("failure-hidden", "an execution with a failing job returned");
            if (!e.fails && !o.ok) sim::violation("unexpected-failure", "%s", o.str().c_str());
            if (o.ok && o.w != words(in[i])) sim::violation("wrong-result", "expected %s, got %s", show(words(in[i])).c_str(), show(o.w).c_str());
            sim::log(o.hash());
        }
    });
}

const char *op_name(int) { return "parallel_execute(thread,count,itemSize,cores,nested,dependence,seed,cross,fails)"; }

} // namespace

sim::Harness sim::harness = {"C03", gen, exec, op_name,
                             {"all jobs wait for all", "jobs end in the reverse order of their start", "jobs end in the order of their start", "jobs of different durations", "nested executions that meet",
                              "concurrent executions that meet", "32 parts or more", "fewer items than cores", "a job fails", "more parts than processors", "jobs poll for the others"}};
