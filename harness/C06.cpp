// C06: concurrent queries of a dataframe and its attributes are safe.
#include "frame.h"
using namespace h;

namespace {

enum { O_FRAME, O_MANAGER, O_QUERY, O_MODE };
enum { P_CONCURRENT, P_SHAREDMANAGER, P_SEVERAL, P_BEFORE, P_AFTER, P_ALONE, P_EMPTYFRAME, P_NOMESH, P_FOUND, P_NOTFOUND, P_THROW, P_HISTORY };
enum { REF_BEFORE, REF_AFTER, REF_ALONE };

void gen(Rng &r, Plan &p) {
    p.add(O_FRAME, {r.chance(8) ? 0 : 1 + r.small(12), r.chance(40) ? 2047 : r.chance(6) ? 0 : (i64)r.below(2048), (i64)(r.next() >> 1)});
    int nm = 1 + r.below(3);
    for (int i = 0; i < nm; i++) p.add(O_MANAGER, {r.chance(50) ? 255 : (i64)r.below(256), (i64)(r.next() >> 1), r.chance(80) ? 3 : 2});
    p.add(O_MODE, {r.chance(20) ? (i64)REF_ALONE : r.chance(50) ? (i64)REF_BEFORE : (i64)REF_AFTER, (i64)(r.next() >> 1), r.chance(15) ? (i64)r.below(6) : -1, (i64)r.below(5)});
    int nt = r.chance(12) ? 1 : 2 + r.below(4), n = nt == 1 ? 2 + r.below(10) : nt + r.below(8);
    bool focus = r.chance(40);
    i64 fq = r.below(queries()), fv = (i64)(r.next() >> 1);
    for (int i = 0; i < n; i++)
        p.add(O_QUERY, {i < nt ? (i64)i : (i64)r.below(nt), (i64)r.below(nm), focus && r.chance(80) ? fq : r.chance(45) ? (i64)r.below(3) : (i64)r.below(queries()),
                        focus && r.chance(60) ? fv : (i64)(r.next() >> 1)});
}

struct Query {
    int thread, manager, q;
    u64 v;
    Outcome got, want;
    bool have = true;
};

void exec(const Plan &p) {
    auto d = std::make_unique<df::Dataframe>();
    std::vector<std::unique_ptr<df::Manager>> mngs;
    std::vector<std::array<u64, 3>> mspec;
    std::vector<Query> qs;
    FrameModel before;
    int nt = 1, mode = REF_BEFORE;
    u64 order = 0;
    i64 throw_at = -1;
    int throw_kind = 0;
    {
        Off off;
        u64 bits = 2047, seed = 1;
        uint32_t n = 4;
        for (const auto &o : p.ops) {
            if (o.kind == O_FRAME) {
                n = (uint32_t)o.mod(0, 40);
                bits = o.mod(1, 2048);
                seed = (u64)o.at(2);
            } else if (o.kind == O_MODE) {
                mode = (int)o.mod(0, 3);
                order = (u64)o.at(1);
                throw_at = o.at(2) < 0 ? -1 : (i64)o.mod(2, 50);
                throw_kind = (int)o.mod(3, 5);
            } else if (o.kind == O_MANAGER)
                mspec.push_back({o.mod(0, 256), (u64)o.at(1), 2 + o.mod(2, 2)});
        }
        if (mspec.empty()) mspec.push_back({255, 1, 3});
        fill_frame(*d, bits, n, seed);
        before = model_of(*d);
        if (n == 0) sim::probe(P_EMPTYFRAME);
        if ((bits & 3) != 3) sim::probe(P_NOMESH);
        for (const auto &o : p.ops)
            if (o.kind == O_QUERY) {
                Query q;
                q.thread = (int)o.mod(0, 5);
                q.manager = (int)o.mod(1, mspec.size());
                q.q = (int)o.mod(2, queries());
                q.v = (u64)o.at(3);
                nt = std::max(nt, q.thread + 1);
                qs.push_back(std::move(q));
            }
        if (nt > 1) sim::probe(P_CONCURRENT);
        for (auto &x : qs)
            for (auto &y : qs)
                if (&x < &y && x.thread != y.thread) sim::probe(x.manager == y.manager ? P_SHAREDMANAGER : P_SEVERAL);
        if (nt == 1 && qs.size() > 2) sim::probe(P_HISTORY);
        sim::probe(mode == REF_BEFORE ? P_BEFORE : mode == REF_AFTER ? P_AFTER : P_ALONE);
        if (throw_at >= 0) sim::probe(P_THROW);
    }
    Hook failing; // fails at every call, without keeping count: the threads share it
    failing.always = true;
    failing.kind = throw_kind;
    auto build = [&](const df::Dataframe &f, int k) { return make_manager(f, mspec[k][0], mspec[k][1], throw_at >= 0 ? &failing : nullptr, (unsigned)mspec[k][2]); };
    {
        Off off;
        for (size_t i = 0; i < mspec.size(); i++) mngs.push_back(build(*d, (int)i));
    }
    auto references = [&] {
        std::vector<size_t> idx;
        {
            Off off;
            for (size_t i = 0; i < qs.size(); i++) idx.push_back(i);
            Rng r(order);
            for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[r.below(i)]);
        }
        for (size_t i : idx) {
            Query &q = qs[i];
            std::unique_ptr<df::Dataframe> c;
            std::unique_ptr<df::Manager> m;
            {
                Off off;
                c = std::make_unique<df::Dataframe>(*d);
                m = build(*c, q.manager);
            }
            Outcome o;
            bool have = true;
            if (mode == REF_ALONE)
                have = isolated_outcome([&] { return query(q.q, q.v, *c, *m); }, o);
            else
                o = query(q.q, q.v, *c, *m);
            Off off;
            q.want = std::move(o);
            q.have = have;
            m.reset();
            c.reset();
        }
    };
    if (mode != REF_AFTER) references();
    on_threads(nt, [&](int t) {
        for (auto &q : qs) {
            if (q.thread != t) continue;
            Outcome o = query(q.q, q.v, *d, *mngs[q.manager]);
            Off off;
            q.got = std::move(o);
        }
    });
    if (mode == REF_AFTER) references();
    Off off;
    FrameModel after = model_of(*d);
    if (!(after == before)) sim::violation("frame-changed", "the dataframe was %s and is now %s", show(before).c_str(), show(after).c_str());
    for (auto &q : qs) {
        if (!q.have) continue;
        char what[120];
        snprintf(what, sizeof what, "%s (variant %llx) through manager %d", query_name(q.q), (unsigned long long)q.v, q.manager);
        if (q.want.ok) sim::probe(q.want.w.size() > 6 ? P_FOUND : P_NOTFOUND);
        check_same("wrong-result", what, q.want, q.got);
    }
}

const char *op_name(int k) {
    return k == O_FRAME ? "dataframe(items,series,seed)" : k == O_MANAGER ? "manager(decomposers,order,dimension)" : k == O_MODE ? "reference(before/after/alone,order,throwAt,kind)" : "query(thread,manager,query,variant)";
}

} // namespace

sim::Harness sim::harness = {"C06", gen, exec, op_name,
                             {"several threads", "queries through one shared manager", "queries through several managers", "reference before", "reference after",
                              "reference in a process of its own", "dataframe without items", "no mesh", "answer with values", "empty answer", "user-defined attribute that throws", "history on one thread"}};
