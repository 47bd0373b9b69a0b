// C08: an operation that fails leaves its inputs intact and leaks nothing.
#include "frame.h"
using namespace h;

namespace {

enum { O_FAMILY, O_FRAME, O_CALL, O_MODE };
enum { P_OOM, P_OOM_PERSISTENT, P_THROW, P_SURVIVED, P_CONCURRENT, P_NUMERIC, P_FUNC, P_QUERY, P_ERROR, P_REPEATED, P_AFTER, P_FIRST, P_LEAKCHECK, P_COLD };
enum { FT_NONE, FT_ALLOC, FT_ALLOC_PERSISTENT, FT_THROW };

void gen(Rng &r, Plan &p) {
    static const int isz[] = {1, 1, 2, 3, 3, 4, 6, 9};
    bool huge = r.rare(500);
    if (huge) p.scale = 30;
    p.add(O_FAMILY, {huge ? 1 + (i64)r.below(3) : isz[r.below(8)], huge ? r.huge() : r.chance(6) ? 0 : 1 + r.small(r.chance(10) ? 40 : 10), r.chance(60) ? 3 : r.chance(70) ? 2 : (i64)r.below(5),
                     r.chance(50) ? (i64)V_UNIFORM : (i64)r.below(V_KINDS), (i64)(r.next() >> 1)});
    p.add(O_FRAME, {r.chance(6) ? 0 : 1 + r.small(8), r.chance(50) ? 2047 : (i64)r.below(2048), (i64)(r.next() >> 1), r.chance(60) ? 255 : (i64)r.below(256), (i64)(r.next() >> 1)});
    int nt = huge || r.chance(75) ? 1 : 2 + r.below(2);
    p.add(O_MODE, {(i64)r.chance(50), (i64)r.chance(30)});
    int n = huge ? 1 : nt == 1 ? 1 + r.below(5) : nt + r.below(4);
    for (int i = 0; i < n; i++) {
        int cat = (int)r.below(20);
        cat = cat < 8 ? 0 : cat < 16 ? 1 : 2;
        i64 op = cat == 0 ? (i64)r.below(numeric_ops()) : cat == 1 ? (i64)r.below(func_ops()) : (i64)r.below(queries());
        i64 ft = cat == 1 && r.chance(30) ? (i64)FT_THROW : cat == 2 && r.chance(15) ? (i64)FT_THROW : r.chance(70) ? (i64)FT_ALLOC : (i64)FT_ALLOC_PERSISTENT;
        p.add(O_CALL, {i < nt ? (i64)i : (i64)r.below(nt), cat, op, (i64)(r.next() >> 1), ft, (i64)(r.next() >> 40), (i64)r.below(r.chance(50) ? 5 : ANY_KINDS), !huge && r.chance(4) ? r.range(20, 300) : 1 + (i64)r.below(3)});
    }
}

struct Item {
    int thread, cat, op, ft, kind, repeat;
    u64 v, at;
    Outcome want;
    std::string name;
};

void exec(const Plan &p) {
    auto fam = std::make_unique<Family>();
    auto d = std::make_unique<df::Dataframe>();
    std::unique_ptr<df::Manager> mng;
    std::vector<Item> items;
    std::vector<Model> fm;
    FrameModel dm;
    Hook shared; // of the user-defined attribute (one thread only)
    int nt = 1;
    bool warm = true, cold = false;
    {
        Off off;
        bool have = false;
        u64 mk = 255, mo = 1;
        for (const auto &o : p.ops) {
            if (o.kind == O_FAMILY && !have) {
                have = true;
                fill_family(*fam, 1 + (int)(o.at(0) < 1 ? 0 : (o.at(0) - 1) % 9), (uint32_t)o.mod(1, 80000), (unsigned)o.mod(2, 5), (int)o.mod(3, V_KINDS), (u64)o.at(4));
            } else if (o.kind == O_FRAME) {
                fill_frame(*d, o.mod(1, 2048), (uint32_t)o.mod(0, 40), (u64)o.at(2));
                mk = o.mod(3, 256);
                mo = (u64)o.at(4);
            } else if (o.kind == O_MODE) {
                warm = o.at(0) & 1;
                cold = o.at(1) & 1;
            } else if (o.kind == O_CALL) {
                Item it;
                it.thread = (int)o.mod(0, 3);
                it.cat = (int)o.mod(1, 3);
                it.op = (int)o.mod(2, it.cat == 0 ? numeric_ops() : it.cat == 1 ? func_ops() : queries());
                it.v = (u64)o.at(3);
                it.ft = (int)o.mod(4, 4);
                it.at = o.mod(5, 1 << 24);
                it.kind = (int)o.mod(6, ANY_KINDS);
                it.repeat = 1 + (int)((o.at(7) < 1 ? 0 : o.at(7) - 1) % 300);
                it.name = it.cat == 0 ? numeric_name(it.op) : it.cat == 1 ? func_name(it.op) : query_name(it.op);
                nt = std::max(nt, it.thread + 1);
                items.push_back(std::move(it));
            }
        }
        if (!have) fill_family(*fam, 3, 3, 3, V_UNIFORM, 1);
        if (nt > 1) { // the user-defined attribute's hook is not made for several threads
            sim::probe(P_CONCURRENT);
        }
        mng = make_manager(*d, mk, mo, nt > 1 ? nullptr : &shared);
        fm = models_of(*fam);
        dm = model_of(*d);
    }
    auto run = [&](Item &it, Hook *h) -> Outcome {
        if (it.cat == 0) return numeric(Call{it.op, it.v, h}, *fam);
        if (it.cat == 1) return functional(Call{it.op, it.v, h}, *fam);
        return query(it.op, it.v, *d, *mng);
    };
    auto inputs = [&](const Item &it, const char *when) {
        char w[160];
        snprintf(w, sizeof w, "%s %s", it.name.c_str(), when);
        check_family(*fam, fm, w);
        FrameModel x = model_of(*d);
        if (!(x == dm)) sim::violation("input-changed", "%s: the dataframe was %s and is now %s", w, show(dm).c_str(), show(x).c_str());
    };
    if (!cold)
        for (auto &it : items) {
            Hook h;
            Outcome o = run(it, &h);
            Off off;
            it.want = std::move(o);
        }
    else
        sim::probe(P_COLD);
    on_threads(nt, [&](int t) {
        for (auto &it : items) {
            if (it.thread != t) continue;
            u64 total;
            i64 calls;
            if (!cold || warm) { // how much there is to go wrong
                u64 a0 = sim::allocs_by_me();
                Hook h;
                if (nt == 1) shared = Hook();
                Outcome o = run(it, &h);
                total = sim::allocs_by_me() - a0;
                Off off;
                calls = it.cat == 2 && nt == 1 ? shared.calls : h.calls;
                if (cold)
                    it.want = std::move(o);
                else
                    check_same("wrong-result", it.name.c_str(), it.want, o);
                if (!it.want.ok) sim::probe(P_ERROR);
            } else { // the very first call may fail
                total = 40;
                calls = 8;
                sim::probe(P_FIRST);
            }
            int ft = it.ft;
            if (ft == FT_THROW && (it.cat == 0 || !calls || (it.cat == 2 && nt > 1))) ft = FT_ALLOC;
            if (ft != FT_THROW && !total) continue;
            bool may = !cold || warm; // the reference is known
            auto attempt = [&](u64 at) -> bool { // true: something failed
                Hook h;
                if (nt == 1) shared = Hook();
                Hook &hk = it.cat == 2 && nt == 1 ? shared : h;
                u64 fired = 0;
                if (ft == FT_THROW) {
                    hk.throw_at = (i64)(at % (u64)calls);
                    hk.kind = it.kind;
                } else
                    sim::alloc_fault(1 + at % total, ft == FT_ALLOC_PERSISTENT);
                Outcome o = run(it, &h);
                if (ft == FT_THROW)
                    fired = hk.thrown;
                else
                    fired = sim::alloc_fault_end();
                hk.throw_at = -1;
                Off off;
                if (!fired) return false;
                sim::probe(ft == FT_THROW ? P_THROW : ft == FT_ALLOC ? P_OOM : P_OOM_PERSISTENT);
                if (o.ok) {
                    if (ft == FT_THROW)
                        sim::violation("failure-hidden", "%s: the callback threw at call %llu, but the operation gave %s", it.name.c_str(), (unsigned long long)(at % (u64)calls), o.str().c_str());
                    sim::probe(P_SURVIVED);
                    if (may) check_same("failure-hidden", it.name.c_str(), it.want, o);
                } else
                    sim::log(o.hash());
                inputs(it, "failed");
                return true;
            };
            for (int k = 0; k < it.repeat; k++) {
                attempt(it.at + (u64)k * 7);
                if (k) sim::probe(P_REPEATED);
            }
            if (nt == 1) { // the same failure again and again must not use up memory
                u64 b[5], y;
                bool all = true;
                for (int k = 0; k < 5; k++) {
                    all = attempt(it.at) && all;
                    sim::live(&b[k], &y);
                }
                if (all) {
                    sim::probe(P_LEAKCHECK);
                    if (b[1] < b[2] && b[2] < b[3] && b[3] < b[4]) {
                        Off off;
                        char w[400] = "";
                        sim::newest_live(w, sizeof w, 0);
                        sim::violation("leak", "%s fails (%s) and keeps memory every time: %llu, %llu, %llu, %llu blocks; %s", it.name.c_str(), ft == FT_THROW ? "callback throws" : "out of memory",
                                       (unsigned long long)b[1], (unsigned long long)b[2], (unsigned long long)b[3], (unsigned long long)b[4], w);
                    }
                }
            }
            // and without the fault it gives what it always gives
            Hook h;
            if (nt == 1) shared = Hook();
            Outcome o = run(it, &h);
            Off off;
            sim::probe(P_AFTER);
            if (may)
                check_same("wrong-after-failure", it.name.c_str(), it.want, o);
            else
                it.want = std::move(o);
            inputs(it, "called");
        }
    });
    // every operation again, after all the failures
    for (auto &it : items) {
        Hook h;
        if (nt == 1) shared = Hook();
        Outcome o = run(it, &h);
        Off off;
        check_same("wrong-after-failure", it.name.c_str(), it.want, o);
        inputs(it, "called");
        sim::probe(it.cat == 0 ? P_NUMERIC : it.cat == 1 ? P_FUNC : P_QUERY);
    }
}

const char *op_name(int k) {
    return k == O_FAMILY ? "series(itemSize,count,dim,values,seed)" : k == O_FRAME ? "dataframe(items,series,seed,decomposers,order)" : k == O_MODE ? "mode(warm,cold)" : "call(thread,catalogue,operation,variant,fault,at,throwKind,repeat)";
}

} // namespace

sim::Harness sim::harness = {"C08", gen, exec, op_name,
                             {"one allocation failed", "all later allocations failed", "callback threw", "allocation failed, result complete", "several threads", "numeric operation", "functional operation",
                              "dataframe query", "operation that also fails without fault", "repeated failures", "call after failures", "first call ever fails", "repeated failure checked for leaks", "no call before"}};
