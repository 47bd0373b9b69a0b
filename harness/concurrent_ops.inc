// C04 and C05: calls of the catalogue from several threads on shared (or private) families of series, against the same call
// alone: in the same process before or after, in another order and on copies, or in a process of its own.
using namespace h;

namespace {

enum { O_FAMILY, O_CALL, O_MODE };
enum { P_CONCURRENT, P_SHARED, P_SAMEOP, P_PRIVATE, P_MUTATED, P_BEFORE, P_AFTER, P_ALONE, P_ERROR, P_EMPTY, P_HISTORY, P_THROW, P_REENTRY, P_SAME_PLACE };
enum { REF_BEFORE, REF_AFTER, REF_ALONE };

void gen(Rng &r, Plan &p) {
    bool huge = r.rare(500);
    if (huge) p.scale = 30;
    int nf = huge ? 1 : 1 + r.below(2);
    for (int i = 0; i < nf; i++) {
        static const int isz[] = {1, 1, 2, 3, 3, 4, 6, 9};
        p.add(O_FAMILY, {huge && r.chance(80) ? 1 + (i64)r.below(3) : isz[r.below(8)], huge ? r.huge() : r.chance(8) ? 0 : r.chance(1) ? r.range(50, 700) : r.chance(4) ? r.range(30, 130) : 1 + r.small(r.chance(10) ? 50 : 14), r.chance(60) ? 3 : r.chance(70) ? 2 : (i64)r.below(5),
                         r.chance(50) ? (i64)V_UNIFORM : (i64)r.below(V_KINDS), (i64)(r.next() >> 1)});
    }
    int nt = huge ? 2 : r.chance(12) ? 1 : 2 + r.below(4);
    int calls = huge ? 2 : nt == 1 ? 2 + r.below(8) : nt + r.below(6);
    int focus = r.chance(60) ? 1 + (int)r.below(2) : 0, f0 = r.below(OPS_COUNT), f1 = r.below(OPS_COUNT);
    p.add(O_MODE, {r.chance(20) ? (i64)REF_ALONE : r.chance(50) ? (i64)REF_BEFORE : (i64)REF_AFTER, (i64)(r.next() >> 1)});
    bool some_throw = r.chance(30);
    const i64 v0 = (i64)(r.next() >> 1);
    const int again = focus ? r.chance(50) ? 70 : 15 : 0; // the very same call
    for (int i = 0; i < calls; i++) {
        i64 op = focus == 1 ? f0 : focus == 2 ? (r.chance(50) ? f0 : f1) : (i64)r.below(OPS_COUNT);
        i64 priv = r.chance(65) ? 0 : r.chance(30) ? 1 : 2;
        p.add(O_CALL, {i < nt ? (i64)i : (i64)r.below(nt), (i64)r.below(nf), op, r.chance(again) ? v0 : (i64)(r.next() >> 1), priv, (i64)(r.next() >> 1), r.chance(30) ? (i64)r.range(1, 3) : 0,
                       some_throw && r.chance(40) ? (i64)r.small(12) : -1, (i64)r.below(r.chance(50) ? 5 : ANY_KINDS), r.chance(12) ? 1 + (i64)r.small(9) : 0, (i64)r.below(nf), r.chance(70) ? 0 : 1 + (i64)r.below(OPS_COUNT)});
    }
}

// changes values, not shapes
void mutate(Family &f, u64 seed) {
    Rng r(seed);
    for (int i = 0; i < SL_COUNT; i++) {
        if (i == SL_I || i == SL_N || i == SL_O) continue;
        Array &a = f.s[i].asArray();
        if (a.empty()) continue;
        int n = 1 + r.below(3);
        for (int k = 0; k < n; k++) a[r.below(a.size())] = (double)r.range(-8, 8) / 2;
    }
}

struct Item {
    int thread, family, op, priv;
    u64 v, mseed;
    Hook hook;
    Outcome got, want;
    bool have = true;
    // a call made from inside the callback of this one
    i64 inner_at = -1;
    int inner_op = 0, inner_family = 0;
    const Family *inner_series = nullptr;
    bool inner_done = false, inner_have = false;
    Outcome inner_got, inner_want;
};

Outcome run(Item &it, const Family &f, bool nested) {
    Hook h = it.hook;
    if (nested && it.inner_at >= 0) {
        h.reenter_at = it.inner_at;
        h.reenter_arg = &it;
        h.reenter = [](void *a) {
            Item &it = *(Item *)a;
            Outcome o = OPS_RUN(Call{it.inner_op, it.v, nullptr}, *it.inner_series);
            Off off;
            it.inner_got = std::move(o);
            it.inner_done = true;
        };
    }
    return OPS_RUN(Call{it.op, it.v, &h}, f);
}

void exec(const Plan &p) {
    std::vector<std::unique_ptr<Family>> fam;
    std::vector<std::vector<Model>> models;
    std::vector<Item> items;
    int nt = 1, mode = REF_BEFORE;
    u64 order = 0;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_FAMILY) {
                fam.push_back(std::make_unique<Family>());
                fill_family(*fam.back(), 1 + (int)(o.at(0) < 1 ? 0 : (o.at(0) - 1) % 9), (uint32_t)o.mod(1, 80000), (unsigned)o.mod(2, 5), (int)o.mod(3, V_KINDS), (u64)o.at(4));
            }
        if (fam.empty()) fam.push_back(std::make_unique<Family>()), fill_family(*fam.back(), 3, 3, 3, V_UNIFORM, 1);
        for (auto &f : fam) models.push_back(models_of(*f));
        for (const auto &o : p.ops) {
            if (o.kind == O_MODE) {
                mode = (int)o.mod(0, 3);
                order = (u64)o.at(1);
            }
            if (o.kind != O_CALL) continue;
            Item it;
            it.thread = (int)o.mod(0, 5);
            it.family = (int)o.mod(1, fam.size());
            it.op = (int)o.mod(2, (u64)OPS_COUNT);
            it.v = (u64)o.at(3);
            it.priv = (int)o.mod(4, 3);
            it.mseed = (u64)o.at(5);
            it.hook.yield = (int)o.mod(6, 4);
#ifdef WITH_HOOK
            it.hook.throw_at = o.at(7) < 0 ? -1 : (i64)o.mod(7, 100);
            it.hook.kind = (int)o.mod(8, ANY_KINDS);
            if (it.hook.throw_at >= 0) sim::probe(P_THROW);
            it.inner_at = (i64)o.mod(9, 100) - 1;
            it.inner_family = (int)o.mod(10, fam.size());
            it.inner_series = fam[it.inner_family].get();
            it.inner_op = o.mod(11, (u64)OPS_COUNT + 1) ? (int)o.mod(11, (u64)OPS_COUNT + 1) - 1 : it.op;
#endif
            nt = std::max(nt, it.thread + 1);
            if (it.priv == 1) sim::probe(P_PRIVATE);
            if (it.priv == 2) sim::probe(P_MUTATED);
            if (fam[it.family]->count == 0) sim::probe(P_EMPTY);
            items.push_back(std::move(it));
        }
        if (nt > 1) sim::probe(P_CONCURRENT);
        for (auto &x : items)
            for (auto &y : items)
                if (&x < &y && x.thread != y.thread && !x.priv && !y.priv && x.family == y.family) sim::probe(x.op == y.op ? P_SAMEOP : P_SHARED);
        if (nt == 1 && items.size() > 2) sim::probe(P_HISTORY);
        sim::probe(mode == REF_BEFORE ? P_BEFORE : mode == REF_AFTER ? P_AFTER : P_ALONE);
    }
    // what each call gives alone, on copies of its arguments
    auto references = [&] {
        std::vector<size_t> idx;
        std::unique_ptr<Family> f;
        {
            Off off;
            for (size_t i = 0; i < items.size(); i++) idx.push_back(i);
            Rng r(order);
            for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[r.below(i)]);
        }
        for (size_t i : idx) {
            Item &it = items[i];
            {
                Off off;
                f = std::make_unique<Family>(*fam[it.family]);
                if (it.priv == 2) mutate(*f, it.mseed);
            }
            Outcome o;
            bool have = true;
            if (mode == REF_ALONE)
                have = isolated_outcome([&] { return run(it, *f, false); }, o);
            else
                o = run(it, *f, false);
            Off off;
            it.want = std::move(o);
            it.have = have;
            f.reset();
        }
        for (size_t i : idx) {
            Item &it = items[i];
            if (it.inner_at < 0) continue;
            Outcome o;
            bool have = true;
            auto inner = [&] { return OPS_RUN(Call{it.inner_op, it.v, nullptr}, *it.inner_series); };
            if (mode == REF_ALONE)
                have = isolated_outcome(inner, o);
            else
                o = inner();
            Off off;
            it.inner_want = std::move(o);
            it.inner_have = have;
        }
    };
    if (mode != REF_AFTER) references();
    on_threads(nt, [&](int t) {
        Family mine; // private to the thread, always at the same place
        for (auto &it : items) {
            if (it.thread != t) continue;
            const Family *f = fam[it.family].get();
            if (it.priv) {
                Off off;
                for (int i = 0; i < SL_COUNT; i++) {
                    const df::Serie &from = f->s[i];
                    if (mine.s[i].count() == from.count() && mine.s[i].itemSize() == from.itemSize() && mine.s[i].dimension() == from.dimension() && from.count()) {
                        std::copy(from.asArray().begin(), from.asArray().end(), mine.s[i].asArray().begin());
                        sim::probe(P_SAME_PLACE);
                    } else
                        mine.s[i] = from;
                }
                mine.itemSize = f->itemSize;
                mine.count = f->count;
                if (it.priv == 2) mutate(mine, it.mseed);
                f = &mine;
            }
            Outcome o = run(it, *f, true);
            Off off;
            it.got = std::move(o);
        }
    });
    if (mode == REF_AFTER) references();
    Off off;
    for (size_t i = 0; i < fam.size(); i++) check_family(*fam[i], models[i], "after the calls");
    for (auto &it : items) {
        if (!it.have) continue;
        if (!it.want.ok) sim::probe(P_ERROR);
        char what[120];
        snprintf(what, sizeof what, "%s (variant %llx) on %s series of %llu items", OPS_NAME(it.op), (unsigned long long)it.v, it.priv ? "private" : "shared",
                 (unsigned long long)fam[it.family]->count);
        check_same("wrong-result", what, it.want, it.got);
        if (it.inner_done && it.inner_have) {
            sim::probe(P_REENTRY);
            snprintf(what, sizeof what, "%s (variant %llx) inside the callback of %s", OPS_NAME(it.inner_op), (unsigned long long)it.v, OPS_NAME(it.op));
            check_same("wrong-result", what, it.inner_want, it.inner_got);
        }
    }
}

const char *op_name(int k) {
    return k == O_FAMILY ? "series(itemSize,count,dim,values,seed)" : k == O_MODE ? "reference(before/after/alone,order)" : "call(thread,series,operation,variant,private,mutation,yield,throwAt,throwKind)";
}

} // namespace

sim::Harness sim::harness = {PROPERTY, gen, exec, op_name,
                             {"several threads", "different operations on the same series", "the same operation on the same series", "private copy", "private copy with changed values",
                              "reference before", "reference after", "reference in a process of its own", "call that fails also alone", "empty series", "history on one thread",
                              "callback that throws", "same operation from inside a callback", "other values at the same place"}};
