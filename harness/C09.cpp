// C09: a failed modification of a series leaves it exactly as it was.
#include "common.h"
using namespace h;

namespace {

enum { O_SERIE, O_STEP };
enum { P_ASSIGN, P_ASSIGN_SHAPE, P_SELF, P_RECOUNT, P_RECOUNT_HUGE, P_RECOUNT_WRAP, P_SETVALUE, P_SETSCALAR, P_SET, P_BAD_INDEX, P_BAD_SIZE, P_OOM, P_OOM_DONE, P_READ, P_READ_REFUSED, P_READ_OOM, P_LONG, P_INVALID, P_EMPTY, P_THREADS, P_GROW, P_SHRINK, P_MEMLIMIT, P_REFUSED_OOM };
enum { S_ASSIGN, S_ASSIGN_TEMP, S_RECOUNT, S_SETVALUE, S_SETSCALAR, S_SETARRAY, S_SETDOUBLE, S_READVALUE, S_READSCALAR, S_GETARRAY, S_GETDOUBLE, S_CONSTRUCT, S_TRAVERSE, S_RAW, S_KINDS };
static const char *const step_names[] = {"assignment", "assignment of a temporary", "reCount", "setValue", "setScalar", "set of an array", "set of a number", "value", "scalar", "get of an array", "get of a number", "construction", "traversal", "change through asArray"};
static_assert(sizeof step_names / sizeof *step_names == S_KINDS);
const int SLOTS = 3;
enum { A_GOOD, A_BAD_INDEX, A_BAD_SIZE, A_HUGE };

void gen(Rng &r, Plan &p) {
    static const int isz[] = {1, 1, 2, 3, 3, 6, 9, 0};
    for (int i = 0; i < SLOTS; i++)
        p.add(O_SERIE, {isz[r.below(8)], r.chance(15) ? 0 : r.chance(2) ? r.range(60, 3000) : r.small(r.chance(10) ? 60 : 12), (i64)r.below(5), (i64)r.below(V_KINDS), (i64)(r.next() >> 1)});
    int nt = r.chance(85) ? 1 : 2 + r.below(2);
    int n = 1 + r.below(r.chance(20) ? 120 : 25);
    for (int i = 0; i < n; i++) {
        int a = r.chance(60) ? A_GOOD : 1 + (int)r.below(3);
        p.add(O_STEP, {(i64)r.below(nt), (i64)(r.chance(30) ? r.below(3) : r.below(S_KINDS)), (i64)r.below(SLOTS), (i64)r.below(SLOTS), a, (i64)(r.next() >> 1), r.chance(35) ? 1 + r.small(4) : 0, (i64)r.chance(60)});
    }
}

struct Step {
    int thread, kind, a, b, arg;
    u64 v;
    i64 fail;
    bool persistent;
};

Model observe(const df::Serie &s) {
    Model x;
    x.itemSize = s.itemSize();
    x.count = s.count();
    x.dim = s.dimension();
    const Array &a = s.asArray();
    u64 size = s.size();
    bool valid = s.isValid();
    Off off;
    x.v = a;
    if (size != x.itemSize * x.count && x.itemSize * x.count <= 0xffffffffull) sim::violation("inconsistent", "size() is %llu for %llu items of %llu values", (unsigned long long)size, (unsigned long long)x.count, (unsigned long long)x.itemSize);
    if (valid != (x.itemSize > 0)) sim::violation("inconsistent", "isValid() is %d for item size %llu", valid, (unsigned long long)x.itemSize);
    if (x.v.size() != x.itemSize * x.count) sim::violation("inconsistent", "%zu values for %llu items of item size %llu", x.v.size(), (unsigned long long)x.count, (unsigned long long)x.itemSize);
    return x;
}

struct State {
    df::Serie s[SLOTS];
    Model m[SLOTS];
};

void step(State &st, const Step &o) {
    df::Serie &A = st.s[o.a];
    df::Serie &B = st.s[o.b];
    Model *want; // content of A after success
    Model was, other;
    double x;
    Array arg;
    bool acceptable = true, modifies = true, huge = false;
    u64 c = 0;
    df::Serie temp;
    {
        Off off;
        was = st.m[o.a];
        other = st.m[o.b];
        x = gen_array(o.v, V_UNIFORM, 1)[0];
        want = &st.m[o.a];
    }
    Model next = was;
    std::unique_ptr<df::Serie> tmp;
    uint32_t idx = 0;
    bool wrong = false; // a read gave something else
    std::string wrongs;
    {
        Off off;
        u64 n = was.count, sz = was.v.size(), is = was.itemSize;
        static const u64 far[] = {0, 1, 2, 1000, 0x7fffffff, 0xffffffff};
        switch (o.kind) {
        case S_ASSIGN: next = other; break;
        case S_ASSIGN_TEMP: {
            int ti = 1 + (int)(o.v % 4);
            uint32_t tn = (uint32_t)(o.v / 8 % 6);
            tmp = std::make_unique<df::Serie>(make_serie(ti, tn, (unsigned)(o.v / 64 % 4), V_MIXED, o.v));
            next = model_of(*tmp);
            break;
        }
        case S_RECOUNT:
            c = o.v % 14;
            if (o.v / 16 % 4096 == 7) c = Rng(o.v).huge();
            if (o.arg == A_HUGE && is) {
                c = o.v & 1 ? 0xffffffffull : (1ull << 32) / is + (is > 1 ? o.v / 2 % 4 : 0);
                if (c > 0xffffffffull) c = 0xffffffffull;
                huge = true;
                if (c * is > 0xffffffffull) sim::probe(P_RECOUNT_WRAP);
                sim::probe(P_RECOUNT_HUGE);
            }
            if (!huge) {
                next.count = c;
                next.v.assign(c * is, 0.0);
            }
            break;
        case S_SETVALUE:
        case S_SETARRAY:
            idx = n ? (uint32_t)(o.v % n) : 0;
            if (o.arg == A_BAD_INDEX || !n) {
                u64 f = n + far[o.v / 16 % 6];
                idx = f > 0xffffffffull ? 0xffffffffu : (uint32_t)f;
                acceptable = false;
            }
            arg = gen_array(o.v, V_MIXED, is);
            if (o.arg == A_BAD_SIZE) {
                arg = gen_array(o.v, V_MIXED, o.v & 4 && is ? (o.v & 8 ? is - 1 : 0) : is + 1 + o.v / 16 % 3);
                acceptable = false;
            }
            if (acceptable)
                for (u64 j = 0; j < is; j++) next.v[idx * is + j] = arg[j];
            break;
        case S_SETSCALAR:
        case S_SETDOUBLE:
        case S_RAW:
            idx = sz ? (uint32_t)(o.v % sz) : 0;
            if ((o.arg == A_BAD_INDEX && o.kind != S_RAW) || !sz) {
                u64 f = sz + far[o.v / 16 % 6];
                idx = f > 0xffffffffull ? 0xffffffffu : (uint32_t)f;
                acceptable = false;
            } else
                next.v[idx] = x;
            break;
        case S_READSCALAR:
        case S_GETDOUBLE:
            modifies = false;
            idx = sz ? (uint32_t)(o.v % sz) : 0;
            if (o.arg == A_BAD_INDEX || !sz) {
                u64 f = sz + far[o.v / 16 % 6];
                idx = f > 0xffffffffull ? 0xffffffffu : (uint32_t)f;
                acceptable = false;
            }
            break;
        case S_READVALUE:
        case S_GETARRAY:
            modifies = false;
            idx = n ? (uint32_t)(o.v % n) : 0;
            if (o.arg == A_BAD_INDEX || !n) {
                u64 f = n + far[o.v / 16 % 6];
                idx = f > 0xffffffffull ? 0xffffffffu : (uint32_t)f;
                acceptable = false;
            }
            break;
        default: modifies = false; break;
        }
        if (o.kind == S_RAW && !acceptable) return;
        if (!acceptable) sim::fired(sim::F_BAD_ARG);
    }
    if (o.fail) sim::alloc_fault((u64)o.fail, o.persistent);
    bool threw = false;
    Outcome ex;
    auto equal = [&](const Array &v) {
        Off off;
        for (u64 j = 0; j < was.itemSize; j++)
            if (v.size() != was.itemSize || sim::bits(v[j]) != sim::bits(was.v[idx * was.itemSize + j])) wrong = true;
    };
    try {
        switch (o.kind) {
        case S_ASSIGN: A = B; break;
        case S_ASSIGN_TEMP: A = *tmp; break;
        case S_RECOUNT: A.reCount((uint32_t)c); break;
        case S_SETVALUE: A.setValue(idx, arg); break;
        case S_SETSCALAR: A.setScalar(idx, x); break;
        case S_SETARRAY: A.set(idx, arg); break;
        case S_SETDOUBLE: A.set(idx, x); break;
        case S_RAW: A.asArray()[idx] = x; break;
        case S_READVALUE: {
            Array y = A.value(idx);
            if (acceptable) equal(y);
            break;
        }
        case S_GETARRAY: {
            Array y = A.get<Array>(idx);
            if (acceptable) equal(y);
            break;
        }
        case S_READSCALAR: {
            double y = A.scalar(idx);
            Off off;
            if (acceptable && sim::bits(y) != sim::bits(was.v[idx])) wrong = true;
            break;
        }
        case S_GETDOUBLE: {
            double y = A.get<double>(idx);
            Off off;
            if (acceptable && sim::bits(y) != sim::bits(was.v[idx])) wrong = true;
            break;
        }
        case S_CONSTRUCT: {
            df::Serie t((int)(o.v % 10), (uint32_t)(o.v / 16 % 20), (unsigned)(o.v / 512 % 4));
            Model m = observe(t);
            Off off;
            for (double d : m.v)
                if (sim::bits(d)) wrong = true;
            if (m.itemSize != o.v % 10 || m.count != o.v / 16 % 20 || m.dim != o.v / 512 % 4) wrong = true;
            break;
        }
        default:
            if (was.itemSize == 1)
                A.forEach([&](double, uint32_t i) {
                    (void)i;
                });
            else if (was.itemSize)
                A.forEach([&](const Array &v, uint32_t i) {
                    Off off;
                    if (sim::bits(v[0]) != sim::bits(was.v[i * was.itemSize])) wrong = true;
                });
            break;
        }
    } catch (...) {
        threw = true;
        ex = current_exception_outcome();
    }
    u64 fired = sim::alloc_fault_end();
    Off off;
    char what[200];
    snprintf(what, sizeof what, "%s of slot %d (%s%s)", step_names[o.kind], o.a, acceptable ? huge ? "enormous" : "acceptable" : "not acceptable", fired ? ", out of memory" : "");
    if (wrong) sim::violation("wrong-read", "%s at %u gives something else than is stored: %s", what, idx, was.str().c_str());
    if (!acceptable && !threw) sim::violation("not-refused", "%s: index %u, %zu values; series %s", what, idx, arg.size(), was.str().c_str());
    if (huge && !threw) sim::violation("not-refused", "%s: count %llu of %llu values each was accepted", what, (unsigned long long)c, (unsigned long long)was.itemSize);
    if (acceptable && threw && !fired && !huge) sim::violation("unexpected-exception", "%s: %s; series %s", what, ex.str().c_str(), was.str().c_str());
    if (threw) {
        if (!acceptable) sim::probe(modifies ? (o.arg == A_BAD_SIZE ? P_BAD_SIZE : P_BAD_INDEX) : P_READ_REFUSED);
        if (!acceptable && fired) sim::probe(P_REFUSED_OOM);
        if (acceptable && fired) sim::probe(modifies ? P_OOM : P_READ_OOM);
        if (huge) sim::probe(P_MEMLIMIT);
    } else {
        if (fired) sim::probe(P_OOM_DONE);
        if (modifies) *want = next;
        switch (o.kind) {
        case S_ASSIGN:
            sim::probe(P_ASSIGN);
            if (o.a == o.b) sim::probe(P_SELF);
            if (was.itemSize != other.itemSize) sim::probe(P_ASSIGN_SHAPE);
            break;
        case S_RECOUNT:
            sim::probe(P_RECOUNT);
            sim::probe(next.count > was.count ? P_GROW : P_SHRINK);
            break;
        case S_SETVALUE: sim::probe(P_SETVALUE); break;
        case S_SETSCALAR: sim::probe(P_SETSCALAR); break;
        case S_SETARRAY:
        case S_SETDOUBLE: sim::probe(P_SET); break;
        default:
            if (!modifies) sim::probe(P_READ);
        }
    }
    for (int i = 0; i < SLOTS; i++) {
        Model now = observe(st.s[i]);
        if (!(now == st.m[i])) {
            const char *cls = threw ? "changed-by-failure" : "wrong-state";
            sim::violation(cls, "%s %s%s: slot %d should be %s, is %s", what, threw ? "failed with " : "done", threw ? ex.str().c_str() : "", i, st.m[i].str().c_str(), now.str().c_str());
        }
    }
    sim::log(hash_words(words(st.m[o.a].v)) + st.m[o.a].count + threw);
}

void exec(const Plan &p) {
    std::vector<Step> steps;
    int nt = 1;
    std::vector<std::unique_ptr<State>> st;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_STEP) {
                steps.push_back({(int)o.mod(0, 3), (int)o.mod(1, S_KINDS), (int)o.mod(2, SLOTS), (int)o.mod(3, SLOTS), (int)o.mod(4, 4), (u64)o.at(5) & ~(1ull << 63), (i64)o.mod(6, 6), (bool)(o.at(7) & 1)});
                nt = std::max(nt, steps.back().thread + 1);
            }
        if (steps.size() > 60) sim::probe(P_LONG);
        if (nt > 1) sim::probe(P_THREADS);
        for (int t = 0; t < nt; t++) {
            st.push_back(std::make_unique<State>());
            int k = 0;
            for (const auto &o : p.ops)
                if (o.kind == O_SERIE && k < SLOTS) {
                    int is = (int)o.mod(0, 10);
                    if (is)
                        st[t]->s[k] = make_serie(is, (uint32_t)o.mod(1, 4000), (unsigned)o.mod(2, 5), (int)o.mod(3, V_KINDS), (u64)o.at(4) + t);
                    else
                        sim::probe(P_INVALID);
                    if (is && !o.mod(1, 4000)) sim::probe(P_EMPTY);
                    k++;
                }
            for (k = 0; k < SLOTS; k++) st[t]->m[k] = observe(st[t]->s[k]);
        }
    }
    on_threads(nt, [&](int t) {
        for (const auto &s : steps)
            if (s.thread == t) step(*st[t], s);
    });
}

const char *op_name(int k) { return k == O_SERIE ? "series(itemSize,count,dim,values,seed)" : "step(thread,kind,target,source,argument,variant,failingAllocation,persistent)"; }

} // namespace

sim::Harness sim::harness = {"C09", gen, exec, op_name,
                             {"assignment", "assignment of another shape", "self-assignment", "reCount", "reCount to an enormous count", "reCount whose size wraps around", "setValue", "setScalar", "set", "index out of range refused", "wrong item size refused",
                              "modification out of memory", "allocation failed, modification complete", "item read", "read out of range refused", "read out of memory", "long history", "default constructed series", "empty series", "several threads", "grown", "shrunk"
                              , "simulated memory exhausted", "out of memory while refusing"}};
