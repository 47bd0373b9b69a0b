// C10: a failed modification of a dataframe leaves it exactly as it was.
#include "common.h"
#include <dataframe/Dataframe.h>
#include <dataframe/utils/nameOfSerie.h>
#include <map>
using namespace h;

namespace {

enum { O_FRAME, O_STEP };
enum { P_ADD, P_REPLACE, P_SET, P_CREATE, P_DEL, P_DELMISSING, P_CLEAR, P_COUNT, P_COUNT_OOM, P_COUNT_HUGE, P_INSERT_REF, P_REF_MOD, P_SELF, P_CROSS, P_COPY, P_OOM, P_OOM_DONE, P_LONG, P_THREADS, P_SOURCE_MODIFIED, P_LOOKUP_OOM, P_MISMATCH, P_LONGNAME, P_SWAP };
enum { S_ADD, S_SET, S_CREATE, S_DEL, S_CLEAR, S_COUNT, S_REF_ASSIGN, S_REF_MOD, S_REF_INSERT, S_SELF, S_CROSS, S_COPY, S_ASSIGN, S_LOOKUP, S_SRCMOD, S_KINDS };
static const char *const step_names[] = {"add", "set", "create", "del", "clear", "setCount", "assignment through a reference", "modification through a reference", "look-up on the mutable dataframe", "add of its own series under the same name",
                                         "add of its own series under another name", "copy construction", "assignment of a copy", "look-ups", "modification of a series passed in before"};
static_assert(sizeof step_names / sizeof *step_names == S_KINDS);

#define NUL(x) std::string_view(x, sizeof(x) - 1)
static const std::string_view NAMES[] = {"a", "b", "positions", "", "a name that is longer than any small string buffer", "a name that is longer than any small string buffer 2", "indices", "z", "A", "a ", "ab", "\xc3\xa9", "positionsx", "b\n", "0", "-", "c", "d", NUL("n\0m"), "n", NUL("n\0k"), NUL("\0"), "a name that is longer than any small string buffer and goes on and on until every fixed buffer of 128 characters or so is too short for it, 1",
    "a name that is longer than any small string buffer and goes on and on until every fixed buffer of 128 characters or so is too short for it, 2", "Positions", "aa", " a"};
const int NN = sizeof NAMES / sizeof *NAMES;
const int SRC = 3;

void gen(Rng &r, Plan &p) {
    p.add(O_FRAME, {r.chance(70) ? 0 : (i64)r.below(9), (i64)(r.next() >> 1)});
    int nt = r.chance(85) ? 1 : 2 + r.below(2);
    int n = 1 + r.below(r.chance(20) ? 100 : 25);
    int few = r.chance(50) ? 3 : r.chance(50) ? 8 : NN;
    bool large = r.chance(2);
    u64 base = r.next();
    for (int i = 0; i < n; i++) {
        int k = (int)r.below(20);
        k = k < 4 ? S_ADD : k < 6 ? S_SET : k < 8 ? S_COUNT : (int)r.below(S_KINDS);
        p.add(O_STEP, {(i64)r.below(nt), k, (i64)((base + r.below(few)) % NN), (i64)((base + r.below(few)) % NN), (i64)r.below(SRC), ((i64)(r.next() >> 1) & ~(1ll << 20)) | (large ? 1ll << 20 : 0), r.chance(40) ? 1 + r.small(12) : 0, (i64)r.chance(50)});
    }
}

struct Step {
    int thread, kind, a, b, src;
    u64 v;
    i64 fail;
    bool persistent;
};
struct FM { // the plain map
    u64 count = 0;
    std::map<std::string, Model> m;
    bool operator==(const FM &o) const { return m == o.m; }
    std::string str() const {
        std::string s = "{";
        for (const auto &[n, x] : m) s += (s.size() > 1 ? "; \"" : "\"") + n + "\": " + x.str();
        return s + "}";
    }
};
struct State {
    df::Dataframe d;
    FM m;
    df::Serie src[SRC];
    Model smodel[SRC];
    State(uint32_t c) : d(c) { m.count = c; }
};

std::map<std::string, Model> content(const df::Dataframe &d) {
    std::map<std::string, Model> r;
    for (const auto &[n, s] : d.series()) {
        Model m = model_of(s);
        r[n] = m;
    }
    return r;
}

// every observer agrees with the map
void verify(const State &st, const FM &fm, const char *what, bool failed) {
    Off off;
    auto c = content(st.d);
    if (!(c == fm.m)) {
        FM x;
        x.m = c;
        sim::violation(failed ? "changed-by-failure" : "wrong-state", "%s: the dataframe should be %s, is %s", what, fm.str().c_str(), x.str().c_str());
    }
    for (const auto &[n, x] : fm.m)
        if (x.v.size() != x.count * x.itemSize) sim::violation("inconsistent", "%s: %s: %s", what, n.c_str(), x.str().c_str());
}
void lookups(const df::Dataframe &d, const FM &fm, const State &st) {
    for (int i = 0; i < NN; i++) {
        std::string n(NAMES[i]);
        bool has = d.contains(n);
        const df::Serie &s = d.get(n);
        const df::Serie &t = d[n];
        bool hasS = d.contains(s);
        String found = df::nameOfSerie(d, s);
        bool valid = s.isValid();
        Off off;
        auto it = fm.m.find(n);
        bool want = it != fm.m.end();
        if (has != want) sim::violation("wrong-lookup", "contains(\"%s\") is %d", n.c_str(), has);
        if (!want && valid) sim::violation("wrong-lookup", "look-up of the missing name \"%s\" gives a valid series", n.c_str());
        if (!want && (hasS || found != "")) sim::violation("wrong-lookup", "the series given for the missing name \"%s\" is found as \"%s\"", n.c_str(), found.c_str());
        if (want && (!(model_of(s) == it->second) || &s != &t)) sim::violation("wrong-lookup", "look-up of \"%s\" gives %s, should give %s", n.c_str(), model_of(s).str().c_str(), it->second.str().c_str());
        if (want && (found != n || (!hasS && n != ""))) sim::violation("wrong-lookup", "series \"%s\" is found under the name \"%s\", contained: %d", n.c_str(), found.c_str(), hasS);
    }
    for (int i = 0; i < SRC; i++) {
        bool in = d.contains(st.src[i]);
        if (in) sim::violation("wrong-lookup", "a series that was passed in is reported as contained itself");
    }
}

// one presence test and one look-up
void present(State &st, const std::string &n, const char *when) {
    const df::Dataframe &d = st.d;
    bool has = d.contains(n), valid = d.get(n).isValid();
    Off off;
    auto it = st.m.m.find(n);
    bool want = it != st.m.m.end();
    if (has != want) sim::violation("wrong-lookup", "contains(\"%s\") %s a step is %d", n.c_str(), when, has);
    if (valid != (want && it->second.itemSize > 0)) sim::violation("wrong-lookup", "the look-up of \"%s\" %s a step is valid: %d", n.c_str(), when, valid);
}

void step(State &st, const Step &o) {
    std::string name, name2;
    df::Serie *src = &st.src[o.src];
    FM next;
    uint32_t c = 0;
    int is = 0;
    bool huge = false;
    double x;
    std::unique_ptr<df::Dataframe> other;
    FM omodel;
    {
        Off off;
        name = NAMES[o.a];
        name2 = NAMES[o.b];
        x = gen_array(o.v, V_UNIFORM, 1)[0];
        next = st.m;
        auto store = [&](const std::string &n, const Model &m) {
            next.m[n] = m;
            if (!next.count) next.count = m.count;
        };
        switch (o.kind) {
        case S_ADD:
        case S_SET:
            if (st.m.count && st.m.count != st.smodel[o.src].count) sim::probe(P_MISMATCH);
            sim::probe(o.kind == S_SET ? P_SET : st.m.m.count(name) ? P_REPLACE : P_ADD);
            store(name, st.smodel[o.src]);
            break;
        case S_CREATE: {
            is = (int)(o.v % 10);
            c = (uint32_t)(o.v / 16 % 8);
            if (o.v >> 20 & 1) c = o.v / 32768 % 64 == 5 ? (uint32_t)Rng(o.v).huge() : (uint32_t)(o.v / 16 % 1500);
            Model m;
            m.itemSize = is;
            m.count = c;
            m.v.assign((size_t)is * c, 0.0);
            store(name, m);
            break;
        }
        case S_DEL:
            sim::probe(next.m.count(name) ? P_DEL : P_DELMISSING);
            next.m.erase(name);
            break;
        case S_CLEAR: next.m.clear(); break;
        case S_COUNT:
            c = (uint32_t)(o.v % 12);
            if (o.v >> 20 & 1) c = o.v / 32768 % 64 == 5 ? (uint32_t)Rng(o.v).huge() : (uint32_t)(o.v / 16 % 1500);
            if (o.v % 16 == 15) {
                u64 total = 0;
                for (auto &[n, m] : st.m.m) total = std::max(total, m.itemSize);
                if (total) {
                    c = o.v & 16 ? 0xffffffffu : (uint32_t)std::min<u64>((1ull << 32) / total + (total > 1 ? o.v / 32 % 4 : 0), 0xffffffffull);
                    huge = c != st.m.count;
                    sim::probe(P_COUNT_HUGE);
                }
            }
            if (c && c != st.m.count && !huge) {
                next.count = c;
                for (auto &[n, m] : next.m) {
                    m.count = c;
                    m.v.assign((size_t)c * m.itemSize, 0.0);
                }
            }
            break;
        case S_REF_ASSIGN: next.m[name] = st.smodel[o.src]; break;
        case S_REF_MOD:
            if (!st.m.m.count(name) || st.m.m.at(name).v.empty()) return;
            next.m[name].v[o.v % next.m[name].v.size()] = x;
            break;
        case S_REF_INSERT: next.m[name]; break;
        case S_SELF:
            if (!st.m.m.count(name)) return;
            store(name, st.m.m.at(name));
            break;
        case S_CROSS:
            if (!st.m.m.count(name2)) return;
            store(name, st.m.m.at(name2));
            break;
        case S_ASSIGN:
            other = std::make_unique<df::Dataframe>(st.d);
            omodel = st.m;
            other->add(name, *src);
            omodel.m[name] = st.smodel[o.src];
            if (!omodel.count) omodel.count = st.smodel[o.src].count;
            next = omodel;
            break;
        default: break;
        }
        if (name.size() > 20) sim::probe(P_LONGNAME);
    }
    // an empty model of a default constructed series has item size 0, count 0, dimension 3
    // what is asked just before must not matter
    if (o.v / 64 % 2) present(st, name, "before");
    if (o.v / 128 % 4 == 1) present(st, name2, "before");
    if (o.fail && o.kind != S_ASSIGN) sim::alloc_fault((u64)o.fail, o.persistent);
    bool threw = false;
    Outcome ex;
    try {
        switch (o.kind) {
        case S_ADD: st.d.add(name, *src); break;
        case S_SET: st.d.set(name, *src); break;
        case S_CREATE:
            if (!c && (o.v & 1024))
                st.d.create(name, is);
            else
                st.d.create(name, is, c);
            break;
        case S_DEL: st.d.del(name); break;
        case S_CLEAR: st.d.clear(); break;
        case S_COUNT: st.d.setCount(c); break;
        case S_REF_ASSIGN: {
            // the look-up may insert: an empty series stays if only the assignment fails
            df::Serie &r = o.v & 1 ? st.d[name] : st.d.get(name);
            sim::alloc_fault_end();
            r = *src;
            break;
        }
        case S_REF_MOD: {
            df::Serie &r = o.v & 1 ? st.d[name] : st.d.get(name);
            uint32_t i = (uint32_t)(o.v % r.asArray().size());
            if (o.v & 2)
                r.setScalar(i, x);
            else
                r.asArray()[i] = x;
            break;
        }
        case S_REF_INSERT: {
            const df::Serie &r = o.v & 1 ? st.d[name] : st.d.get(name);
            const df::Dataframe &cd = st.d;
            if (&r != &cd.get(name)) sim::violation("wrong-lookup", "two look-ups of \"%s\" give different series", name.c_str());
            break;
        }
        case S_SELF: st.d.add(name, st.d[name]); break;
        case S_CROSS:
            if (o.v & 1)
                st.d.add(name, st.d.get(name2));
            else
                st.d.set(name, st.d.series().at(name2));
            break;
        case S_COPY: {
            df::Dataframe t(st.d);
            sim::alloc_fault_end();
            {
                Off off;
                FM x;
                x.m = content(t);
                if (!(x == st.m)) sim::violation("wrong-state", "the copy of %s is %s", st.m.str().c_str(), x.str().c_str());
            }
            t.clear();
            t.add(name, *src);
            break;
        }
        case S_ASSIGN:
            if (o.v & 1)
                st.d = *other;
            else
                std::swap(st.d, *other);
            break;
        case S_LOOKUP: lookups(st.d, st.m, st); break;
        default: break;
        }
    } catch (...) {
        threw = true;
        ex = current_exception_outcome();
    }
    u64 fired = sim::alloc_fault_end();
    Off off;
    char what[200];
    snprintf(what, sizeof what, "%s (\"%s\", \"%s\")%s%s", step_names[o.kind], name.c_str(), name2.c_str(), fired ? ", out of memory" : "", huge ? ", enormous" : "");
    if (threw && !fired && !huge) sim::violation("unexpected-exception", "%s: %s; dataframe %s", what, ex.str().c_str(), st.m.str().c_str());
    if (huge && !threw) sim::violation("not-refused", "%s: count %u was accepted by %s", what, c, st.m.str().c_str());
    if (threw) {
        sim::probe(o.kind == S_COUNT ? P_COUNT_OOM : o.kind == S_LOOKUP ? P_LOOKUP_OOM : P_OOM);
    } else {
        if (fired) sim::probe(P_OOM_DONE);
        st.m = next;
        switch (o.kind) {
        case S_CREATE: sim::probe(P_CREATE); break;
        case S_CLEAR: sim::probe(P_CLEAR); break;
        case S_COUNT: sim::probe(P_COUNT); break;
        case S_REF_INSERT: sim::probe(P_INSERT_REF); break;
        case S_REF_MOD: sim::probe(P_REF_MOD); break;
        case S_SELF: sim::probe(P_SELF); break;
        case S_CROSS: sim::probe(P_CROSS); break;
        case S_COPY: sim::probe(P_COPY); break;
        case S_ASSIGN: sim::probe(P_SWAP); break;
        }
    }
    if (o.v / 64 % 2) present(st, name, "after");
    if (o.v / 128 % 4 == 1) present(st, name2, "after");
    verify(st, st.m, what, threw);
    if (o.kind == S_SRCMOD) { // what was passed in before is independent of what is stored
        if (src->asArray().size()) {
            size_t i = o.v % src->asArray().size();
            src->asArray()[i] = x;
            st.smodel[o.src].v[i] = x;
        } else {
            *src = make_serie(1 + (int)(o.v % 4), (uint32_t)(o.v / 8 % 6), (unsigned)(o.v / 64 % 4), V_MIXED, o.v);
            st.smodel[o.src] = model_of(*src);
        }
        sim::probe(P_SOURCE_MODIFIED);
        verify(st, st.m, what, false);
    }
    for (int i = 0; i < SRC; i++)
        if (!(model_of(st.src[i]) == st.smodel[i])) sim::violation("input-changed", "%s: the series passed in was %s and is %s", what, st.smodel[i].str().c_str(), model_of(st.src[i]).str().c_str());
    sim::log(st.m.m.size() * 31 + threw);
    for (auto &[n, m] : st.m.m) sim::log(hash_words(words(m.v)) + m.count);
}

void exec(const Plan &p) {
    std::vector<Step> steps;
    std::vector<std::unique_ptr<State>> st;
    int nt = 1;
    {
        Off off;
        uint32_t c0 = 0;
        u64 seed = 1;
        for (const auto &o : p.ops)
            if (o.kind == O_STEP) {
                steps.push_back({(int)o.mod(0, 3), (int)o.mod(1, S_KINDS), (int)o.mod(2, NN), (int)o.mod(3, NN), (int)o.mod(4, SRC), (u64)o.at(5) & ~(1ull << 63), (i64)o.mod(6, 14), (bool)(o.at(7) & 1)});
                nt = std::max(nt, steps.back().thread + 1);
            } else {
                c0 = (uint32_t)o.mod(0, 40);
                seed = (u64)o.at(1);
            }
        if (nt > 1) sim::probe(P_THREADS);
        if (steps.size() > 50) sim::probe(P_LONG);
        static const int isz[] = {1, 2, 3, 6, 9, 1, 3};
        for (int t = 0; t < nt; t++) {
            st.push_back(std::make_unique<State>(c0));
            Rng r(seed + t);
            uint32_t n = (uint32_t)r.below(8);
            for (int i = 0; i < SRC; i++) {
                st[t]->src[i] = make_serie(isz[r.below(7)], r.chance(60) ? n : (uint32_t)r.below(8), (unsigned)r.below(4), V_MIXED, r.next());
                st[t]->smodel[i] = model_of(st[t]->src[i]);
            }
        }
    }
    on_threads(nt, [&](int t) {
        for (const auto &s : steps)
            if (s.thread == t) step(*st[t], s);
        lookups(st[t]->d, st[t]->m, *st[t]);
    });
}

const char *op_name(int k) { return k == O_FRAME ? "dataframe(count,seed)" : "step(thread,kind,name,otherName,series,variant,failingAllocation,persistent)"; }

} // namespace

sim::Harness sim::harness = {"C10", gen, exec, op_name,
                             {"add", "add under an existing name", "set", "create", "delete", "delete of a missing name", "clear", "setCount", "setCount out of memory", "setCount to an enormous count", "look-up that may insert", "modified through a reference",
                              "own series stored under its name", "own series stored under another name", "copied", "modification out of memory", "allocation failed, modification complete", "long history", "several threads", "source modified afterwards",
                              "look-up out of memory", "count of the series differs from the dataframe's", "long name", "assigned or swapped"}};
