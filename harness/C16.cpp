// C16: each decomposer handed to a manager is destroyed exactly once.
#include "frame.h"
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/attributes/Valence.h>
#include <set>
using namespace h;
using namespace df;

namespace {

enum { O_START, O_STEP };
enum { P_ADD, P_ADD_OOM, P_INITIAL, P_INITIAL_OOM, P_CLEAR, P_CLEAR_EMPTY, P_REUSE, P_DESTROY, P_DESTROY_CLEARED, P_QUERY, P_QUERY_OOM, P_QUERY_THROW, P_MANY, P_THREADS, P_USER, P_LIBRARY, P_TWO_MANAGERS, P_GROW, P_FRAME_GONE };
enum { S_NEW, S_NEW_WITH, S_ADD, S_CLEAR, S_QUERY, S_DESTROY, S_COPY, S_KINDS };
static const char *const step_names[] = {"new manager", "new manager with decomposers", "add", "clear", "query", "destroy", "copy"};
static_assert(sizeof step_names / sizeof *step_names == S_KINDS);
const int MANAGERS = 3;
enum { K_OBSERVED, K_OBSERVED2, K_CALLBACK, K_LIBRARY }; // K_LIBRARY + kind

void gen(Rng &r, Plan &p) {
    p.add(O_START, {(i64)r.below(6), (i64)(r.next() >> 1), (i64)r.below(2)});
    int nt = r.chance(80) ? 1 : 2 + r.below(2);
    int n = 3 + r.below(r.chance(20) ? 90 : 20);
    int fault = r.chance(35) ? 0 : 35;
    if (r.chance(10)) {
        i64 t = (i64)r.below(nt), m = (i64)r.below(MANAGERS);
        if (r.chance(80)) p.add(O_STEP, {t, S_NEW, m, (i64)(r.next() >> 1), 0, 0});
        for (int i = 10 + (int)r.below(r.chance(10) ? 400 : 60); i > 0; i--) p.add(O_STEP, {t, S_ADD, m, (i64)(r.next() >> 1), 0, 0});
    }
    for (int i = 0; i < n; i++) {
        int k = (int)r.below(20);
        k = k < 8 ? (int)S_ADD : k < 11 ? (int)S_QUERY : k < 13 ? (int)S_CLEAR : k < 14 ? (int)S_NEW_WITH : (int)r.below(S_KINDS);
        p.add(O_STEP, {(i64)r.below(nt), k, (i64)r.below(MANAGERS), (i64)(r.next() >> 1), r.chance(fault) ? 1 + r.small(12) : 0, (i64)r.below(4)});
    }
}

struct Step {
    int thread, kind, manager;
    u64 v;
    i64 fail;
    int mode;
};

struct Registry { // of one thread
    struct Item {
        bool alive = true;
        int holder = -1; // manager, -1 the caller
        int uses = 0;
    };
    std::vector<Item> items;
    std::set<const void *> callbacks; // alive
    i64 throw_at = -1, calls = 0;
    int kind = 0;
    bool thrown = false;
    int busy = -1; // the manager that may destroy its decomposers now
    void use() {
        i64 n = calls++;
        if (n != throw_at) return;
        {
            Off off;
            thrown = true;
            sim::fired(sim::F_CALLBACK);
        }
        throw_any((u64)kind, n);
    }
};
// the size of an observed decomposer and what it owns differ
template <int N> class Observed : public Decomposer {
    Registry *g;
    int id;
    String name;
    Array mem;
    double pad[N * 5 + 1] = {};

  public:
    Observed(Registry *g_, int i, const String &n) : g(g_), id(i), name(n), mem(3 + N * 20, 1.5) {}
    ~Observed() {
        Off off;
        auto &x = g->items[id];
        if (!x.alive) sim::violation("destroyed-twice", "decomposer %d is destroyed a second time", id);
        x.alive = false;
        if (x.holder >= 0 && x.holder != g->busy) sim::violation("destroyed-early", "decomposer %d, accepted by a manager, is destroyed while that manager keeps it", id);
        if (x.holder < 0 && g->busy != -2) sim::violation("destroyed-early", "decomposer %d was not accepted by a manager, but destroyed by it", id);
    }
    void check(const char *what) const {
        Off off;
        if (!g->items[id].alive) sim::violation("used-after-destruction", "%s of decomposer %d called after its destruction", what, id);
        if (mem.size() != (size_t)(3 + N * 20)) sim::violation("used-after-destruction", "%s of decomposer %d: its content is gone", what, id);
        g->items[id].uses++;
    }
    Strings names(const Dataframe &d, uint32_t is, const Serie &, const String &) const override {
        check("names");
        g->use();
        return is == 1 ? Strings{name} : Strings();
    }
    Serie serie(const Dataframe &, uint32_t is, const String &n) const override {
        check("serie");
        g->use();
        return is == 1 && n == name ? Serie(1, mem) : Serie();
    }
};
struct Callback { // owned by a user defined decomposer
    Registry *g;
    Array mem = Array(40, 2.5);
    explicit Callback(Registry *g_) : g(g_) { enter(); }
    Callback(const Callback &o) : g(o.g), mem(o.mem) { enter(); }
    Callback(Callback &&o) : g(o.g), mem(o.mem) { enter(); }
    ~Callback() {
        Off off;
        if (!g->callbacks.erase(this)) sim::violation("destroyed-twice", "a callback that does not exist any more is destroyed");
    }
    void enter() {
        Off off;
        if (!g->callbacks.insert(this).second) sim::violation("destroyed-twice", "a callback is created where one exists");
    }
    Serie operator()(const Dataframe &) const {
        {
            Off off;
            if (!g->callbacks.count(this) || mem.size() != 40) sim::violation("used-after-destruction", "a callback is called after its destruction");
        }
        g->use();
        return Serie(1, mem);
    }
};

struct Thread {
    Registry g;
    std::unique_ptr<Manager> m[MANAGERS];
    std::vector<int> held[MANAGERS];  // ids, -1: not observed
    std::vector<int> callbacks[MANAGERS];
    int ncallbacks[MANAGERS] = {};
    bool cleared[MANAGERS] = {};
};

// a new decomposer; id: its place in the registry or -1
Decomposer *build(Thread &t, u64 v, int &id) {
    id = -1;
    int kind = (int)(v % (K_LIBRARY + DE_USER));
    String name = v & 4096 ? "observed attribute " + std::to_string(v >> 20 & 7) : "o" + std::to_string(v >> 20 & 7);
    String lname = v & 8192 ? "an attribute name that does not fit a small buffer" : "attr";
    switch (kind) {
    case K_OBSERVED:
    case K_OBSERVED2:
    {
        Off off;
        id = (int)t.g.items.size();
        t.g.items.emplace_back();
    }
        if (kind == K_OBSERVED) return new Observed<0>(&t.g, id, name);
        return new Observed<1>(&t.g, id, name);
    case K_CALLBACK: sim::probe(P_USER); return new UserDefinedDecomposer(1, lname, Callback(&t.g));
    default: sim::probe(P_LIBRARY);
    }
    switch (kind - K_LIBRARY) {
    case DE_COMPONENTS: return new Components();
    case DE_COORDINATES: return new Coordinates({lname, "y", lname + "2"});
    case DE_NORMALS: return new Normals(lname);
    case DE_AREA: return new Area(lname);
    case DE_VALENCE: return new Valence(lname);
    case DE_EIGENVALUES: return new EigenValues();
    default: return new EigenVectors();
    }
}
void discard(Thread &t, Decomposer *d) { // the caller destroys what it still owns
    t.g.busy = -2;
    delete d;
    t.g.busy = -1;
}

void check_held(Thread &t, const char *what) {
    Off off;
    for (int i = 0; i < MANAGERS; i++) {
        if (t.m[i] && t.m[i]->nbDecomposers() != t.held[i].size())
            sim::violation("wrong-number", "%s: manager %d has %u decomposers, accepted %zu", what, i, (unsigned)t.m[i]->nbDecomposers(), t.held[i].size());
        for (int id : t.held[i])
            if (id >= 0 && !t.g.items[id].alive) sim::violation("destroyed-early", "%s: decomposer %d of manager %d is destroyed", what, id, i);
    }
    for (size_t i = 0; i < t.g.items.size(); i++)
        if (t.g.items[i].holder == -3 && t.g.items[i].alive) sim::violation("not-destroyed", "%s: decomposer %zu was not destroyed with its manager", what, i);
}
void released(Thread &t, int i, const char *what) {
    Off off;
    for (int id : t.held[i])
        if (id >= 0) {
            t.g.items[id].holder = -3;
            if (t.g.items[id].alive) sim::violation("not-destroyed", "%s: decomposer %d of manager %d still exists", what, id, i);
        }
    t.held[i].clear();
    t.ncallbacks[i] = 0;
    size_t n = 0;
    for (int j = 0; j < MANAGERS; j++) n += t.ncallbacks[j];
    if (t.g.callbacks.size() != n) sim::violation("not-destroyed", "%s: %zu callbacks of user defined decomposers exist, %zu expected", what, t.g.callbacks.size(), n);
}
void destroy(Thread &t, int i, const char *what) {
    if (!t.m[i]) return;
    if (t.cleared[i] && t.held[i].empty()) sim::probe(P_DESTROY_CLEARED);
    t.g.busy = i;
    t.m[i].reset();
    t.g.busy = -1;
    released(t, i, what);
    sim::probe(P_DESTROY);
}
template <class M> void copy_manager(Thread &t, int i) {
    if constexpr (std::is_copy_constructible_v<M>) { // a copy must not share what both destroy
        M *c = new M(*t.m[i]);
        if (c->nbDecomposers() == t.m[i]->nbDecomposers()) c->names(1);
        // all observed ones still belong to the original; a copy would have to make its own
        delete c;
        check_held(t, "destruction of a copy");
    }
}

void step(Thread &t, const Step &o, const Dataframe &d) {
    int i = o.manager;
    char what[100];
    snprintf(what, sizeof what, "%s (manager %d)", step_names[o.kind], i);
    auto arm = [&] {
        if (o.fail) sim::alloc_fault((u64)o.fail, o.mode & 1);
    };
    auto accept = [&](int id, Decomposer *x) {
        if (id >= 0) t.g.items[id].holder = i;
        t.held[i].push_back(id);
        if (dynamic_cast<UserDefinedDecomposer<Callback> *>(x)) t.ncallbacks[i]++;
    };
    bool oom = false;
    Outcome ex;
    switch (o.kind) {
    case S_NEW:
        destroy(t, i, what);
        t.m[i] = std::make_unique<Manager>(d);
        t.cleared[i] = false;
        break;
    case S_NEW_WITH: {
        destroy(t, i, what);
        std::vector<Decomposer *> v;
        std::vector<int> ids;
        void *mem;
        Rng r(o.v);
        v.reserve(6);
        ids.reserve(6);
        for (u64 k = r.below(6); k; k--) {
            int id;
            v.push_back(build(t, r.next() >> 1, id));
            ids.push_back(id);
        }
        mem = ::operator new(sizeof(Manager));
        Manager *m = nullptr;
        arm();
        try {
            m = new (mem) Manager(d, v, o.v & 1 ? 3 : 2);
        } catch (...) {
            ex = current_exception_outcome();
        }
        oom = sim::alloc_fault_end();
        if (!m) {
            sim::probe(P_INITIAL_OOM);
            {
                Off off;
                ::operator delete(mem);
                if (!oom || !ex.oom) sim::violation("unexpected-exception", "%s: %s", what, ex.str().c_str());
            }
            for (auto x : v) discard(t, x);
            check_held(t, what);
            break;
        }
        sim::probe(P_INITIAL);
        t.m[i].reset(m);
        t.cleared[i] = false;
        Off off;
        for (size_t k = 0; k < v.size(); k++) accept(ids[k], v[k]);
        break;
    }
    case S_ADD: {
        if (!t.m[i]) break;
        int id;
        Decomposer *x = build(t, o.v, id);
        arm();
        bool threw = false;
        try {
            t.m[i]->add(x);
        } catch (...) {
            threw = true;
            ex = current_exception_outcome();
        }
        oom = sim::alloc_fault_end();
        if (threw) {
            sim::probe(P_ADD_OOM);
            {
                Off off;
                if (!oom || !ex.oom) sim::violation("unexpected-exception", "%s: %s", what, ex.str().c_str());
            }
            discard(t, x); // still the caller's
        } else {
            Off off;
            if (t.cleared[i]) sim::probe(P_REUSE);
            accept(id, x);
            sim::probe(P_ADD);
            if (t.held[i].size() > 8) sim::probe(P_MANY);
            if (t.held[i].size() > 4) sim::probe(P_GROW);
        }
        break;
    }
    case S_CLEAR: {
        if (!t.m[i]) break;
        sim::probe(t.held[i].empty() ? P_CLEAR_EMPTY : P_CLEAR);
        t.g.busy = i;
        arm();
        try {
            t.m[i]->clear();
        } catch (...) {
            Off off;
            sim::violation("unexpected-exception", "%s: %s", what, current_exception_outcome().str().c_str());
        }
        sim::alloc_fault_end();
        t.g.busy = -1;
        released(t, i, what);
        t.cleared[i] = true;
        if (t.m[i]->nbDecomposers()) sim::violation("wrong-number", "%s: %u decomposers are left", what, (unsigned)t.m[i]->nbDecomposers());
        // only the dataframe's own series are listed
        for (uint32_t is : {1, 3, 6}) {
            Strings n = t.m[i]->names(is);
            Off off;
            for (const auto &x : n)
                if (!d.contains(x)) sim::violation("listed-after-clear", "%s: \"%s\" is still listed for item size %u", what, x.c_str(), is);
        }
        break;
    }
    case S_QUERY: {
        if (!t.m[i]) break;
        sim::probe(P_QUERY);
        t.g.calls = 0;
        t.g.thrown = false;
        std::string name;
        std::set<int> before;
        {
            Off off;
            name = o.v & 16 ? "o" + std::to_string(o.v >> 20 & 7) : query_arg(o.v >> 8);
            for (int id : t.held[i])
                if (id >= 0) before.insert(t.g.items[id].uses);
        }
        uint32_t is = o.v % 4 == 0 ? 3 : 1;
        if (o.fail && o.mode < 2) arm();
        if (o.fail && o.mode >= 2) {
            t.g.throw_at = o.fail % 5;
            t.g.kind = (int)(o.v >> 5);
        }
        Outcome r = outcome_of([&] {
            switch (o.v >> 6 & 3) {
            case 0: return words(t.m[i]->names(is));
            case 1: return words(t.m[i]->contains(is, name));
            default: return words(t.m[i]->serie(is, name));
            }
        });
        oom = sim::alloc_fault_end();
        t.g.throw_at = -1;
        Off off;
        if (t.g.thrown) sim::probe(P_QUERY_THROW);
        if (oom && !r.ok) sim::probe(P_QUERY_OOM);
        if (!r.ok && !oom && !t.g.thrown) sim::violation("unexpected-exception", "%s: %s", what, r.str().c_str());
        sim::log(r.hash());
        break;
    }
    case S_DESTROY: destroy(t, i, what); break;
    case S_COPY:
        if (t.m[i]) copy_manager<Manager>(t, i);
        break;
    }
    check_held(t, what);
    int n = 0;
    for (auto &x : t.m) n += x != nullptr;
    if (n > 1) sim::probe(P_TWO_MANAGERS);
    sim::log(t.g.items.size() * 64 + t.held[i].size());
}

void play(const std::vector<Step> &steps, int nt, uint32_t n, u64 seed, bool frame_goes) {
    auto d = std::make_unique<Dataframe>();
    {
        Off off;
        fill_frame(*d, seed, n, seed);
    }
    on_threads(nt, [&](int k) {
        Thread *t;
        {
            Off off;
            t = new Thread();
        }
        for (const auto &s : steps)
            if (s.thread == k) step(*t, s, *d);
        if (nt == 1 && frame_goes) { // a manager does not need its dataframe in order to go
            bool any = false;
            for (auto &m : t->m) any |= m != nullptr;
            if (any) sim::probe(P_FRAME_GONE);
            d.reset();
        }
        for (int i = 0; i < MANAGERS; i++) destroy(*t, i, "the end");
        Off off;
        for (size_t i = 0; i < t->g.items.size(); i++)
            if (t->g.items[i].alive) sim::violation("not-destroyed", "decomposer %zu exists at the end", i);
        if (!t->g.callbacks.empty()) sim::violation("not-destroyed", "%zu callbacks of user defined decomposers exist at the end", t->g.callbacks.size());
        delete t;
    });
}

void exec(const Plan &p) {
    std::vector<Step> steps;
    int nt = 1;
    uint32_t n = 3;
    u64 seed = 1;
    bool goes = false;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_STEP) {
                steps.push_back({(int)o.mod(0, 3), (int)o.mod(1, S_KINDS), (int)o.mod(2, MANAGERS), (u64)o.at(3), (i64)o.mod(4, 100), (int)o.mod(5, 4)});
                nt = std::max(nt, steps.back().thread + 1);
            } else {
                n = 1 + (uint32_t)o.mod(0, 8);
                seed = (u64)o.at(1);
                goes = o.at(2) & 1;
            }
        if (nt > 1) sim::probe(P_THREADS);
    }
    if (nt > 1) {
        play(steps, nt, n, seed, false);
        return;
    }
    // what is left behind by the whole history, every time
    uint64_t b0, b1, y0, y1;
    for (int i = 0; i < 3; i++) {
        sim::live(&b0, &y0);
        play(steps, nt, n, seed, goes);
        sim::live(&b1, &y1);
        if (b1 <= b0) return;
    }
    sim::violation("leak", "%llu blocks (%lld bytes) are left after all managers are destroyed, each time", (unsigned long long)(b1 - b0), (long long)(y1 - y0));
}

const char *op_name(int k) { return k == O_START ? "start(count,series,dataframeGoesFirst)" : "step(thread,kind,manager,variant,failingAt,mode)"; }

} // namespace

sim::Harness sim::harness = {"C16", gen, exec, op_name,
                             {"decomposer added", "add out of memory", "manager created with decomposers", "the same out of memory", "manager cleared", "empty manager cleared", "cleared manager used again", "manager destroyed", "cleared manager destroyed", "query",
                              "query out of memory", "query whose decomposer throws", "more than eight decomposers", "several threads", "user defined decomposer", "decomposers of the library", "several managers", "more than four decomposers", "dataframe destroyed before its managers"}};
