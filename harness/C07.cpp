// C07: copies of series are independent values, also across threads.
#include "common.h"
#include <dataframe/Dataframe.h>
#include <map>
#include <mutex>
#include <optional>
using namespace h;

namespace {

enum { O_SERIE, O_STEP };
enum { P_CTOR, P_ASSIGN, P_CLONE, P_SELF, P_FRAME_IN, P_FRAME_OUT, P_FRAME_SELF, P_COLLECTION, P_RETURNED, P_SWAP, P_MODIFIED, P_RECOUNT, P_RAW, P_THREADS, P_MAIL_PUT, P_MAIL_TAKE, P_SOURCE_MODIFIED, P_FRAMECOPY, P_OOM_COPY, P_OOM_ASSIGN, P_EMPTY, P_CHAIN, P_FRAMEREF, P_KEPT };
enum {
    S_CTOR, S_ASSIGN, S_CLONE, S_SELF, S_FRAME_ADD, S_FRAME_GET, S_FRAME_REF, S_FRAME_SELF, S_FRAME_CROSS, S_FRAME_COPY, S_FRAME_DEL,
    S_PUSH, S_ERASE, S_FROM_COLL, S_COLL_MOD, S_RETURN, S_SWAP, S_SCALAR, S_VALUE, S_SET, S_RECOUNT, S_RAW, S_RAWRESIZE, S_SHARED, S_PUT, S_TAKE, S_TEMP, S_CHAIN, S_INIT, S_TOSERIE, S_KEPT, S_KINDS
};
const int SLOTS = 4;

void gen(Rng &r, Plan &p) {
    static const int isz[] = {1, 1, 2, 3, 3, 6, 9};
    int ns = 1 + r.below(3);
    for (int i = 0; i < ns; i++)
        p.add(O_SERIE, {isz[r.below(7)], r.chance(10) ? 0 : r.chance(2) ? r.range(60, 3000) : r.small(r.chance(10) ? 60 : 12), (i64)r.below(5), (i64)r.below(V_KINDS), (i64)(r.next() >> 1)});
    int nt = r.chance(25) ? 1 : 2 + r.below(3);
    int n = nt * 2 + r.below(r.chance(20) ? 50 : 16);
    for (int i = 0; i < n; i++)
        p.add(O_STEP, {i < nt ? (i64)i : (i64)r.below(nt), (i64)r.below(S_KINDS), (i64)r.below(SLOTS), (i64)r.below(SLOTS), (i64)(r.next() >> 1), r.chance(12) ? 1 + (i64)r.below(3) : 0});
}

struct Step {
    int thread, kind, a, b;
    u64 v;
    i64 fail;
};

struct Mail { // handed over between threads under a lock
    std::mutex m;
    std::optional<df::Serie> s;
    Model model;
};

df::Serie by_value(df::Serie s) { return s; }
df::Serie make_and_return(const df::Serie &s) {
    df::Serie r = s;
    return r;
}
const df::Serie &pass(const df::Serie &s) { return s; }

// everything a series shows about itself agrees with the model
void check(const df::Serie &s, const Model &m, const char *what, const char *when) {
    Model x;
    x.itemSize = s.itemSize();
    x.count = s.count();
    x.dim = s.dimension();
    const Array &a = s.asArray();
    Off off;
    x.v = a;
    if (!(x == m)) sim::violation("not-independent", "%s after %s: should be %s, is %s", what, when, m.str().c_str(), x.str().c_str());
}
void check_items(const df::Serie &s, const Model &m, const char *what, const char *when) {
    for (uint32_t i = 0; i < s.count() && i < 3; i++) {
        Array v = s.value(i);
        double x = s.itemSize() ? s.scalar(i * s.itemSize()) : 0;
        Off off;
        for (size_t j = 0; j < v.size(); j++)
            if (sim::bits(v[j]) != sim::bits(m.v[i * m.itemSize + j])) sim::violation("not-independent", "%s after %s: item %u component %zu is %.17g, should be %.17g", what, when, i, j, v[j], m.v[i * m.itemSize + j]);
        if (m.itemSize && sim::bits(x) != sim::bits(m.v[i * m.itemSize])) sim::violation("not-independent", "%s after %s: scalar %u", what, when, i);
    }
}

static const char *const NAMES[] = {"a", "b", "c"};
static const char *const step_names[] = {"copy construction", "assignment", "clone", "self-assignment", "storing in a dataframe", "copy out of a dataframe", "modification through a dataframe", "storing a dataframe's series under its own name",
                                         "storing a dataframe's series under another name", "copy of a dataframe", "deletion from a dataframe", "storing in a collection", "removal from a collection", "copy out of a collection", "modification in a collection", "return by value", "swap",
                                         "setScalar", "setValue", "set", "reCount", "change of the raw array", "replacement of the raw array", "copy of a shared series", "handing over to a thread", "taking over from a thread", "modification of a temporary", "chained assignment", "construction from values", "toSerie", "a copy, and modification through a reference taken before it"};
static_assert(sizeof step_names / sizeof *step_names == S_KINDS);

struct Worker { // everything one thread owns
    df::Serie slot[SLOTS];
    Model model[SLOTS];
    df::Dataframe frame;
    std::map<std::string, Model> fmodel;
    df::Series coll;
    std::vector<Model> cmodel;

    void verify(const char *when) {
        for (int i = 0; i < SLOTS; i++) {
            char n[16];
            snprintf(n, sizeof n, "slot %d", i);
            check(slot[i], model[i], n, when);
        }
        size_t k = 0;
        for (const auto &[n, s] : frame.series()) {
            const Model *m;
            {
                Off off;
                auto it = fmodel.find(n);
                if (it == fmodel.end()) sim::violation("not-independent", "dataframe has a series %s after %s", n.c_str(), when);
                m = &it->second;
            }
            check(s, *m, "stored series", when);
            k++;
        }
        {
            Off off;
            if (k != fmodel.size()) sim::violation("not-independent", "dataframe has %zu series after %s, should have %zu", k, when, fmodel.size());
            if (coll.size() != cmodel.size()) sim::violation("not-independent", "collection");
        }
        for (size_t i = 0; i < coll.size(); i++) check(coll[i], cmodel[i], "collected series", when);
    }
    void step(const Step &s, const std::vector<df::Serie> &shared, const std::vector<Model> &smodel, Mail &mail);
};

void Worker::step(const Step &st, const std::vector<df::Serie> &shared, const std::vector<Model> &smodel, Mail &mail) {
    df::Serie &A = slot[st.a];
    const df::Serie &B = slot[st.b];
    Model &MA = model[st.a];
    Model &MB = model[st.b];
    u64 v = st.v;
    double x;
    std::string name, name2;
    {
        Off off;
        x = gen_array(v, V_UNIFORM, 1)[0];
        name = NAMES[v % 3];
        name2 = NAMES[v / 3 % 3];
    }
    if (st.fail) sim::alloc_fault((u64)st.fail, st.fail == 2);
    bool oom = false;
    auto model = [&](auto f) { // the plain-data side
        u64 fired = sim::alloc_fault_end();
        (void)fired;
        Off off;
        f();
    };
    try {
        switch (st.kind) {
        case S_CTOR: {
            df::Serie t(B);
            Model m;
            model([&] { m = MB; });
            check(t, m, "copy", "construction");
            if (t.count() && t.itemSize()) {
                t.setScalar(0, x);
                model([&] { m.v[0] = x; });
            }
            check(t, m, "copy", "its modification");
            A = t;
            model([&] { MA = m; });
            if (t.count() && t.itemSize()) t.setScalar(0, x + 1);
            sim::probe(P_CTOR);
            break;
        }
        case S_ASSIGN: {
            df::Serie &r = (A = B);
            model([&] {
                if (&r != &A) sim::violation("not-independent", "assignment does not return its target");
                MA = MB;
            });
            sim::probe(P_ASSIGN);
            break;
        }
        case S_CLONE: {
            A = B.clone();
            model([&] { MA = MB; });
            sim::probe(P_CLONE);
            break;
        }
        case S_SELF: {
            const df::Serie &same = pass(A);
            A = same;
            sim::alloc_fault_end();
            sim::probe(P_SELF);
            break;
        }
        case S_FRAME_ADD: {
            if (v & 64)
                frame.add(name, B);
            else
                frame.set(name, B);
            model([&] { fmodel[name] = MB; });
            sim::probe(P_FRAME_IN);
            break;
        }
        case S_FRAME_GET: {
            const df::Dataframe &c = frame;
            const df::Serie &s = v & 64 ? c[name] : c.get(name);
            if (s.isValid()) {
                A = s;
                model([&] { MA = fmodel.at(name); });
                sim::probe(P_FRAME_OUT);
            }
            break;
        }
        case S_FRAME_REF: {
            if (!frame.contains(name)) break;
            df::Serie &s = v & 64 ? frame[name] : frame.get(name);
            if (v & 128) {
                s = B;
                model([&] { fmodel[name] = MB; });
            } else if (s.size()) {
                s.setScalar(0, x);
                model([&] { fmodel[name].v[0] = x; });
            }
            sim::probe(P_FRAMEREF);
            break;
        }
        case S_FRAME_SELF: {
            if (!frame.contains(name)) break;
            frame.add(name, frame[name]);
            sim::alloc_fault_end();
            sim::probe(P_FRAME_SELF);
            break;
        }
        case S_FRAME_CROSS: {
            if (!frame.contains(name)) break;
            frame.set(name2, frame.get(name));
            model([&] { fmodel[name2] = fmodel.at(name); });
            break;
        }
        case S_FRAME_COPY: {
            df::Dataframe c(frame);
            sim::alloc_fault_end();
            if (v & 64) {
                for (const auto &n : NAMES)
                    if (c.contains(n) && c[n].size()) c[n].setScalar(0, x);
                c.del(name);
                verify("modification of a copy of the dataframe");
            } else {
                std::map<std::string, Model> old;
                model([&] { old = fmodel; });
                for (const auto &n : NAMES)
                    if (frame.contains(n) && frame[n].size()) {
                        frame[n].setScalar(0, x);
                        model([&] { fmodel[n].v[0] = x; });
                    }
                if (v & 128)
                    frame = c;
                else
                    std::swap(frame, c);
                model([&] { fmodel.swap(old); });
                verify("taking a dataframe's content back from its copy");
                model([&] { old.clear(); });
            }
            sim::probe(P_FRAMECOPY);
            break;
        }
        case S_FRAME_DEL: {
            frame.del(name);
            model([&] { fmodel.erase(name); });
            break;
        }
        case S_PUSH: {
            if (coll.size() > 5) break;
            if (coll.size() && (v & 64)) {
                size_t k = v / 128 % coll.size();
                coll.push_back(coll[k]);
                model([&] {
                    Model m = cmodel[k];
                    cmodel.push_back(m);
                });
            } else {
                coll.push_back(B);
                model([&] { cmodel.push_back(MB); });
            }
            sim::probe(P_COLLECTION);
            break;
        }
        case S_ERASE: {
            if (coll.empty()) break;
            sim::alloc_fault_end(); // erase assigns: without faults
            size_t k = v / 128 % coll.size();
            coll.erase(coll.begin() + k);
            model([&] { cmodel.erase(cmodel.begin() + k); });
            break;
        }
        case S_FROM_COLL: {
            if (coll.empty()) break;
            size_t k = v / 128 % coll.size();
            A = coll[k];
            model([&] { MA = cmodel[k]; });
            break;
        }
        case S_COLL_MOD: {
            if (coll.empty()) break;
            size_t k = v / 128 % coll.size();
            if (coll[k].size()) {
                coll[k].asArray()[0] = x;
                model([&] { cmodel[k].v[0] = x; });
            }
            break;
        }
        case S_RETURN: {
            if (v & 64)
                A = by_value(B);
            else
                A = make_and_return(B);
            model([&] { MA = MB; });
            sim::probe(P_RETURNED);
            break;
        }
        case S_SWAP: {
            sim::alloc_fault_end(); // three copies: without faults
            std::swap(slot[st.a], slot[st.b]);
            model([&] { std::swap(this->model[st.a], this->model[st.b]); });
            sim::probe(P_SWAP);
            break;
        }
        case S_SCALAR: {
            uint32_t n = A.size();
            if (!n) break;
            uint32_t i = (uint32_t)(v % n);
            A.setScalar(i, x);
            model([&] { MA.v[i] = x; });
            sim::probe(P_MODIFIED);
            break;
        }
        case S_VALUE:
        case S_SET: {
            uint32_t n = A.count();
            if (!n || !A.itemSize()) break;
            uint32_t i = (uint32_t)(v % n);
            Array w(A.itemSize(), x);
            if (st.kind == S_VALUE)
                A.setValue(i, w);
            else if (v & 64)
                A.set(i, w);
            else
                A.set(i * A.itemSize(), x);
            model([&] {
                for (size_t j = 0; j < MA.itemSize && (j == 0 || st.kind == S_VALUE || (v & 64)); j++) MA.v[i * MA.itemSize + j] = x;
            });
            sim::probe(P_MODIFIED);
            break;
        }
        case S_RECOUNT: {
            uint32_t c = v % 128 == 127 ? v / 128 % 64 == 5 ? (uint32_t)Rng(v).huge() : (uint32_t)(v / 128 % 2500) : (uint32_t)(v % 9);
            A.reCount(c);
            model([&] {
                MA.count = c;
                MA.v.assign(c * MA.itemSize, 0.0);
            });
            sim::probe(P_RECOUNT);
            break;
        }
        case S_RAW: {
            Array &a = A.asArray();
            if (a.empty()) break;
            a[v % a.size()] = x;
            model([&] { MA.v[v % MA.v.size()] = x; });
            sim::probe(P_RAW);
            break;
        }
        case S_RAWRESIZE: { // other values of the same number
            Array &a = A.asArray();
            a = Array(a.size(), x);
            model([&] { std::fill(MA.v.begin(), MA.v.end(), x); });
            break;
        }
        case S_KEPT: { // the values are reached by a reference that is older than the copy
            sim::alloc_fault_end();
            Array &a = slot[st.b].asArray();
            if (a.empty() || &A == &B) break;
            switch (v / 64 % 4) {
            case 0: A = B; break;
            case 1: A = B.clone(); break;
            case 2: A = df::Serie(B); break;
            default: {
                df::Dataframe f;
                f.add("k", B);
                A = f.get("k");
            }
            }
            a[v % a.size()] = x;
            model([&] {
                MA = MB;
                MB.v[v % MB.v.size()] = x;
            });
            sim::probe(P_KEPT);
            break;
        }
        case S_SHARED: { // the source is shared by all threads, which only read it
            size_t k = v / 128 % shared.size();
            A = shared[k];
            model([&] { MA = smodel[k]; });
            break;
        }
        case S_PUT: {
            std::lock_guard<std::mutex> l(mail.m);
            if (v & 64) {
                mail.s.reset();
                mail.s.emplace(B);
            } else {
                df::Serie t = B;
                mail.s.reset();
                mail.s.emplace(t);
            }
            model([&] { mail.model = MB; });
            sim::probe(P_MAIL_PUT);
            break;
        }
        case S_TAKE: {
            std::lock_guard<std::mutex> l(mail.m);
            if (!mail.s) break;
            check(*mail.s, mail.model, "series handed over", "waiting");
            A = *mail.s;
            model([&] { MA = mail.model; });
            if (v & 64) mail.s.reset();
            sim::probe(P_MAIL_TAKE);
            break;
        }
        case S_TEMP: {
            df::Serie t = B;
            sim::alloc_fault_end();
            t.reCount(3);
            t = df::Serie(2, Array{1, 2, 3, 4});
            t.asArray().clear();
            break;
        }
        case S_CHAIN: {
            int c = (int)(v / 64 % SLOTS);
            sim::alloc_fault_end();
            slot[c] = A = B;
            model([&] {
                Model m = MB;
                MA = m;
                this->model[c] = m;
            });
            sim::probe(P_CHAIN);
            break;
        }
        case S_TOSERIE: {
            uint32_t is = B.itemSize();
            if (!is) break;
            Array a = B.asArray();
            A = df::toSerie(is, a, B.dimension());
            a.assign(a.size(), x);
            model([&] { MA = MB; });
            break;
        }
        default: {
            int is = 1 + (int)(v % 4);
            uint32_t n = (uint32_t)(v / 8 % 5);
            Array a(is * n, x);
            df::Serie t(is, a, 2);
            a.assign(a.size(), x + 1);
            a.clear();
            A = t;
            model([&] {
                MA.itemSize = is;
                MA.count = n;
                MA.dim = 2;
                MA.v.assign(is * n, x);
            });
            break;
        }
        }
    } catch (const std::bad_alloc &) {
        oom = true;
    }
    sim::alloc_fault_end();
    if (oom) {
        Off off;
        sim::probe(st.kind == S_CTOR || st.kind == S_CLONE || st.kind == S_RETURN ? P_OOM_COPY : P_OOM_ASSIGN);
        if (!st.fail) sim::violation("unexpected-exception", "out of memory at %s", step_names[st.kind]);
        // an interrupted put leaves no series behind
        if (st.kind == S_PUT && !mail.s) return;
    }
}

void exec(const Plan &p) {
    std::vector<df::Serie> shared;
    std::vector<Model> smodel;
    std::vector<Step> steps;
    Mail mail;
    int nt = 1;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_SERIE && shared.size() < 4) {
                shared.push_back(make_serie(1 + (int)((o.at(0) < 1 ? 0 : o.at(0) - 1) % 9), (uint32_t)o.mod(1, 4000), (unsigned)o.mod(2, 5), (int)o.mod(3, V_KINDS), (u64)o.at(4)));
            } else if (o.kind == O_STEP) {
                Step s{(int)o.mod(0, 5), (int)o.mod(1, S_KINDS), (int)o.mod(2, SLOTS), (int)o.mod(3, SLOTS), (u64)o.at(4), (i64)o.mod(5, 4)};
                nt = std::max(nt, s.thread + 1);
                steps.push_back(s);
            }
        if (shared.empty()) shared.push_back(make_serie(3, 4, 3, V_INDEX, 1));
        for (auto &s : shared) {
            smodel.push_back(model_of(s));
            if (!s.count()) sim::probe(P_EMPTY);
        }
    }
    if (nt > 1) sim::probe(P_THREADS);
    std::vector<std::unique_ptr<Worker>> w;
    for (int t = 0; t < nt; t++) {
        auto x = std::make_unique<Worker>();
        for (int i = 0; i < SLOTS; i++) { // copies of common sources, made by this thread, used by another
            x->slot[i] = shared[(t + i) % shared.size()];
            Off off;
            x->model[i] = smodel[(t + i) % shared.size()];
        }
        if (t % 2) {
            x->frame.add("a", shared[0]);
            x->coll.push_back(shared[0]);
            Off off;
            x->fmodel["a"] = smodel[0];
            x->cmodel.push_back(smodel[0]);
        }
        w.push_back(std::move(x));
    }
    auto body = [&](int t) {
        Worker &me = *w[t];
        for (const auto &s : steps) {
            if (s.thread != t) continue;
            me.step(s, shared, smodel, mail);
            me.verify(step_names[s.kind]);
        }
    };
    on_threads(nt, body);
    // the sources change, the copies do not
    for (size_t i = 0; i < shared.size(); i++) {
        check(shared[i], smodel[i], "shared series", "being copied");
        check_items(shared[i], smodel[i], "shared series", "being copied");
        for (auto &x : shared[i].asArray()) x = -7;
        shared[i].reCount(2);
        sim::probe(P_SOURCE_MODIFIED);
    }
    for (auto &x : w) {
        x->verify("modification of the sources");
        for (int i = 0; i < SLOTS; i++) check_items(x->slot[i], x->model[i], "slot", "modification of the sources");
    }
    {
        Off off;
        for (auto &x : w)
            for (auto &m : x->model) sim::log(hash_words(words(m.v)) ^ m.count);
    }
}

const char *op_name(int k) { return k == O_SERIE ? "series(itemSize,count,dim,values,seed)" : "step(thread,kind,target,source,variant,failingAllocation)"; }

} // namespace

sim::Harness sim::harness = {"C07", gen, exec, op_name,
                             {"copy construction", "assignment", "clone", "self-assignment", "stored in a dataframe", "copied out of a dataframe", "stored under its own name again", "stored in a collection", "returned by value", "swapped",
                              "item modified", "count modified", "raw array modified", "several threads", "handed over", "taken over", "source modified afterwards", "dataframe copied", "out of memory while copying", "out of memory while assigning",
                              "empty series", "chained assignment", "modified through the dataframe", "modified through a reference taken before the copy"}};
