// C19: vectors and matrices are independent values.
#include "common.h"
#include <cmath>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>
using namespace h;
using df::Matrix;
using df::Vector;

namespace {

enum { O_START, O_STEP };
enum {
    P_MAKE, P_COPY, P_SELFCOPY, P_NORMALIZE, P_ZERO, P_SCALE, P_COMPONENTS, P_WITH_ITSELF, P_CHAIN, P_READ, P_TEXT, P_MATRIX, P_SYM, P_NOTSYM, P_PRODUCT, P_MISMATCH, P_OOM, P_OOM_DONE, P_SHARED, P_THREADS, P_LONG, P_EMPTY, P_LARGE, P_SQUARE, P_SYMSQUARE,
    P_GIVEN_CHANGED
};
enum {
    S_MAKE, S_COPY, S_NORMALIZE, S_SCALE, S_MULT, S_ADD, S_SUB, S_CHAIN, S_NORM, S_DOT, S_READ, S_TEXT, S_MMAKE, S_MSQUARED, S_MSYM, S_MCOPY, S_MREAD, S_MTRACE, S_MISSYM, S_MARRAY, S_MTRANSPOSE, S_MULTVEC, S_MULTMAT, S_KINDS
};
static const char *const step_names[] = {"making a vector", "assignment of a vector", "normalize", "mult by a number", "mult by a vector", "add", "sub", "several operations in a row", "norm", "dot", "reading a vector", "toString", "making a matrix", "squaredMatrix", "symSquaredMatrix", "copy of a matrix", "reading a matrix", "trace", "isSymmetric", "array of a matrix", "transpose", "multVec", "multMat"};
static_assert(sizeof step_names / sizeof *step_names == S_KINDS);
const int OWN = 3, POOL = 3;

void gen(Rng &r, Plan &p) {
    p.add(O_START, {(i64)(r.next() >> 1), (i64)r.below(5)});
    int nt = r.chance(55) ? 1 : 2 + r.below(3);
    int n = nt + r.below(r.chance(20) ? 120 : 30);
    int fault = r.chance(35) ? 0 : 30;
    u64 kinds = r.chance(60) ? ~0ull : r.next();
    for (int i = 0; i < n; i++) {
        int k = (int)r.below(S_KINDS);
        if (!(kinds >> k & 1)) k = r.chance(50) ? (int)r.below(S_TEXT + 1) : (int)S_ADD;
        p.add(O_STEP, {i < nt ? (i64)i : (i64)r.below(nt), k, (i64)r.below(OWN), (i64)r.below(OWN + POOL), (i64)(r.next() >> 1), r.chance(fault) ? 1 + r.small(4) : 0, (i64)r.chance(60)});
    }
}

struct Step {
    int thread, kind, a, b;
    u64 v;
    i64 fail;
    bool persistent;
};

// plain content
struct MModel {
    u64 m = 0;
    Array v;
};
struct State {
    Vector v[OWN];
    Array vm[OWN];
    std::unique_ptr<Matrix> m[OWN];
    MModel mm[OWN];
};
struct Pool { // read by all threads
    std::vector<Vector> v;
    std::vector<Array> vm;
    std::unique_ptr<Matrix> m[POOL];
    std::vector<MModel> mm;
};

bool same_bits(const Array &a, const Array &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (sim::bits(a[i]) != sim::bits(b[i])) return false;
    return true;
}
std::string show(const Array &a) {
    std::string s = "[";
    char b[40];
    for (size_t i = 0; i < a.size() && i < 30; i++) {
        snprintf(b, sizeof b, "%s%.17g", i ? " " : "", a[i]);
        s += b;
    }
    return s + (a.size() > 30 ? " ...]" : "]");
}
bool near(double want, double got, double scale) { return std::isfinite(want) && std::isfinite(scale) ? std::abs(want - got) <= 1e-12 * scale : true; }

void make_array(Array &a, u64 seed, size_t n) {
    Rng r(seed);
    a.resize(n);
    int kind = (int)r.below(5);
    for (auto &x : a) {
        double u = (double)(r.next() >> 11) * 0x1p-53;
        x = kind == 0 ? (double)(i64)r.below(9) - 4 : kind == 1 ? u : kind == 2 ? u * 20 - 10 : kind == 3 ? (u - 0.5) * 1e-3 : r.chance(80) ? 0.0 : u;
    }
}
size_t vector_length(u64 seed) {
    static const int n[] = {3, 3, 3, 2, 6, 1, 9, 0, 4, 12, 5, 17};
    return seed % 1000 == 7 ? 1000 + seed / 1000 % 300 : (size_t)n[seed / 1000 % 12];
}
size_t matrix_size(u64 seed) {
    static const int n[] = {3, 3, 2, 2, 1, 4, 5, 6};
    return seed % 500 == 7 ? 7 + seed / 500 % 14 : (size_t)n[seed / 1000 % 8];
}
void make_matrix(MModel &m, u64 seed) {
    m.m = matrix_size(seed);
    make_array(m.v, seed, m.m * m.m);
    if (sim::mix64(seed, 1) % 2)
        for (u64 i = 0; i < m.m; i++)
            for (u64 j = 0; j < i; j++) m.v[i * m.m + j] = m.v[j * m.m + i];
    // symmetric but for one element, by little or much
    if (m.m > 1 && sim::mix64(seed, 1) % 8 == 1) {
        static const double by[6] = {1e-12, 1e-9, 1e-6, 1e-3, -0.5, -1e-10};
        u64 i = 1 + sim::mix64(seed, 2) % (m.m - 1), j = sim::mix64(seed, 3) % i;
        m.v[i * m.m + j] += by[sim::mix64(seed, 4) % 6];
    }
}
bool symmetric(const MModel &m) {
    for (u64 i = 0; i < m.m; i++)
        for (u64 j = 0; j < i; j++)
            if (m.v[i * m.m + j] != m.v[j * m.m + i]) return false;
    return true;
}
// what is inside a matrix, by its own observers
Array content(const Matrix &m, u64 n) {
    Array r;
    for (u64 i = 0; i < n; i++)
        for (u64 j = 0; j < n; j++) r.push_back(m.at((unsigned)i, (unsigned)j));
    return r;
}

void expect(const char *what, const Array &got, const Array &want, const Array &scale) {
    bool ok = got.size() == want.size();
    for (size_t i = 0; ok && i < want.size(); i++) ok = near(want[i], got[i], scale.size() == want.size() ? scale[i] : std::abs(want[i]));
    if (!ok) sim::violation("wrong-values", "%s gives %s instead of %s", what, show(got).c_str(), show(want).c_str());
}

void step(State &st, const Pool &pool, const Step &o) {
    Vector &A = st.v[o.a];
    const Vector *B = o.b < OWN ? &st.v[o.b] : &pool.v[o.b - OWN];
    const Matrix &M = *st.m[o.a];
    const Matrix *N = o.b < OWN ? st.m[o.b].get() : pool.m[o.b - OWN].get();
    Array a, b, given, nextv; // contents before; argument; content of A after success
    MModel m, n, nextm;
    Vector own;       // an argument of the right length
    double x = 0;
    bool vchange = false, mchange = false, acceptable = true;
    std::unique_ptr<Matrix> made, made2;
    std::string text;
    {
        Off off;
        a = st.vm[o.a];
        b = o.b < OWN ? st.vm[o.b] : pool.vm[o.b - OWN];
        m = st.mm[o.a];
        n = o.b < OWN ? st.mm[o.b] : pool.mm[o.b - OWN];
        nextv = a;
        nextm = m;
        x = (double)(i64)(o.v % 33) / 8 - 2;
        if (o.b >= OWN) sim::probe(P_SHARED);
        if (o.kind >= S_MULT && o.kind <= S_DOT && o.kind != S_NORM && b.size() != a.size()) {
            make_array(b, o.v, a.size());
            own = Vector(b);
            B = &own;
        }
        if (o.kind == S_MAKE) make_array(given, o.v, vector_length(o.v / 16));
        if (o.kind == S_MMAKE || o.kind == S_MSQUARED) {
            make_matrix(nextm, o.v);
            given = nextm.v;
        }
        if (o.kind == S_MSYM) {
            nextm.m = matrix_size(o.v);
            make_array(given, o.v, nextm.m * (nextm.m + 1) / 2);
            nextm.v.assign(nextm.m * nextm.m, 0.0);
            size_t k = 0;
            for (u64 i = 0; i < nextm.m; i++)
                for (u64 j = i; j < nextm.m; j++) nextm.v[i * nextm.m + j] = nextm.v[j * nextm.m + i] = given[k++];
        }
        if (o.kind == S_MULTVEC) {
            if (o.v % 8 && b.size() != m.m) {
                make_array(b, o.v, m.m);
                own = Vector(b);
                B = &own;
            }
            acceptable = b.size() == m.m;
        }
        if (o.kind == S_MULTMAT) {
            if (o.v % 8 && n.m != m.m) {
                n.m = m.m;
                make_array(n.v, o.v, m.m * m.m);
                made2 = std::make_unique<Matrix>(n.v, (unsigned)n.m);
                N = made2.get();
            }
            acceptable = n.m == m.m;
        }
        if (a.size() > 900) sim::probe(P_LARGE);
        if (a.empty()) sim::probe(P_EMPTY);
    }
    bool self = B == &A;
    const Vector *back = nullptr; // what an operation in place gave back
    Array got, want, scale;       // results of reads
    bool yes = false, threw = false;
    Outcome ex;
    // kinds that change A on vector X with argument Y
    auto change = [&](Vector &X, const Vector &Y) -> const Vector * {
        switch (o.kind) {
        case S_NORMALIZE: return &X.normalize();
        case S_SCALE: return &X.mult(x);
        case S_MULT: return &X.mult(Y);
        case S_ADD: return &X.add(Y);
        case S_SUB: return &X.sub(Y);
        default: return &X.mult(2.0).add(Y).mult(0.5);
        }
    };
    if (o.fail) sim::alloc_fault((u64)o.fail, o.persistent);
    try {
        switch (o.kind) {
        case S_MAKE: {
            vchange = true;
            Vector t(given);
            {
                Off off;
                nextv = given;
                for (auto &y : given) y = 77; // what was given belongs to the caller
                sim::probe(P_GIVEN_CHANGED);
            }
            A = t;
            break;
        }
        case S_COPY:
            vchange = true;
            nextv = b;
            A = *B;
            break;
        case S_NORMALIZE:
        case S_SCALE:
        case S_MULT:
        case S_ADD:
        case S_SUB:
        case S_CHAIN:
            vchange = true;
            back = o.kind == S_CHAIN && o.fail ? &A.add(*B) : change(A, *B); // of several, some could be done
            break;
        case S_NORM: x = A.norm(); break;
        case S_DOT: x = A.dot(*B); break;
        case S_READ:
            got = A.array();
            yes = A.length() == a.size();
            for (size_t i = 0; i < a.size(); i++) yes &= sim::bits(A[(uint32_t)i]) == sim::bits(a[i]) && sim::bits(A.at((uint32_t)i)) == sim::bits(a[i]);
            break;
        case S_TEXT: text = A.toString(); break;
        case S_MMAKE: {
            mchange = true;
            made = std::make_unique<Matrix>(given, (unsigned)nextm.m);
            break;
        }
        case S_MSQUARED: {
            mchange = true;
            made = std::make_unique<Matrix>(df::squaredMatrix(given));
            break;
        }
        case S_MSYM: {
            mchange = true;
            made = std::make_unique<Matrix>(df::symSquaredMatrix(given));
            break;
        }
        case S_MCOPY:
            mchange = true;
            nextm = n;
            made = std::make_unique<Matrix>(*N);
            break;
        case S_MREAD:
            got = content(M, m.m);
            yes = M.length() == m.v.size();
            break;
        case S_MTRACE: x = M.trace(); break;
        case S_MISSYM: yes = M.isSymmetric(); break;
        case S_MARRAY: got = M.array().array(); break;
        case S_MTRANSPOSE: {
            Matrix t = M.transpose();
            got = content(t, m.m);
            break;
        }
        case S_MULTVEC: got = M.multVec(*B).array(); break;
        case S_MULTMAT: got = content(M.multMat(*N), m.m); break;
        }
    } catch (...) {
        threw = true;
        ex = current_exception_outcome();
    }
    u64 fired = sim::alloc_fault_end();
    Off off;
    char what[120];
    snprintf(what, sizeof what, "%s (%d, %d)%s%s", step_names[o.kind], o.a, o.b, self && o.kind < S_MMAKE ? " with itself" : "", fired ? ", out of memory" : "");
    if (threw && acceptable && !fired) sim::violation("unexpected-exception", "%s: %s", what, ex.str().c_str());
    if (threw && fired && acceptable && !ex.oom) sim::violation("wrong-exception", "%s: %s", what, ex.str().c_str());
    if (!threw && !acceptable) sim::violation("not-refused", "%s: sizes %zu and %llu were accepted", what, o.kind == S_MULTVEC ? b.size() : (size_t)n.m, (unsigned long long)m.m);
    if (threw && !acceptable) sim::probe(P_MISMATCH);
    if (threw) {
        if (fired) sim::probe(P_OOM);
    } else {
        if (fired) sim::probe(P_OOM_DONE);
        size_t len = a.size();
        if (back) {
            if (back != &A) sim::violation("other-object", "%s does not give back the vector it changed", what);
            want = a;
            scale.assign(len, 0.0);
            double norm = 0;
            for (double y : a) norm += y * y;
            norm = std::sqrt(norm);
            for (size_t i = 0; i < len; i++) {
                double y = self ? a[i] : i < b.size() ? b[i] : 0;
                int k = o.kind == S_CHAIN && o.fail ? (int)S_ADD : o.kind;
                switch (k) {
                case S_NORMALIZE: want[i] = norm ? a[i] / norm : NAN; break;
                case S_SCALE: want[i] = a[i] * x; break;
                case S_MULT: want[i] = a[i] * y; break;
                case S_ADD: want[i] = a[i] + y; break;
                case S_SUB: want[i] = a[i] - y; break;
                default: want[i] = self ? a[i] * 2 : (a[i] * 2 + y) / 2;
                }
                scale[i] = std::abs(a[i]) + std::abs(y) + std::abs(want[i]);
            }
            nextv = A.array();
            expect(what, nextv, want, scale);
            if (o.kind == S_NORMALIZE) sim::probe(norm ? P_NORMALIZE : P_ZERO);
            if (o.kind == S_SCALE) sim::probe(P_SCALE);
            if (o.kind == S_MULT || o.kind == S_ADD || o.kind == S_SUB) sim::probe(self ? P_WITH_ITSELF : P_COMPONENTS);
            if (o.kind == S_CHAIN) sim::probe(P_CHAIN);
            // the same on copies
            if (!(o.kind == S_CHAIN && o.fail)) {
                Vector X(a), Y(b);
                const Vector *r = change(X, self ? X : Y);
                if (!same_bits(r->array(), nextv)) sim::violation("not-repeatable", "%s gives %s, on copies %s", what, show(nextv).c_str(), show(r->array()).c_str());
            }
        }
        double mag = 0, sum = 0;
        switch (o.kind) {
        case S_MAKE: sim::probe(P_MAKE); break;
        case S_COPY: sim::probe(self ? P_SELFCOPY : P_COPY); break;
        case S_NORM:
            for (double y : a) sum += y * y;
            expect(what, Array{x}, Array{std::sqrt(sum)}, Array{std::sqrt(sum)});
            sim::probe(P_READ);
            break;
        case S_DOT:
            for (size_t i = 0; i < len; i++) {
                double y = self ? a[i] : b[i];
                sum += a[i] * y, mag += std::abs(a[i] * y);
            }
            expect(what, Array{x}, Array{sum}, Array{mag});
            sim::probe(P_READ);
            break;
        case S_READ:
            if (!yes || !same_bits(got, a)) sim::violation("wrong-values", "%s: %s instead of %s", what, show(got).c_str(), show(a).c_str());
            sim::probe(P_READ);
            break;
        case S_TEXT: {
            const char *c = text.c_str();
            size_t i = 0;
            bool ok = true;
            for (;; i++) {
                char *e;
                double y = std::strtod(c, &e);
                if (e == c) break;
                if (i >= len || std::abs(y - a[i]) > 1e-5 * (1 + std::abs(a[i]))) ok = !std::isfinite(i < len ? a[i] : 0);
                c = e;
            }
            if (!ok || i != len) sim::violation("wrong-text", "%s: \"%s\" for %s", what, text.substr(0, 200).c_str(), show(a).c_str());
            sim::probe(P_TEXT);
            break;
        }
        case S_MREAD:
            if (!yes || !same_bits(got, m.v)) sim::violation("wrong-values", "%s: %s instead of %s", what, show(got).c_str(), show(m.v).c_str());
            sim::probe(P_MATRIX);
            break;
        case S_MTRACE:
            for (u64 i = 0; i < m.m; i++) sum += m.v[i * m.m + i], mag += std::abs(m.v[i * m.m + i]);
            expect(what, Array{x}, Array{sum}, Array{mag});
            break;
        case S_MISSYM:
            if (yes != symmetric(m)) sim::violation("wrong-values", "%s: %d for %s", what, yes, show(m.v).c_str());
            sim::probe(yes ? P_SYM : P_NOTSYM);
            break;
        case S_MARRAY:
            if (symmetric(m)) {
                for (u64 i = 0; i < m.m; i++)
                    for (u64 j = i; j < m.m; j++) want.push_back(m.v[i * m.m + j]);
            } else
                want = m.v;
            expect(what, got, want, {});
            break;
        case S_MTRANSPOSE:
            for (u64 i = 0; i < m.m; i++)
                for (u64 j = 0; j < m.m; j++) want.push_back(m.v[j * m.m + i]);
            if (!same_bits(got, want)) sim::violation("wrong-values", "%s: %s instead of %s", what, show(got).c_str(), show(want).c_str());
            break;
        case S_MULTVEC:
            for (u64 i = 0; i < m.m; i++) {
                sum = mag = 0;
                for (u64 j = 0; j < m.m; j++) sum += m.v[i * m.m + j] * b[j], mag += std::abs(m.v[i * m.m + j] * b[j]);
                want.push_back(sum), scale.push_back(mag);
            }
            expect(what, got, want, scale);
            sim::probe(P_PRODUCT);
            break;
        case S_MULTMAT:
            for (u64 i = 0; i < m.m; i++)
                for (u64 j = 0; j < m.m; j++) {
                    sum = mag = 0;
                    for (u64 k = 0; k < m.m; k++) sum += m.v[i * m.m + k] * n.v[k * m.m + j], mag += std::abs(m.v[i * m.m + k] * n.v[k * m.m + j]);
                    want.push_back(sum), scale.push_back(mag);
                }
            expect(what, got, want, scale);
            sim::probe(P_PRODUCT);
            break;
        case S_MSQUARED: sim::probe(P_SQUARE); break;
        case S_MSYM: sim::probe(P_SYMSQUARE); break;
        }
        if (vchange) st.vm[o.a] = nextv;
        if (mchange) {
            st.m[o.a] = std::move(made);
            st.mm[o.a] = nextm;
        }
        sim::log(hash_words(words(got)) + sim::bits(x) + yes);
    }
    for (int i = 0; i < OWN; i++) {
        Array now = st.v[i].array();
        if (st.v[i].length() != now.size() || !same_bits(now, st.vm[i])) sim::violation(threw ? "changed-by-failure" : "wrong-state", "%s %s: vector %d should be %s, is %s", what, threw ? ex.str().c_str() : "done", i, show(st.vm[i]).c_str(), show(now).c_str());
        Array mnow = content(*st.m[i], st.mm[i].m);
        if (st.m[i]->length() != st.mm[i].v.size() || !same_bits(mnow, st.mm[i].v)) sim::violation(threw ? "changed-by-failure" : "wrong-state", "%s %s: matrix %d should be %s, is %s", what, threw ? ex.str().c_str() : "done", i, show(st.mm[i].v).c_str(), show(mnow).c_str());
        sim::log(hash_words(words(now)));
    }
    if (B == &own && !same_bits(own.array(), b)) sim::violation("argument-changed", "%s changed its argument from %s to %s", what, show(b).c_str(), show(own.array()).c_str());
}

void exec(const Plan &p) {
    std::vector<Step> steps;
    std::vector<std::unique_ptr<State>> st;
    Pool pool;
    int nt = 1;
    u64 seed = 1;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_STEP) {
                steps.push_back({(int)o.mod(0, 4), (int)o.mod(1, S_KINDS), (int)o.mod(2, OWN), (int)o.mod(3, OWN + POOL), (u64)o.at(4) & ~(1ull << 63), (i64)o.mod(5, 6), (bool)(o.at(6) & 1)});
                nt = std::max(nt, steps.back().thread + 1);
            } else
                seed = (u64)o.at(0) & ~(1ull << 63);
        if (steps.size() > 60) sim::probe(P_LONG);
        if (nt > 1) sim::probe(P_THREADS);
        auto make = [](u64 s, Vector &v, Array &vm, MModel &mm, std::unique_ptr<Matrix> &m) {
            make_array(vm, s, vector_length(sim::mix64(s, 2)));
            v = Vector(vm);
            make_matrix(mm, sim::mix64(s, 3) >> 1);
            m = std::make_unique<Matrix>(mm.v, (unsigned)mm.m);
        };
        pool.v.resize(POOL);
        pool.vm.resize(POOL);
        pool.mm.resize(POOL);
        for (int i = 0; i < POOL; i++) make(seed + i, pool.v[i], pool.vm[i], pool.mm[i], pool.m[i]);
        for (int t = 0; t < nt; t++) {
            st.push_back(std::make_unique<State>());
            // some threads start with copies of what is shared
            for (int i = 0; i < OWN; i++)
                if (sim::mix64(seed, t) % 2) {
                    st[t]->v[i] = pool.v[i];
                    st[t]->vm[i] = pool.vm[i];
                    st[t]->m[i] = std::make_unique<Matrix>(*pool.m[i]);
                    st[t]->mm[i] = pool.mm[i];
                } else
                    make(sim::mix64(seed + t, 10 + i) >> 1, st[t]->v[i], st[t]->vm[i], st[t]->mm[i], st[t]->m[i]);
        }
    }
    on_threads(nt, [&](int t) {
        for (const auto &s : steps)
            if (s.thread == t) step(*st[t], pool, s);
    });
    Off off;
    for (int i = 0; i < POOL; i++)
        if (!same_bits(pool.v[i].array(), pool.vm[i]) || !same_bits(content(*pool.m[i], pool.mm[i].m), pool.mm[i].v)) sim::violation("shared-changed", "shared vector or matrix %d has changed", i);
}

const char *op_name(int k) { return k == O_START ? "start(seed,unused)" : "step(thread,kind,target,other,variant,failingAllocation,persistent)"; }

} // namespace

sim::Harness sim::harness = {"C19", gen, exec, op_name,
                             {"vector made", "vector assigned", "vector assigned to itself", "normalize", "normalize of a zero vector", "scaling", "component-wise operation", "component-wise operation of a vector with itself", "several operations in a row", "numbers read", "text",
                              "matrix read", "symmetric matrix", "unsymmetric matrix", "product", "sizes that do not fit refused", "operation out of memory", "allocation failed, operation complete", "operand shared by threads", "several threads", "long history", "empty vector", "long vector", "squaredMatrix", "symSquaredMatrix",
                              "array changed after a vector was made from it"}};
