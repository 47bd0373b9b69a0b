// C15: attribute queries always reflect the current dataframe.
#include "frame.h"
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/functional/algebra/eigen.h>
#include <optional>
#include <set>
using namespace h;
using namespace df;

namespace {

enum { O_START, O_STEP };
enum {
    P_NAMES, P_SERIE, P_CONTAINS, P_ALL, P_AUDIT, P_OOM, P_THROW, P_AFTER_FAIL, P_REPEAT, P_VALUE, P_SHAPE, P_GONE, P_RENEWED, P_MESH, P_NOMESH, P_EIGEN, P_COMPONENT, P_COORD, P_USER, P_2D, P_CLEARED, P_TWO, P_ALONE, P_EMPTY, P_MODOOM,
    P_AMBIGUOUS, P_SETCOUNT, P_LONG, P_BROKEN, P_REFUSED
};
enum { S_ADD, S_OTHER, S_VALUE, S_DEL, S_CLEARFRAME, S_COUNT, S_ASSIGN, S_RENEW, S_DECOMPOSER, S_CLEARMANAGER, S_NEWMANAGER, S_QUERY, S_AUDIT, S_KINDS };
static const char *const step_names[] = {"add", "add other content", "change a value", "delete", "clear the dataframe", "setCount", "assign the dataframe", "a new dataframe in the place of the old one", "add a decomposer", "clear the manager", "a new manager", "query", "all queries"};
static_assert(sizeof step_names / sizeof *step_names == S_KINDS);
const int FRAMES = 2, MANAGERS = 2;

void gen(Rng &r, Plan &p) {
    int n = 4 + r.below(r.chance(15) ? 90 : 26);
    int fr = r.chance(60) ? 1 : 2, mg = r.chance(60) ? 1 : 2;
    u64 kinds = r.chance(50) ? ~0ull : r.next();
    p.add(O_START, {(i64)(r.next() >> 1), (i64)(kinds >> 1), r.chance(30) ? 2 : 3, r.chance(40) ? (i64)r.below(n) : -1, (i64)r.below(9), r.chance(70)});
    // a history keeps coming back to a few attributes
    u64 favourite[3] = {r.next(), r.next(), r.next()};
    int fault = r.chance(15) ? 0 : 40;
    for (int i = 0; i < n; i++) {
        int k = (int)r.below(30);
        k = k < 12 ? (int)S_QUERY : k < 15 ? (int)S_VALUE : k < 17 ? (int)S_ADD : k < 18 ? (int)S_AUDIT : (int)r.below(S_KINDS);
        u64 v = r.chance(60) ? favourite[r.below(3)] : r.next();
        bool f = r.chance(fault);
        p.add(O_STEP, {(i64)r.below(fr), (i64)r.below(mg), k, (i64)(v >> 1), (i64)r.below(5), f ? 1 + r.small(30) : 0, (i64)r.below(6), (i64)(r.next() >> 1)});
    }
}

struct Step {
    int frame, manager, kind;
    u64 v;
    int what;
    i64 fail;
    int mode; // of the failure: 0-3 memory (odd: persistent), 4-5 callback
    u64 w;
};
struct Deco {
    int kind;
    u64 v;
};
std::string deco_name(const Deco &d) {
    static const char *const n[][3] = {{"normals", "n", "face normals"}, {"area", "surface", "cell area"}, {"valence", "val", "degree"}, {"user", "Ux", "long name of a user defined attribute"}};
    switch (d.kind) {
    case DE_NORMALS: return n[0][d.v % 3];
    case DE_AREA: return n[1][d.v % 3];
    case DE_VALENCE: return n[2][d.v % 3];
    default: return n[3][d.v % 3];
    }
}
Strings coord_names(const Deco &d) {
    switch (d.v % 4) {
    case 0: return {"x", "y"};
    case 1: return {"z", "y", "x"};
    case 2: return {"e", "n", "up", "extra"};
    default: return {"x", "y", "z"};
    }
}
int user_item(const Deco &d) { return d.v / 8 % 3 == 0 ? 3 : d.v / 8 % 3 == 1 ? 2 : 1; }
const char *user_source(const Deco &d) { return d.v / 32 % 2 ? "U" : "positions"; }
Serie user_value(const Deco &x, const Dataframe &d) {
    const Serie &s = d[user_source(x)];
    if (!s.isValid()) return Serie();
    Serie r(user_item(x), s.count());
    for (uint32_t i = 0; i < s.count(); i++) {
        Array v = s.value(i);
        double t = 1;
        for (double y : v) t = t * 1.5 + y;
        if (user_item(x) == 1)
            r.setScalar(i, t);
        else
            r.setValue(i, Array((size_t)user_item(x), t));
    }
    return r;
}
Decomposer *build(const Deco &d, Hook *hook) {
    switch (d.kind) {
    case DE_COMPONENTS: return new Components();
    case DE_COORDINATES: return new Coordinates(coord_names(d));
    case DE_NORMALS: return new Normals(deco_name(d));
    case DE_AREA: return new Area(deco_name(d));
    case DE_VALENCE: return new Valence(deco_name(d));
    case DE_EIGENVALUES: return new EigenValues();
    case DE_EIGENVECTORS: return new EigenVectors();
    default:
        return new UserDefinedDecomposer(user_item(d), deco_name(d), [hook, d](const Dataframe &f) {
            if (hook) (*hook)();
            return user_value(d, f);
        });
    }
}
using Decos = std::vector<Deco>;
std::unique_ptr<Manager> build_manager(const Dataframe &d, const Decos &k, Hook *hook, unsigned dim) {
    auto m = std::make_unique<Manager>(d, std::vector<Decomposer *>(), dim);
    for (const auto &x : k) m->add(build(x, hook));
    return m;
}

struct Side { // a dataframe and its managers
    std::optional<Dataframe> d;
    std::unique_ptr<Manager> m[MANAGERS];
    Decos k[MANAGERS];
    unsigned dim[MANAGERS];
};
struct State {
    Side s[FRAMES];
    Hook hook;
};
static const int ITEM[] = {1, 3, 2, 1, 6, 9, 5, 4, 0};

// the attribute a query asks for
std::string attribute(u64 v) {
    static const char *const names[] = {"Ux", "Uy", "Uz", "Sxx", "Szz", "Sxy", "S1", "S2", "S3", "S4", "Txx", "Tzz", "Tyz", "T9", "a", "x", "y", "z", "e", "n", "up", "extra", "vx", "vy", "v1", "sxx", "sxy", "syy", "s1", "s2", "s3", "W", "W0", "W1", "W4", "W5", "W44",
                                        "user", "long name of a user defined attribute", "normals", "area", "surface", "valence", "val", "U", "S", "U1", "nope", "", "1", "0", "positions", "indices", "positionsx", "indicesx", "UxUx", "S10", "U10", "W10", "S11", "T12", "U8", "S9", "M", "Mxx", "Mxy", "Myx", "Myy", "Mzz", "M3"};
    return names[v % (sizeof names / sizeof *names)];
}

void repair_mesh(Dataframe &d, u64 seed) { // indices refer to existing positions
    const Dataframe &c = d;
    if (!c.contains("positions") || !c.contains("indices")) return;
    double top = -1;
    for (double x : c["indices"].asArray()) top = std::max(top, x);
    if (top >= c["positions"].count()) d.add("positions", frame_series(FR_POSITIONS, 4, seed));
}
// content of another kind under the name of series w
Serie other_content(int w, uint32_t n, u64 seed) {
    if (w == FR_POSITIONS) return make_serie(seed % 3 == 0 ? 2 : seed % 3 == 1 ? 1 : 3, 4 + n, seed % 5 ? 3 : 2, V_UNIFORM, seed);
    if (w == FR_INDICES) {
        int is = 2 + (int)(seed % 3);
        Array a((size_t)n * is);
        Rng r(seed);
        for (auto &x : a) x = (double)r.below(4);
        return Serie(is, a);
    }
    static const int isz[] = {1, 2, 3, 4, 5, 6, 9, 11, 13, 7};
    return make_serie(isz[seed / 7 % 10], n, seed / 64 % 2 ? 2 : 3, V_UNIFORM, seed);
}

// changes; false: nothing done
void change(State &st, const Step &o, bool faults) {
    Side &s = st.s[o.frame];
    int w = (int)(o.v % FR_SERIES);
    uint32_t n = o.w % 4 == 0 ? (uint32_t)(o.w / 8 % 9) : 5;
    std::string name = o.w % 16 == 1 ? attribute(o.w / 16) : frame_series_name(w);
    if (name == "positions") w = FR_POSITIONS;
    if (name == "indices") w = FR_INDICES;
    Serie x;
    Dataframe other;
    std::unique_ptr<Manager> fresh;
    Decomposer *deco = nullptr;
    Deco dd{(int)(o.v % DE_KINDS), o.w};
    {
        Off off;
        x = o.kind == S_OTHER ? other_content(w, n, o.w) : frame_series(w, n, o.w);
        if (name == "indices" && o.w / 32 % 12 == 0 && x.size()) x.setScalar((uint32_t)(o.w / 7 % x.size()), (double)(4 + o.w / 11 % 20));
        if (o.kind == S_ASSIGN || o.kind == S_RENEW) fill_frame(other, o.v / 16, n, o.w);
        if (o.kind == S_DECOMPOSER) deco = build(dd, &st.hook);
        if (o.kind == S_NEWMANAGER) {
            s.dim[o.manager] = o.w % 3 ? 3 : 2;
            fresh = build_manager(*s.d, s.k[o.manager], &st.hook, s.dim[o.manager]);
        }
    }
    if (faults && o.fail && o.kind != S_DECOMPOSER) sim::alloc_fault((u64)o.fail, o.mode & 1);
    bool failed = false;
    try {
        switch (o.kind) {
        case S_ADD:
        case S_OTHER: s.d->add(name, x); break;
        case S_VALUE:
            if (s.d->contains(name)) {
                Serie &r = (*s.d)[name];
                if (r.asArray().size()) {
                    size_t i = o.w / 3 % r.asArray().size();
                    double y = name == "indices" ? (double)(o.w / 5 % (o.w / 64 % 3 ? 4 : 40)) : (double)(o.w / 5 % 1000) / 8 - 60;
                    if (o.w & 1)
                        r.setScalar((uint32_t)i, y);
                    else
                        r.asArray()[i] = y;
                }
            }
            break;
        case S_DEL: s.d->del(name); break;
        case S_CLEARFRAME: s.d->clear(); break;
        case S_COUNT: s.d->setCount(1 + (uint32_t)(o.w % 9)); break;
        case S_ASSIGN: {
            sim::alloc_fault_end();
            *s.d = other;
            break;
        }
        case S_RENEW: // the managers of the old one go first
            sim::alloc_fault_end();
            for (auto &m : s.m) m.reset();
            s.d.reset();
            s.d.emplace(other);
            for (int i = 0; i < MANAGERS; i++) s.m[i] = build_manager(*s.d, s.k[i], &st.hook, s.dim[i]);
            break;
        case S_DECOMPOSER:
            s.m[o.manager]->add(deco);
            s.k[o.manager].push_back(dd);
            break;
        case S_CLEARMANAGER:
            s.m[o.manager]->clear();
            s.k[o.manager].clear();
            break;
        case S_NEWMANAGER: s.m[o.manager] = std::move(fresh); break;
        }
    } catch (...) {
        failed = true;
    }
    sim::alloc_fault_end();
    Off off;
    if (o.w / 3 % 6) repair_mesh(*s.d, o.w); // or leave it referring to positions that do not exist
    if (failed) sim::probe(P_MODOOM);
}

struct Ask {
    int q; // 0 names, 1 serie, 2 contains, 3 list and retrieve all
    uint32_t is;
    std::string name;
};
Ask ask(const Step &o) { return {o.what % 5 == 4 ? 1 : o.what % 5, (uint32_t)ITEM[o.v / 64 % 9], attribute(o.v / 1024)}; }
Outcome query(const Ask &a, const Manager &m) {
    switch (a.q) {
    case 0: return outcome_of([&] { return m.names(a.is); });
    case 1: return outcome_of([&] { return m.serie(a.is, a.name); });
    case 2: return outcome_of([&] { return m.contains(a.is, a.name); });
    default:
        return outcome_of([&] {
            std::vector<std::pair<std::string, Serie>> r;
            for (const auto &n : m.names(a.is)) r.push_back({n, m.serie(a.is, n)});
            return r;
        });
    }
}
std::string show(const Ask &a) {
    static const char *const q[] = {"names", "serie", "contains", "list and retrieve all"};
    std::string s = q[a.q];
    s += "(" + std::to_string(a.is);
    if (a.q == 1 || a.q == 2) s += ", \"" + a.name + "\"";
    return s + ")";
}

Dataframe rebuilt(const FrameModel &f) {
    Dataframe d;
    for (const auto &[n, m] : f) d.add(n, Serie((int)m.itemSize, m.v, (uint)m.dim));
    return d;
}

// What an attribute may be: the possible sources of a listed name, straight from the plain content.
struct Candidate {
    bool exact = false;
    u64 itemSize = 0, count = 0;
    Array v;
};
std::vector<std::string> component_suffixes(const Model &m) {
    auto list = [](std::initializer_list<const char *> l) { return std::vector<std::string>(l.begin(), l.end()); };
    if (m.dim == 2) {
        if (m.itemSize == 2) return list({"x", "y"});
        if (m.itemSize == 3) return list({"xx", "xy", "yy"});
        if (m.itemSize == 4) return list({"xx", "xy", "yx", "yy"});
    } else {
        if (m.itemSize == 3) return list({"x", "y", "z"});
        if (m.itemSize == 6) return list({"xx", "xy", "xz", "yy", "yz", "zz"});
        if (m.itemSize == 9) return list({"xx", "xy", "xz", "yx", "yy", "yz", "zx", "zy", "zz"});
    }
    std::vector<std::string> r;
    for (u64 i = 0; i < m.itemSize; i++) r.push_back(std::to_string(i));
    return r;
}
Candidate column(const Model &m, u64 first, u64 n) {
    Candidate c{true, n, m.count, {}};
    for (u64 i = 0; i < m.count; i++)
        for (u64 j = 0; j < n; j++) c.v.push_back(m.v[i * m.itemSize + first + j]);
    return c;
}
bool broken_mesh(const FrameModel &f) { // indices refer to positions that do not exist
    auto ind = f.find("indices"), pos = f.find("positions");
    if (ind == f.end() || pos == f.end()) return false;
    for (double i : ind->second.v)
        if (!(i < pos->second.count)) return true;
    return false;
}
std::vector<Candidate> candidates(const FrameModel &f, const Decos &k, uint32_t is, const std::string &name) {
    std::vector<Candidate> r;
    auto own = f.find(name);
    if (own != f.end() && own->second.itemSize == is) r.push_back(column(own->second, 0, is));
    auto pos = f.find("positions"), ind = f.find("indices");
    bool broken = broken_mesh(f); // no value for normals, areas and valences
    for (const auto &d : k) switch (d.kind) {
        case DE_COMPONENTS:
            if (is == 1)
                for (const auto &[n, m] : f) {
                    auto sfx = component_suffixes(m);
                    for (size_t i = 0; i < sfx.size(); i++)
                        if (n + sfx[i] == name) r.push_back(column(m, i, 1));
                }
            break;
        case DE_COORDINATES:
            if (is == 1 && pos != f.end()) {
                Strings c = coord_names(d);
                for (size_t i = 0; i < c.size() && i < pos->second.itemSize; i++)
                    if (c[i] == name) r.push_back(column(pos->second, i, 1));
            }
            break;
        case DE_NORMALS:
            if (name == deco_name(d) && ind != f.end() && !broken) r.push_back({false, 3, ind->second.count, {}});
            break;
        case DE_AREA:
            if (name == deco_name(d) && ind != f.end() && !broken) r.push_back({false, 1, ind->second.count, {}});
            break;
        case DE_VALENCE:
            if (name == deco_name(d) && ind != f.end() && pos != f.end() && !broken) {
                Candidate c{true, 1, pos->second.count, Array(pos->second.count)};
                for (double i : ind->second.v)
                    if (i < c.v.size()) c.v[(size_t)i]++;
                r.push_back(c);
            }
            break;
        case DE_EIGENVALUES:
        case DE_EIGENVECTORS:
            if (!name.empty()) {
                auto src = f.find(name.substr(0, name.size() - 1));
                int id = name.back() - '1';
                if (src == f.end()) break;
                const Model &m = src->second;
                int n = m.dim == 2 ? 2 : 3;
                if (id < 0 || id >= n || m.itemSize != (u64)(n == 2 ? 3 : 6)) break;
                if (!m.count) {
                    r.push_back({false, 1, 0, {}});
                    break;
                }
                Serie s((int)m.itemSize, m.v, (uint)m.dim);
                if (d.kind == DE_EIGENVALUES)
                    r.push_back(column(h::model_of(algebra::eigenValues(s)), id, 1));
                else
                    r.push_back(column(h::model_of(algebra::eigenVectors(s)), id * n, n));
            }
            break;
        default:
            if (name == deco_name(d)) {
                auto src = f.find(user_source(d));
                if (src != f.end() && !src->second.count)
                    r.push_back({false, 1, 0, {}});
                else if (src != f.end()) {
                    Dataframe one;
                    one.add(user_source(d), Serie((int)src->second.itemSize, src->second.v, (uint)src->second.dim));
                    Model m = h::model_of(user_value(d, one));
                    r.push_back(column(m, 0, m.itemSize));
                }
            }
        }
    return r;
}

// The attributes a manager has to list for an item size, as far as their sources hold items.
std::set<std::string> required(const FrameModel &f, const Decos &k, uint32_t is, unsigned dim) {
    std::set<std::string> r;
    auto pos = f.find("positions"), ind = f.find("indices");
    bool mesh = pos != f.end() && ind != f.end() && pos->second.count && ind->second.count && pos->second.itemSize == 3 && ind->second.itemSize == 3;
    for (const auto &[n, m] : f) {
        if (!m.count || n == "positions" || n == "indices") continue;
        if (m.itemSize == is && m.dim == dim) r.insert(n);
        for (const auto &d : k) {
            if (d.kind == DE_COMPONENTS && is == 1 && m.itemSize > 1)
                for (const auto &x : component_suffixes(m)) r.insert(n + x);
            u64 e = m.dim == 2 ? 2 : 3;
            if ((d.kind == DE_EIGENVALUES && is == 1) || (d.kind == DE_EIGENVECTORS && is == e))
                for (u64 i = 1; m.itemSize == (e == 2 ? 3 : 6) && i <= e; i++) r.insert(n + std::to_string(i));
        }
    }
    for (const auto &d : k) {
        if (d.kind == DE_COORDINATES && is == 1 && pos != f.end() && pos->second.count) {
            Strings c = coord_names(d);
            for (size_t i = 0; i < c.size() && i < pos->second.itemSize; i++) r.insert(c[i]);
        }
        if (mesh && (d.kind == DE_NORMALS ? is == 3 : (d.kind == DE_AREA || d.kind == DE_VALENCE) && is == 1)) r.insert(deco_name(d));
        if (d.kind == DE_USER && (int)is == user_item(d)) {
            auto src = f.find(user_source(d));
            if (src != f.end() && src->second.count) r.insert(deco_name(d));
        }
    }
    return r;
}

// Everything the manager lists can be retrieved with the values of its source, nothing else is contained.
void audit(const Manager &m, const Side &s, int manager, const FrameModel &f) {
    bool items = true; // the series hold items
    for (const auto &[n, x] : f) items &= x.count > 0 && x.itemSize > 0;
    auto ind = f.find("indices"), pos = f.find("positions");
    bool mesh = !broken_mesh(f);
    if (!mesh) sim::probe(P_BROKEN);
    if (!items) sim::probe(P_EMPTY);
    for (uint32_t is : {1, 2, 3, 4, 5, 6, 9, 11}) {
        Strings names = m.names(is);
        std::set<std::string> listed;
        {
            Off off;
            listed.insert(names.begin(), names.end());
            if (listed.size() != names.size()) sim::violation("listed-twice", "names(%u) lists a name twice", is);
            for (const auto &n : required(f, s.k[manager], is, s.dim[manager]))
                if (!listed.count(n)) sim::violation("not-listed", "\"%s\" is not listed for item size %u; dataframe %s", n.c_str(), is, show(f).c_str());
        }
        for (const auto &n : listed) {
            bool c = m.contains(is, n);
            {
                Off off;
                if (!c) sim::violation("listed-not-contained", "\"%s\" is listed for item size %u, but not contained", n.c_str(), is);
            }
            std::vector<Candidate> c2;
            bool nothing = false; // a possible source holds no item: there is nothing to retrieve
            {
                Off off;
                c2 = candidates(f, s.k[manager], is, n);
                for (const auto &y : c2) nothing |= !y.count || !y.itemSize;
            }
            if (nothing) continue;
            bool of_mesh = false; // refused while the mesh is broken
            for (const auto &d : s.k[manager]) of_mesh |= !mesh && (d.kind == DE_NORMALS || d.kind == DE_AREA || d.kind == DE_VALENCE) && n == deco_name(d);
            Serie x;
            if (of_mesh) {
                try {
                    x = m.serie(is, n);
                } catch (const std::exception &) {
                    sim::probe(P_REFUSED);
                    continue;
                }
                Off off;
                if (c2.empty()) sim::violation("broken-mesh", "\"%s\" of item size %u is %s although indices refer to positions that do not exist; dataframe %s", n.c_str(), is, h::model_of(x).str().c_str(), show(f).c_str());
            } else
                x = m.serie(is, n);
            Off off;
            Model got = h::model_of(x);
            if (!x.isValid()) sim::violation("listed-not-retrieved", "\"%s\" is listed for item size %u and cannot be retrieved; dataframe %s", n.c_str(), is, show(f).c_str());
            if (got.itemSize != is || got.v.size() != got.count * is) sim::violation("wrong-shape", "\"%s\" listed for item size %u: %s", n.c_str(), is, got.str().c_str());
            bool found = false;
            std::string seen;
            for (const auto &y : c2) {
                bool ok = y.itemSize == got.itemSize && y.count == got.count;
                if (ok && y.exact)
                    for (size_t i = 0; i < y.v.size(); i++) ok &= sim::bits(y.v[i]) == sim::bits(got.v[i]);
                found |= ok;
                Model ym;
                ym.itemSize = y.itemSize, ym.count = y.count, ym.v = y.v;
                seen += "; " + ym.str();
            }
            if (c2.size() > 1) sim::probe(P_AMBIGUOUS);
            if (!found) sim::violation("wrong-values", "\"%s\" of item size %u is %s, which is none of its %zu possible sources%s; dataframe %s", n.c_str(), is, got.str().c_str(), c2.size(), seen.c_str(), show(f).c_str());
            for (const auto &d : s.k[manager]) {
                if (d.kind == DE_EIGENVALUES || d.kind == DE_EIGENVECTORS) sim::probe(P_EIGEN);
                if (d.kind == DE_COMPONENTS) sim::probe(P_COMPONENT);
                if (d.kind == DE_COORDINATES) sim::probe(P_COORD);
                if (d.kind == DE_USER) sim::probe(P_USER);
                if (d.kind == DE_NORMALS || d.kind == DE_AREA || d.kind == DE_VALENCE) sim::probe(pos != f.end() && ind != f.end() ? P_MESH : P_NOMESH);
            }
        }
        for (int i = (int)(f.size() % 8); i < 64; i += 8) {
            std::string n;
            {
                Off off;
                n = attribute(i);
                if (listed.count(n)) continue;
            }
            if (m.contains(is, n)) sim::violation("not-listed-contained", "\"%s\" is not listed for item size %u, but contained", n.c_str(), is);
        }
        if (s.k[manager].empty()) {
            Off off;
            for (const auto &n : listed)
                if (!f.count(n)) sim::violation("listed-without-decomposer", "\"%s\" is listed without any decomposer", n.c_str());
        }
    }
}

void start(State &st, u64 seed, u64 kinds, unsigned dim, uint32_t n, bool full) {
    Off off;
    for (int i = 0; i < FRAMES; i++) {
        Rng r(seed + i);
        Side &s = st.s[i];
        s.d.emplace();
        fill_frame(*s.d, full ? ~0ull : r.next(), n, seed + i);
        for (int j = 0; j < MANAGERS; j++) {
            for (int k = 0; k < DE_KINDS; k++)
                if (kinds >> (k + j * 9) & 1) s.k[j].push_back({k, r.next() >> 1});
            for (size_t k = s.k[j].size(); k > 1; k--) std::swap(s.k[j][k - 1], s.k[j][r.below(k)]);
            s.dim[j] = j ? 5 - dim : dim;
            s.m[j] = build_manager(*s.d, s.k[j], &st.hook, s.dim[j]);
        }
    }
}

void exec(const Plan &p) {
    std::vector<Step> steps;
    u64 seed = 1, kinds = ~0ull;
    unsigned dim = 3;
    i64 alone = -1;
    uint32_t n0 = 5;
    bool full = true;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_STEP)
                steps.push_back({(int)o.mod(0, FRAMES), (int)o.mod(1, MANAGERS), (int)o.mod(2, S_KINDS), (u64)o.at(3), (int)o.mod(4, 5), (i64)o.mod(5, 200), (int)o.mod(6, 6), (u64)o.at(7)});
            else {
                seed = (u64)o.at(0);
                kinds = (u64)o.at(1);
                dim = o.at(2) == 2 ? 2 : 3;
                alone = o.at(3);
                n0 = (uint32_t)o.mod(4, 9);
                full = o.at(5) & 1;
            }
        if (steps.size() > 40) sim::probe(P_LONG);
    }
    // one query on its own: only the changes before it, none of the other queries
    Outcome only;
    bool have = false;
    if (alone >= 0 && alone < (i64)steps.size() && steps[alone].kind == S_QUERY) {
        auto f = [&] {
            State st;
            start(st, seed, kinds, dim, n0, full);
            for (i64 i = 0; i < alone; i++)
                if (steps[i].kind < S_QUERY) change(st, steps[i], false);
            const Step &o = steps[alone];
            return query(ask(o), *st.s[o.frame].m[o.manager]);
        };
        have = isolated_outcome(f, only);
        if (have) sim::probe(P_ALONE);
    }
    State st;
    start(st, seed, kinds, dim, n0, full);
    bool failed_before = false, mod_failed = false;
    std::map<std::string, int> asked;
    for (size_t i = 0; i < steps.size(); i++) {
        const Step &o = steps[i];
        Side &s = st.s[o.frame];
        if (o.kind < S_QUERY) {
            mod_failed |= o.fail != 0;
            change(st, o, true);
            switch (o.kind) {
            case S_VALUE: sim::probe(P_VALUE); break;
            case S_OTHER: sim::probe(P_SHAPE); break;
            case S_DEL: case S_CLEARFRAME: sim::probe(P_GONE); break;
            case S_RENEW: sim::probe(P_RENEWED); break;
            case S_CLEARMANAGER: sim::probe(P_CLEARED); break;
            case S_COUNT: sim::probe(P_SETCOUNT); break;
            }
            continue;
        }
        Manager &m = *s.m[o.manager];
        FrameModel before[FRAMES];
        {
            Off off;
            for (int j = 0; j < FRAMES; j++) before[j] = h::model_of(*st.s[j].d);
            if (o.frame) sim::probe(P_TWO);
            if (s.dim[o.manager] == 2) sim::probe(P_2D);
        }
        if (o.kind == S_AUDIT) {
            audit(m, s, o.manager, before[o.frame]);
            sim::probe(P_AUDIT);
        } else {
            Ask a;
            Outcome want, got;
            {
                Off off;
                a = ask(o);
                Dataframe copy = rebuilt(before[o.frame]);
                want = query(a, *build_manager(copy, s.k[o.manager], nullptr, s.dim[o.manager]));
                st.hook = Hook();
                if (asked[show(a)]++) sim::probe(P_REPEAT);
            }
            if (o.fail && o.mode < 4)
                sim::alloc_fault((u64)o.fail, o.mode & 1);
            else if (o.fail) {
                st.hook.throw_at = o.fail % 4;
                st.hook.kind = (int)(o.w % ANY_KINDS);
            }
            got = query(a, m);
            u64 fired = sim::alloc_fault_end();
            st.hook.throw_at = -1;
            Off off;
            std::string what = show(a) + " after " + std::to_string(i) + " steps";
            if (st.hook.thrown) {
                sim::probe(P_THROW);
                if (got.ok) sim::violation("swallowed", "%s: the exception of a user defined attribute did not arrive, but %s", what.c_str(), got.str().c_str());
                failed_before = true;
            } else if (fired && !got.ok) {
                if (!got.oom) sim::violation("wrong-exception", "%s out of memory: %s", what.c_str(), got.str().c_str());
                sim::probe(P_OOM);
                failed_before = true;
            } else {
                if (failed_before) sim::probe(P_AFTER_FAIL);
                what += "; dataframe " + show(before[o.frame]);
                check_same("stale-answer", (what + ": a new manager on a copy of the dataframe compared with this manager").c_str(), want, got);
                if (have && (i64)i == alone && !mod_failed) check_same("depends-on-queries", (what + ": alone compared with after other queries").c_str(), only, got);
            }
            sim::log(got.hash() + (u64)a.q);
            sim::probe(a.q == 0 ? P_NAMES : a.q == 1 ? P_SERIE : a.q == 2 ? P_CONTAINS : P_ALL);
        }
        Off off;
        for (int j = 0; j < FRAMES; j++) {
            FrameModel now = h::model_of(*st.s[j].d);
            if (!(now == before[j])) sim::violation("dataframe-changed", "a query changed the dataframe from %s to %s", show(before[j]).c_str(), show(now).c_str());
        }
    }
    int j = (int)(seed % FRAMES), k = (int)(seed / FRAMES % MANAGERS);
    FrameModel f;
    {
        Off off;
        f = h::model_of(*st.s[j].d);
        for (const auto &[n, m] : f) sim::log(hash_words(words(n)) ^ hash_words(words(m.v)));
    }
    audit(*st.s[j].m[k], st.s[j], k, f);
}

const char *op_name(int k) { return k == O_START ? "start(seed,decomposers,dimension,queryAlone,count,all)" : "step(dataframe,manager,kind,variant,query,failingAt,mode,value)"; }

sim::Harness make() {
    sim::Harness x = {"C15", gen, exec, op_name,
                      {"names", "serie", "contains", "list and retrieve all", "all queries checked", "query out of memory", "user defined attribute threw", "query after a failed one", "query repeated", "value changed", "series of another shape",
                       "series deleted", "dataframe replaced at its address", "mesh attributes with a mesh", "mesh attributes without a mesh", "eigen attributes", "components", "coordinates", "user defined attribute", "manager for two dimensions", "manager cleared",
                       "second dataframe", "query compared with itself alone", "series without items", "change out of memory", "name with several possible sources", "setCount", "long history", "mesh with missing positions", "attribute of such a mesh refused"}};
    x.threads = false;
    return x;
}

} // namespace

sim::Harness sim::harness = make();
