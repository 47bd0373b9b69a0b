#include "frame.h"
#include <dataframe/attributes/Areas.h>
#include <dataframe/attributes/Components.h>
#include <dataframe/attributes/Coordinates.h>
#include <dataframe/attributes/EigenValues.h>
#include <dataframe/attributes/EigenVectors.h>
#include <dataframe/attributes/Normals.h>
#include <dataframe/attributes/UserDefinedDecomposer.h>
#include <dataframe/attributes/Valence.h>
#include <dataframe/utils/nameOfSerie.h>

namespace h {
using namespace df;

const char *frame_series_name(int w) {
    static const char *const n[] = {"positions", "indices", "U", "S", "T", "a", "s", "v", "W", "x", "M"};
    return n[w];
}
Serie frame_series(int w, uint32_t n, u64 seed) {
    Rng r(seed * 16 + w);
    int vk = r.chance(60) ? (int)V_UNIFORM : (int)V_SMALLINT;
    switch (w) {
    case FR_POSITIONS: return make_serie(r.chance(85) ? 3 : 2, std::max(n, 4u), 3, vk, r.next());
    case FR_INDICES: {
        Array a((size_t)n * 3);
        for (auto &x : a) x = (double)r.below(4);
        return Serie(3, a);
    }
    case FR_U: return make_serie(3, n, 3, vk, r.next());
    case FR_S: return make_serie(6, n, 3, vk, r.next());
    case FR_T: return make_serie(9, n, 3, vk, r.next());
    case FR_A: return make_serie(1, n, 3, vk, r.next());
    case FR_S2: return make_serie(3, n, 2, vk, r.next());
    case FR_V2: return make_serie(2, n, 2, vk, r.next());
    case FR_W: return make_serie(5, n, 3, vk, r.next());
    case FR_M: return make_serie(4, n, 2, vk, r.next());
    default: return make_serie(1, n, 2, vk, r.next());
    }
}
void fill_frame(Dataframe &d, u64 bits, uint32_t n, u64 seed) {
    for (int w = 0; w < FR_SERIES; w++)
        if (bits >> w & 1) d.add(frame_series_name(w), frame_series(w, n, seed));
}
Decomposer *make_decomposer(int kind, Hook *hook) {
    switch (kind) {
    case DE_COMPONENTS: return new Components();
    case DE_COORDINATES: return new Coordinates();
    case DE_NORMALS: return new Normals();
    case DE_AREA: return new Area();
    case DE_VALENCE: return new Valence();
    case DE_EIGENVALUES: return new EigenValues();
    case DE_EIGENVECTORS: return new EigenVectors();
    default:
        return new UserDefinedDecomposer(1, "user", [hook](const Dataframe &d) {
            if (hook) (*hook)();
            const Serie &s = d["U"];
            if (!s.isValid()) return Serie();
            Serie r(1, s.count());
            for (uint32_t i = 0; i < s.count(); i++) {
                Array v = s.value(i);
                double t = 0;
                for (double x : v) t += x * x;
                r.setScalar(i, t);
            }
            return r;
        });
    }
}
std::unique_ptr<Manager> make_manager(const Dataframe &d, u64 kinds, u64 order, Hook *hook, unsigned dim) {
    std::vector<int> k;
    for (int i = 0; i < DE_KINDS; i++)
        if (kinds >> i & 1) k.push_back(i);
    Rng r(order);
    for (size_t i = k.size(); i > 1; i--) std::swap(k[i - 1], k[r.below(i)]);
    auto m = std::make_unique<Manager>(d, std::vector<Decomposer *>(), dim);
    for (int i : k) {
        Decomposer *x = make_decomposer(i, hook);
        try {
            m->add(x);
        } catch (...) { // still ours
            delete x;
            throw;
        }
    }
    return m;
}

enum { Q_NAMES, Q_SERIE, Q_CONTAINS, Q_GET, Q_HASNAME, Q_HASSERIE, Q_NAMEOF, Q_ALL, Q_COPY, Q_TEMPMANAGER, Q_MISSING, Q_SERIES, Q_COUNT };
static const char *const qnames[] = {"names", "serie", "contains", "look-up", "contains name", "contains series", "nameOfSerie", "list and retrieve all", "copy", "manager of its own",
                                     "look-up of a missing name", "series()"};
static_assert(sizeof qnames / sizeof *qnames == Q_COUNT);
static const char *const args[] = {"U",  "Ux", "Uy",  "Uz",  "S",   "Sxx", "Szz", "S1",  "S2",  "S3",      "S4",  "T",    "Txx",  "Tzz",  "a",         "x",   "y",   "z", "v",
                                   "vx", "vy", "s",   "sxx", "syy", "s1",  "s2",  "s3",  "W",   "W0",      "W4",  "W5",   "W44",  "user", "normals",   "area", "val", "nope", "",
                                   "1",  "U0", "positions", "indices", "M", "Mxx", "Myx", "Myy"};
int queries() { return Q_COUNT; }
const char *query_name(int q) { return qnames[q]; }
int query_names() { return sizeof args / sizeof *args; }
std::string query_arg(u64 v) { return args[v % (sizeof args / sizeof *args)]; }

Outcome query(int q, u64 v, const Dataframe &d, const Manager &m) {
    std::string name;
    uint32_t is;
    {
        Off off;
        name = query_arg(v >> 8);
        static const int iss[] = {1, 1, 1, 3, 3, 2, 6, 9, 0, 5, 4};
        is = (uint32_t)iss[(v >> 3) % 11];
    }
    switch (q) {
    case Q_NAMES: return outcome_of([&] { return m.names(is); });
    case Q_SERIE: return outcome_of([&] { return m.serie(is, name); });
    case Q_CONTAINS: return outcome_of([&] { return m.contains(is, name); });
    case Q_GET:
        return outcome_of([&] {
            const Serie &s = v & 1 ? d[name] : d.get(name);
            return std::make_pair(s.isValid(), s);
        });
    case Q_HASNAME: return outcome_of([&] { return d.contains(name); });
    case Q_HASSERIE: return outcome_of([&] { return d.contains(d.get(name)); });
    case Q_NAMEOF: return outcome_of([&] { return nameOfSerie(d, d[name]); });
    case Q_ALL:
        return outcome_of([&] {
            std::vector<std::pair<std::string, Serie>> r;
            for (const auto &n : m.names(is)) r.push_back({n, m.serie(is, n)});
            return r;
        });
    case Q_COPY:
        return outcome_of([&] {
            Dataframe c(d);
            std::vector<Serie> r;
            for (const auto &[n, s] : c.series()) r.push_back(s);
            return r;
        });
    case Q_TEMPMANAGER:
        return outcome_of([&] {
            auto t = make_manager(d, v >> 16 | 1, v >> 24, nullptr);
            return std::make_pair(t->names(is), t->serie(is, name));
        });
    case Q_MISSING:
        return outcome_of([&] {
            const Serie &s = d.get("missing");
            return std::make_tuple(s.isValid(), s, d.contains(s), d["missing"].isValid(), nameOfSerie(d, s));
        });
    default:
        return outcome_of([&] {
            std::vector<std::tuple<std::string, uint32_t, uint32_t>> r;
            for (const auto &[n, s] : d.series()) r.push_back({n, s.itemSize(), s.count()});
            return r;
        });
    }
}

FrameModel model_of(const Dataframe &d) {
    FrameModel m;
    for (const auto &[n, s] : d.series()) m[n] = h::model_of(s);
    return m;
}
std::string show(const FrameModel &m) {
    std::string s = "{";
    for (const auto &[n, x] : m) s += (s.size() > 1 ? "; " : "") + n + ": " + x.str();
    return s + "}";
}

} // namespace h
