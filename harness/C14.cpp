// C14: writing a series to a stream goes to that stream and only there.
#include "common.h"
#include <dataframe/Dataframe.h>
#include <dataframe/functional/utils/print.h>
#include <dataframe/utils/utils.h>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <streambuf>
using namespace h;

namespace {

enum { O_DATA, O_WRITE, O_PRINT };
enum { R_DUMP, R_FRAME, R_ARRAY, R_WARNING, R_ERROR, R_PRINT, R_PRINT2, R_INFO, R_LOG, R_KINDS }; // up to R_ERROR to the error stream, the others to the output stream
enum { P_SERIE, P_SERIES, P_ARRAY, P_STRINGS, P_REFUSED, P_REFUSED_ONCE, P_BUFTHROW, P_SYNC, P_EXCEPTIONS, P_PREFAILED, P_OOM, P_THREADS, P_EMPTY, P_FORMAT, P_LATER, P_PRINT, P_PRINT_FAILED, P_PRINT_BESIDE };
enum { W_SERIE, W_SERIES, W_ARRAY, W_STRINGS, W_KINDS };
enum { F_NONE, F_REFUSE, F_ONCE, F_THROW, F_SYNC, F_STATE, F_OOM, F_KINDS };

void gen(Rng &r, Plan &p) {
    static const int isz[] = {1, 1, 2, 3, 6, 9};
    bool huge = r.rare(500);
    if (huge) p.scale = 30;
    int nd = huge ? 1 : 1 + r.below(3);
    bool large = huge;
    for (int i = 0; i < nd; i++) {
        p.add(O_DATA, {huge ? 1 : r.chance(3) ? 0 : isz[r.below(6)], huge ? r.huge() : r.chance(15) ? 0 : r.small(r.chance(8) ? 60 : r.chance(1) ? 1500 : 9), (i64)r.below(4), (i64)r.below(V_KINDS), (i64)(r.next() >> 1)});
        large |= p.ops.back().at(1) > 100;
    }
    int nt = huge || r.chance(45) ? 1 : 2 + r.below(3);
    int n = huge ? 2 : nt + r.below(r.chance(15) ? 24 : 8);
    if (large) n = std::min(n, nt + 1);
    bool faults = r.chance(75);
    for (int i = 0; i < n; i++)
        p.add(O_WRITE, {i < nt ? (i64)i : (i64)r.below(nt), (i64)(r.chance(45) ? W_SERIE : (int)r.below(W_KINDS)), (i64)r.below(nd), faults && r.chance(55) ? 1 + (i64)r.below(F_KINDS - 1) : 0, (i64)(r.next() >> 40), (i64)r.below(8), (i64)r.below(4), (i64)r.below(4), (i64)r.below(3)});
    int np = large || r.chance(60) ? 0 : 1 + r.below(8);
    for (int i = 0; i < np; i++) p.add(O_PRINT, {(i64)r.below(R_KINDS), (i64)r.below(nd), faults && r.chance(30) ? 1 + (i64)r.below(4) : 0, (i64)(r.next() >> 40), (i64)r.below(4)});
}

struct Buf : std::streambuf { // receives character by character
    std::string got;
    i64 refuse_at = -1;
    bool once = false, throws = false, sync_fails = false;
    int yields = 0;
    u64 refused = 0, n = 0;
    int_type put(int_type c) {
        if (yields && ++n % (u64)(1 + 3 * yields) == 0) sim::yield_point();
        Off off;
        if (c == traits_type::eof()) return traits_type::not_eof(c);
        if (refuse_at >= 0 && (i64)got.size() >= refuse_at && !(once && refused)) {
            refused++;
            sim::fired(throws ? sim::F_STREAM_THROW : sim::F_STREAM);
            return traits_type::eof();
        }
        got.push_back((char)c);
        return c;
    }
    int_type overflow(int_type c) override {
        u64 r0 = refused;
        int_type x = put(c);
        if (refused != r0 && throws) throw Thrown{5};
        return x;
    }
    int sync() override {
        if (sync_fails) {
            Off off;
            refused++;
            sim::fired(sim::F_STREAM);
            return -1;
        }
        return 0;
    }
};

std::string some_string(Rng &r, u64 i) { // texts of any bytes
    if (i == 3) return std::string(40, 'x');
    switch (r.below(12)) {
    case 0: return std::string();
    case 1: return std::string("a\0b", 3);
    case 2: return std::string(1, '\0');
    case 3: return "two\nlines\n";
    case 4: return " \t blanks around \r ";
    case 5: return "100 % %s %n \\0 \"quoted\"";
    case 6: return "d\xc3\xa9" "but \xff\x80";
    case 7: return std::string(1 + r.below(3000), (char)('a' + r.below(26))) + "end";
    default: return "name " + std::to_string(r.below(100));
    }
}
struct Data {
    df::Serie serie;
    df::Series series;
    Array array;
    Strings strings;
    df::Serie second;
    std::string text;
    df::Dataframe frame;
};
struct Write {
    int thread, kind, data, fault, format, exceptions, yields, repeat;
    u64 at;
    std::string full; // what goes to a healthy stream
};

void format(std::ostream &o, int f) {
    switch (f) {
    case 1: o << std::setprecision(17); break;
    case 2: o << std::fixed << std::setprecision(3); break;
    case 3: o << std::scientific; break;
    case 4: o << std::hexfloat; break;
    case 5: o << std::showpos << std::uppercase; break;
    case 6: o << std::setprecision(2) << std::showpoint; break;
    default: break;
    }
}
std::ostream &write(std::ostream &o, int kind, const Data &d) {
    switch (kind) {
    case W_SERIE: return o << d.serie;
    case W_SERIES: return o << d.series;
    case W_ARRAY: return o << d.array;
    default: return o << d.strings;
    }
}

// The numbers, in order, end the text
void check_numbers(const std::string &text, const Array &v, int f, const char *what) {
    std::vector<std::string> tok;
    std::string cur;
    for (char c : text + " ")
        if (strchr(" \t\n,;[](){}", c)) {
            if (cur.size()) tok.push_back(cur);
            cur.clear();
        } else
            cur.push_back(c);
    if (tok.size() < v.size()) sim::violation("incomplete", "%s: %zu numbers, but the stream got \"%s\"", what, v.size(), text.c_str());
    for (size_t i = 0; i < v.size(); i++) {
        std::ostringstream o;
        format(o, f);
        o << v[i];
        const std::string &t = tok[tok.size() - v.size() + i];
        if (t != o.str()) sim::violation("wrong-text", "%s: number %zu should be written as %s, is %s; the stream got \"%s\"", what, i, o.str().c_str(), t.c_str(), text.substr(0, 1500).c_str());
    }
}

// Printing to the standard streams
struct Print {
    int kind, data, fault, yields;
    u64 at;
    std::string full;
};
bool to_cerr(int kind) { return kind <= R_ERROR; }
void print(int kind, const Data &d) {
    switch (kind) {
    case R_DUMP: return d.serie.dump();
    case R_FRAME: return d.frame.dump();
    case R_ARRAY: return df::print(d.array);
    case R_WARNING: return df::warning(d.text);
    case R_ERROR: return df::error(d.text);
    case R_PRINT: return df::utils::print(d.serie);
    case R_PRINT2: return df::utils::print(d.serie, d.second, d.serie);
    case R_INFO: return df::info(d.text);
    default: return df::log(d.text, 12, d.second);
    }
}
// what the text has to hold, in this order
std::vector<std::string> expected(int kind, const Data &d) {
    std::vector<std::string> e;
    auto numbers = [&e](const Array &v) {
        for (double x : v) {
            std::ostringstream o;
            o << x;
            e.push_back(o.str());
        }
    };
    switch (kind) {
    case R_DUMP: numbers(d.serie.asArray()); break;
    case R_FRAME:
        for (const auto &[n, s] : d.frame.series()) {
            e.push_back(n);
            e.push_back(std::to_string(s.itemSize()));
            e.push_back(std::to_string(s.count()));
        }
        break;
    case R_ARRAY: numbers(d.array); break;
    case R_PRINT: numbers(d.serie.asArray()); break;
    case R_PRINT2:
        numbers(d.serie.asArray());
        numbers(d.second.asArray());
        numbers(d.serie.asArray());
        break;
    case R_LOG:
        e.push_back(d.text);
        e.push_back("12");
        numbers(d.second.asArray());
        break;
    default: e.push_back(d.text);
    }
    return e;
}

void exec(const Plan &p) {
    std::vector<Print> prints;
    std::vector<Data> data;
    std::vector<Write> writes;
    Buf bcout, bcerr, bclog;
    int nt = 1;
    std::vector<Words> before;
    {
        Off off;
        for (const auto &o : p.ops)
            if (o.kind == O_DATA && data.size() < 3) {
                Data d;
                int is = 1 + (int)((o.at(0) < 1 ? 0 : o.at(0) - 1) % 9);
                uint32_t n = (uint32_t)o.mod(1, 80000);
                if (o.at(0))
                    d.serie = make_serie(is, n, (unsigned)o.mod(2, 4), (int)o.mod(3, V_KINDS), (u64)o.at(4));
                else
                    d.serie = df::Serie(0, n); // items without numbers
                Rng r((u64)o.at(4) + 1);
                int k = (int)r.below(4);
                for (int i = 0; i < k; i++) d.series.push_back(make_serie(1 + (int)r.below(4), (uint32_t)r.below(5), 3, V_MIXED, r.next()));
                d.array = gen_array(r.next(), (int)o.mod(3, V_KINDS), n);
                for (u64 i = 0; i < n % 6; i++) d.strings.push_back(some_string(r, i));
                d.second = make_serie(1 + (int)r.below(4), (uint32_t)r.below(5), 3, V_MIXED, r.next());
                d.text = some_string(r, 0);
                for (u64 i = r.below(4); i; i--) d.frame.add(std::string(i, 'f'), i == 2 ? d.serie : d.second);
                if (!n) sim::probe(P_EMPTY);
                data.push_back(d);
            } else if (o.kind == O_PRINT) {
                prints.push_back({(int)o.mod(0, R_KINDS), (int)o.mod(1, 3), (int)o.mod(2, 5), (int)o.mod(4, 4), o.mod(3, 1 << 24), {}});
            } else if (o.kind == O_WRITE) {
                Write w;
                w.thread = (int)o.mod(0, 4);
                w.kind = (int)o.mod(1, W_KINDS);
                w.data = (int)o.mod(2, 3);
                w.fault = (int)o.mod(3, F_KINDS);
                w.at = o.mod(4, 1 << 24);
                w.format = (int)o.mod(5, 8);
                w.exceptions = (int)o.mod(6, 4);
                w.yields = (int)o.mod(7, 4);
                w.repeat = (int)o.mod(8, 3);
                nt = std::max(nt, w.thread + 1);
                writes.push_back(w);
            }
        if (data.empty()) data.emplace_back();
        for (auto &w : writes) w.data %= (int)data.size();
        for (auto &w : prints) w.data %= (int)data.size();
        if (nt > 1) sim::probe(P_THREADS);
        for (auto &d : data) {
            Words w = words(d.serie);
            put(w, d.series);
            put(w, d.array);
            for (auto &s : d.strings) put(w, s);
            before.push_back(w);
        }
    }
    std::streambuf *rc = std::cout.rdbuf(&bcout), *re = std::cerr.rdbuf(&bcerr), *rl = std::clog.rdbuf(&bclog);
    auto only = [&](const char *what) {
        if (bcout.got.size() || bcerr.got.size() || bclog.got.size()) {
            std::cout.rdbuf(rc);
            std::cerr.rdbuf(re);
            std::clog.rdbuf(rl);
            sim::violation("other-stream", "%s: cout got \"%s\", cerr \"%s\", clog \"%s\"", what, bcout.got.substr(0, 300).c_str(), bcerr.got.substr(0, 300).c_str(), bclog.got.substr(0, 300).c_str());
        }
    };
    // each alone, to a healthy stream
    for (auto &w : writes) {
        const Data &d = data[w.data];
        Buf b;
        std::ostream o(&b);
        std::string chained;
        {
            Off off;
            format(o, w.format);
        }
        std::ostream &r = write(o, w.kind, d);
        Off off;
        char what[120];
        static const char *const kinds[] = {"series", "collection of series", "list of numbers", "list of strings"};
        snprintf(what, sizeof what, "%s to a healthy stream", kinds[w.kind]);
        if (&r != &o) sim::violation("other-stream", "%s: the insertion gives another stream", what);
        if (!o.good()) sim::violation("wrong-state", "%s: the stream is in state %d", what, (int)o.rdstate());
        only(what);
        w.full = b.got;
        if (w.kind == W_SERIE) check_numbers(w.full, d.serie.asArray(), w.format, what);
        if (w.kind == W_ARRAY) check_numbers(w.full, d.array, w.format, what);
        if (w.kind == W_STRINGS) {
            size_t at = 0;
            for (auto &s : d.strings) {
                at = w.full.find(s, at);
                if (at == std::string::npos) sim::violation("incomplete", "%s: \"%s\" is missing in \"%s\"", what, s.c_str(), w.full.c_str());
                at += s.size();
            }
        }
        if (w.kind == W_SERIES) {
            size_t at = 0;
            for (auto &s : d.series) {
                Buf b1;
                std::ostream o1(&b1);
                format(o1, w.format);
                o1 << s;
                at = w.full.find(b1.got, at);
                if (at == std::string::npos) sim::violation("incomplete", "%s: \"%s\" is missing in \"%s\"", what, b1.got.c_str(), w.full.c_str());
                at += b1.got.size();
                check_numbers(b1.got, s.asArray(), w.format, what);
            }
        }
        sim::probe(w.kind == W_SERIE ? P_SERIE : w.kind == W_SERIES ? P_SERIES : w.kind == W_ARRAY ? P_ARRAY : P_STRINGS);
        if (w.format) sim::probe(P_FORMAT);
    }
    on_threads(nt, [&](int t) {
        for (auto &w : writes) {
            if (w.thread != t) continue;
            const Data &d = data[w.data];
            Buf b;
            std::ostream o(&b);
            bool armed = false, pre = false;
            {
                Off off;
                format(o, w.format);
                b.yields = w.yields;
                size_t len = w.full.size();
                switch (w.fault) {
                case F_REFUSE: b.refuse_at = (i64)(w.at % (len + 1)); break;
                case F_ONCE:
                    b.refuse_at = (i64)(w.at % (len + 1));
                    b.once = true;
                    break;
                case F_THROW:
                    b.refuse_at = (i64)(w.at % (len + 1));
                    b.throws = true;
                    b.once = w.at & 1;
                    break;
                case F_SYNC: b.sync_fails = true; break;
                case F_STATE:
                    o.setstate(w.at & 1 ? std::ios::failbit : w.at & 2 ? std::ios::badbit : std::ios::eofbit);
                    pre = true;
                    break;
                default: break;
                }
            }
            if (!pre && w.exceptions) o.exceptions(w.exceptions == 1 ? std::ios::badbit : w.exceptions == 2 ? std::ios::failbit | std::ios::badbit : std::ios::failbit | std::ios::badbit | std::ios::eofbit);
            if (w.fault == F_OOM) {
                sim::alloc_fault(1 + w.at % 3, w.at & 64);
                armed = true;
            }
            bool threw = false;
            Outcome ex;
            try {
                write(o, w.kind, d);
                for (int k = 1; k < w.repeat && w.fault != F_NONE; k++) write(o, w.kind, d);
            } catch (...) {
                threw = true;
                ex = current_exception_outcome();
            }
            u64 fired = armed ? sim::alloc_fault_end() : 0;
            Off off;
            char what[160];
            static const char *const kinds[] = {"series", "collection of series", "list of numbers", "list of strings"};
            static const char *const faults[] = {"healthy stream", "stream that refuses characters", "stream that refuses one character", "stream whose buffer throws", "stream that cannot be flushed", "stream that has failed before", "stream, out of memory"};
            snprintf(what, sizeof what, "%s to a %s (exceptions %d)", kinds[w.kind], faults[w.fault], w.exceptions);
            only(what);
            std::string full = w.full;
            for (int k = 1; k < w.repeat && w.fault != F_NONE; k++) full += w.full;
            if (b.got.size() > full.size() || full.compare(0, b.got.size(), b.got) != 0)
                sim::violation("not-a-prefix", "%s: the stream got \"%s\", which does not start \"%s\"", what, b.got.substr(0, 700).c_str(), full.substr(0, 700).c_str());
            bool bad = !o.good() || threw;
            if (pre) {
                sim::probe(P_PREFAILED);
                if (b.got.size()) sim::violation("written-after-failure", "%s: got \"%s\"", what, b.got.c_str());
                if (o.good()) sim::violation("failure-hidden", "%s: the stream's failure state was cleared", what);
            } else if (b.refused || fired) {
                if (!bad) sim::violation("failure-hidden", "%s: the stream refused something, but is in good state; it got \"%s\"", what, b.got.substr(0, 700).c_str());
                if (b.refused && w.exceptions && !threw) sim::violation("failure-hidden", "%s: the stream was set up to throw, but nothing was thrown (state %d)", what, (int)o.rdstate());
                if (threw && !w.exceptions && !(ex.oom && fired)) sim::violation("unexpected-exception", "%s: %s", what, ex.str().c_str());
                sim::probe(fired ? P_OOM : b.throws ? P_BUFTHROW : b.sync_fails ? P_SYNC : b.once ? P_REFUSED_ONCE : P_REFUSED);
                if (threw && w.exceptions) sim::probe(P_EXCEPTIONS);
            } else {
                if (bad) sim::violation("wrong-state", "%s: state %d, %s although the stream took everything", what, (int)o.rdstate(), threw ? ex.str().c_str() : "nothing thrown,");
                if (b.got != full) sim::violation("incomplete", "%s: the stream got \"%s\", alone \"%s\"", what, b.got.substr(0, 700).c_str(), full.substr(0, 700).c_str());
            }
            u64 x = 5;
            for (char c : b.got) x = x * 31 + (unsigned char)c;
            sim::log(x + threw);
        }
    });
    // Printing: each alone, then those to the output stream beside those to the error stream, which may fail
    if (prints.size()) {
        const auto fo = std::cout.flags(), fe = std::cerr.flags();
        const auto po = std::cout.precision(), pe = std::cerr.precision();
        static const char *const kinds[] = {"dump of a series", "dump of a dataframe", "print of a list of numbers", "warning", "error", "print of a series", "print of several series", "information", "log"};
        for (auto &q : prints) {
            const Data &d = data[q.data];
            print(q.kind, d);
            Off off;
            Buf &own = to_cerr(q.kind) ? bcerr : bcout;
            q.full.swap(own.got);
            only(kinds[q.kind]);
            size_t at = 0;
            for (auto &e : expected(q.kind, d)) {
                at = q.full.find(e, at);
                if (at == std::string::npos) sim::violation("incomplete", "%s: \"%s\" is missing in \"%s\"", kinds[q.kind], e.c_str(), q.full.substr(0, 1500).c_str());
                at += e.size();
            }
            if (!std::cout.good() || !std::cerr.good()) sim::violation("wrong-state", "%s: the standard streams are in state %d, %d", kinds[q.kind], (int)std::cout.rdstate(), (int)std::cerr.rdstate());
            sim::probe(P_PRINT);
        }
        std::ostringstream beside;
        on_threads(3, [&](int t) {
            if (t == 2) {
                for (auto &d : data) beside << d.serie << d.array;
                return;
            }
            std::ostream &o = t ? std::cerr : std::cout;
            Buf &b = t ? bcerr : bcout;
            for (auto &q : prints) {
                if (to_cerr(q.kind) != (t == 1)) continue;
                {
                    Off off;
                    b.yields = q.yields;
                    b.refused = 0;
                    b.got.clear();
                    b.refuse_at = q.fault ? (i64)(q.at % (q.full.size() + 1)) : -1;
                    b.once = q.fault == 2;
                    b.throws = q.fault == 3;
                }
                bool threw = false;
                try {
                    print(q.kind, data[q.data]);
                } catch (...) {
                    threw = true;
                }
                Off off;
                if (threw) sim::violation("unexpected-exception", "%s throws when its stream fails, though that was not set up", kinds[q.kind]);
                if (b.refused ? o.good() : !o.good()) sim::violation("wrong-state", "%s: the stream refused %llu characters and is in state %d", kinds[q.kind], (unsigned long long)b.refused, (int)o.rdstate());
                if (b.refused ? q.full.compare(0, b.got.size(), b.got) != 0 : b.got != q.full)
                    sim::violation("not-a-prefix", "%s: the stream got \"%s\", alone \"%s\"", kinds[q.kind], b.got.substr(0, 700).c_str(), q.full.substr(0, 700).c_str());
                if (b.refused) sim::probe(P_PRINT_FAILED);
                b.refuse_at = -1;
                b.throws = false;
                b.got.clear();
                o.clear();
            }
        });
        Off off;
        std::ostringstream same;
        for (auto &d : data) same << d.serie << d.array;
        if (same.str() != beside.str()) sim::violation("other-stream", "a stream written beside prints got \"%s\" instead of \"%s\"", beside.str().substr(0, 700).c_str(), same.str().substr(0, 700).c_str());
        sim::probe(P_PRINT_BESIDE);
        bcout.yields = bcerr.yields = 0;
        if (fo != std::cout.flags() || fe != std::cerr.flags() || po != std::cout.precision() || pe != std::cerr.precision())
            sim::violation("wrong-format", "printing changed the format of a standard stream");
        only("printing");
    }
    // afterwards the streams of others and the data are as before
    for (auto &w : writes) {
        Buf b;
        std::ostream o(&b);
        {
            Off off;
            format(o, w.format);
        }
        write(o, w.kind, data[w.data]);
        Off off;
        if (b.got != w.full) sim::violation("wrong-after-failure", "the same insertion gives \"%s\" after the failures, \"%s\" before", b.got.substr(0, 700).c_str(), w.full.substr(0, 700).c_str());
        sim::probe(P_LATER);
    }
    Off off;
    only("at the end");
    for (size_t i = 0; i < data.size(); i++) {
        Words w = words(data[i].serie);
        put(w, data[i].series);
        put(w, data[i].array);
        for (auto &s : data[i].strings) put(w, s);
        if (w != before[i]) sim::violation("input-changed", "the data written changed: %s was %s", show(w).c_str(), show(before[i]).c_str());
    }
    std::cout.rdbuf(rc);
    std::cerr.rdbuf(re);
    std::clog.rdbuf(rl);
}

const char *op_name(int k) { return k == O_PRINT ? "print(kind,data,fault,at,yields)" : k == O_DATA ? "data(itemSize,count,dim,values,seed)" : "write(thread,kind,data,fault,at,format,exceptions,yields,repeat)"; }

} // namespace

sim::Harness sim::harness = {"C14", gen, exec, op_name,
                             {"series", "collection of series", "list of numbers", "list of strings", "stream refused characters", "stream refused once", "stream buffer threw", "flush failed", "stream throws", "stream failed before", "out of memory", "several threads",
                              "empty data", "formatted", "insertion after the failures", "printing", "printing to a failing stream", "printing beside other streams"}};
