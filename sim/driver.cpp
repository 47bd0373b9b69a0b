// Runs plans in forked simulations, searches seeds, minimises, replays.
#include "sim.h"

#include <locale>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

static Shared *shm;
static unsigned cpu_per_run = 60, wall_per_run = 120; // seconds; the first counts even on a busy machine

static double wall() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static bool low_memory() {
    char b[512];
    int fd = open("/proc/meminfo", O_RDONLY);
    if (fd < 0) return false;
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    b[n > 0 ? n : 0] = 0;
    const char *p = strstr(b, "MemAvailable:");
    return p && atoll(p + 13) < 4000000;
}

struct Result {
    uint32_t status = 0;
    std::string cls, msg;
    uint64_t hash = 0, sched_hash = 0, steps = 0, switches = 0, preempts = 0, threads = 0, allocs = 0, simtime = 0;
    uint64_t faults[F_NKINDS] = {}, probes[MAX_PROBES] = {};
    std::vector<SchedEntry> sched;
    bool truncated = false;
    bool bad() const { return status == ST_VIOLATION; }
};

static void tramp(void *p) { harness.exec(*(const Plan *)p); }

static bool sched_less(const SchedEntry &a, const SchedEntry &b) {
    if (a.tid != b.tid) return a.tid < b.tid;
    if (a.kind != b.kind) return a.kind < b.kind;
    return a.step < b.step;
}

static Result run(const Plan &plan, Config cfg, const std::vector<SchedEntry> *sched) {
    std::vector<SchedEntry> entries;
    if (sched) {
        entries = *sched;
        std::stable_sort(entries.begin(), entries.end(), sched_less);
        cfg.replay = 1;
    } else {
        cfg.replay = 0;
    }
    memset(shm, 0, offsetof(Shared, sched));
    fflush(stdout);
    static uint64_t forks = 0;
    if (forks++ % 64 == 0)
        for (int i = 0; i < 200 && low_memory(); i++) usleep(50000); // others may need it; finished processes give theirs back
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(2);
    }
    if (pid == 0) {
        int fd = open("/dev/null", O_RDWR);
        dup2(fd, 1);
        if (!getenv("SIM_STDERR")) dup2(fd, 2);
        alarm(wall_per_run);
        rlimit lim = {cpu_per_run, cpu_per_run + 5};
        setrlimit(RLIMIT_CPU, &lim);
        // no futex table of its own: resizing one keeps the memory of a finished process for many RCU periods
        prctl(78 /* PR_FUTEX_HASH */, 1 /* SET_SLOTS */, 0, 0, 0);
        run_child(cfg, entries.data(), entries.size(), shm, tramp, (void *)&plan);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    Result r;
    r.status = shm->status;
    r.cls = shm->cls;
    r.msg = shm->msg;
    r.hash = shm->hash;
    r.sched_hash = shm->sched_hash;
    r.steps = shm->steps;
    r.switches = shm->switches;
    r.preempts = shm->preemptions;
    r.threads = shm->threads;
    r.allocs = shm->allocs;
    r.simtime = shm->simtime;
    memcpy(r.faults, shm->faults, sizeof r.faults);
    memcpy(r.probes, shm->probes, sizeof r.probes);
    if (!sched) {
        size_t n = shm->nsched;
        r.truncated = n > MAX_SCHED;
        if (n > MAX_SCHED) n = MAX_SCHED;
        r.sched.assign(shm->sched, shm->sched + n);
    }
    if (r.status == ST_NONE) {
        r.status = ST_VIOLATION;
        if (WIFSIGNALED(st)) {
            bool slow = WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU;
            r.cls = slow ? "hang" : "killed-by-signal";
            r.msg = slow ? "the run did not end (uninstrumented loop or wait)" : "signal " + std::to_string(WTERMSIG(st));
        } else {
            r.cls = "exited";
            r.msg = "the process under test exited with status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
        }
    }
    return r;
}

static Config gen_config(Rng &r) {
    Config c;
    c.seed = r.next();
    if (!harness.threads || r.chance(harness.none_pct)) {
        c.strategy = S_NONE;
    } else {
        switch (r.below(10)) {
        case 0:
        case 1:
        case 2:
        case 3: c.strategy = S_RANDOM; break;
        case 4:
        case 5: c.strategy = S_SYNC; break;
        case 6:
        case 7: c.strategy = S_PCT; break;
        default: c.strategy = S_BURST; break;
        }
    }
    static const uint32_t iv[] = {3, 10, 30, 100, 300, 1000, 3000};
    c.interval = iv[r.below(7)];
    static const uint32_t sp[] = {2, 10, 30, 60};
    c.sync_pct = sp[r.below(4)];
    c.depth = 1 + r.below(5);
    static const uint32_t pl[] = {300, 2000, 10000, 50000, 200000};
    c.pct_len = pl[r.below(5)];
    c.spurious = r.chance(25) ? 2 + r.below(6) : 0;
    c.lifo = r.chance(30);
    static const uint32_t ns[] = {0, 0, 1, 100};
    c.ns_per_step = ns[r.below(4)];
    c.clock_jump = r.chance(35) ? 3 : 0;
    static const uint32_t co[] = {1, 2, 3, 4, 8, 16, 64, 0};
    c.cores = co[r.below(8)];
    static const uint32_t qs[] = {50000, 50000, 200000, 5000};
    c.quantum = qs[r.below(4)];
    c.reuse = r.chance(30);
    return c;
}

static void make(uint64_t seed, uint64_t index, Plan &p, Config &c) {
    Rng r(mix64(seed * 1000003 + 17, index));
    Rng rc(r.next()), rp(r.next());
    c = gen_config(rc);
    harness.gen(rp, p);
    c.step_cap *= p.scale;
}

// ------------------------------------------------------------------------------------ replay files
struct CfgField {
    const char *name;
    uint64_t (*get)(const Config &);
    void (*set)(Config &, uint64_t);
};
#define CF(n) {#n, [](const Config &c) { return (uint64_t)c.n; }, [](Config &c, uint64_t v) { c.n = (decltype(c.n))v; }}
static const CfgField cfg_fields[] = {CF(seed), CF(strategy), CF(interval), CF(sync_pct), CF(depth), CF(pct_len), CF(spurious),
                                      CF(lifo), CF(ns_per_step), CF(clock_jump), CF(cores), CF(step_cap), CF(quantum), CF(reuse)};

static void write_plan(std::ostream &o, const Plan &p) {
    for (const auto &op : p.ops) {
        o << "op " << op.kind;
        for (auto v : op.f) o << ' ' << v;
        o << "   # " << harness.op_name(op.kind) << "\n";
    }
}
static std::string one_line(std::string s) {
    for (auto &c : s)
        if (c == '\n' || c == '\r') c = ' ';
    return s;
}
static void write_replay(const std::string &path, const Plan &p, const Config &c, const std::vector<SchedEntry> &s, const Result &r,
                         uint64_t seed, uint64_t index, const std::string &note) {
    std::ofstream o(path);
    o << "simreplay 1\nproperty " << harness.property << "\nclass " << r.cls << "\nmessage " << one_line(r.msg) << "\nhash " << r.hash
      << "\nseed " << seed << " " << index << "\n";
    o << "# " << note << "\n";
    for (const auto &f : cfg_fields) o << "cfg " << f.name << " " << f.get(c) << "\n";
    write_plan(o, p);
    for (const auto &e : s)
        o << "sched " << e.tid << " " << e.kind << " " << e.step << " " << e.target
          << (e.kind == 0 ? "   # preempt thread at its step, run target" : "   # when the thread gives way for the n-th time, run target") << "\n";
    for (int i = 0; i < F_NKINDS; i++)
        if (r.faults[i]) o << "# fault " << fault_names[i] << " fired " << r.faults[i] << "\n";
}
struct Replay {
    Plan p;
    Config c;
    std::vector<SchedEntry> s;
    std::string prop, cls;
    uint64_t hash = 0;
};
static bool read_replay(const std::string &path, Replay &r) {
    std::ifstream f(path);
    std::string line;
    if (!std::getline(f, line) || line.rfind("simreplay 1", 0) != 0) return false;
    while (std::getline(f, line)) {
        auto h = line.find('#');
        if (h != std::string::npos && line.rfind("message", 0) != 0) line = line.substr(0, h);
        std::istringstream is(line);
        std::string k;
        is >> k;
        if (k == "property")
            is >> r.prop;
        else if (k == "class")
            is >> r.cls;
        else if (k == "hash")
            is >> r.hash;
        else if (k == "cfg") {
            std::string n;
            uint64_t v;
            is >> n >> v;
            for (const auto &x : cfg_fields)
                if (n == x.name) x.set(r.c, v);
        } else if (k == "op") {
            Op op;
            is >> op.kind;
            int64_t v;
            while (is >> v) op.f.push_back(v);
            r.p.ops.push_back(op);
        } else if (k == "sched") {
            SchedEntry e{};
            is >> e.tid >> e.kind >> e.step >> e.target;
            r.s.push_back(e);
        }
    }
    return true;
}

// ------------------------------------------------------------------------------------ minimisation
struct Minimiser {
    Plan p;
    Config c;
    std::vector<SchedEntry> s;
    bool have_sched = false;
    std::string cls;
    double deadline;
    uint64_t tried = 0;
    Result last;

    bool out_of_time() const { return wall() > deadline; }
    bool check(const Plan &q, const Config &d, const std::vector<SchedEntry> *sc) {
        tried++;
        Result r = run(q, d, sc);
        if (r.bad() && r.cls == cls) {
            last = r;
            return true;
        }
        return false;
    }
    // in recording mode: try a few schedule seeds
    bool try_plan(const Plan &q) {
        if (out_of_time()) return false;
        if (have_sched) {
            if (!check(q, c, &s)) return false;
            p = q;
            return true;
        }
        int tries = harness.threads && c.strategy != S_NONE ? 4 : 1;
        for (int i = 0; i < tries; i++) {
            Config d = c;
            if (i) d.seed = mix64(c.seed, i);
            if (check(q, d, nullptr)) {
                p = q;
                c = d;
                return true;
            }
            if (out_of_time()) return false;
        }
        return false;
    }
    bool shrink_ops() {
        bool any = false;
        size_t chunk = std::max<size_t>(1, p.ops.size() / 2);
        while (true) {
            bool prog = false;
            for (size_t i = 0; i < p.ops.size();) {
                Plan q = p;
                size_t n = std::min(chunk, q.ops.size() - i);
                q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + n);
                if (try_plan(q))
                    prog = any = true;
                else
                    i += n;
                if (out_of_time()) return any;
            }
            if (chunk == 1 && !prog) break;
            if (chunk > 1) chunk /= 2;
        }
        return any;
    }
    bool shrink_fields() {
        bool any = false;
        for (size_t i = 0; i < p.ops.size(); i++)
            for (size_t j = 0; j < p.ops[i].f.size(); j++) {
                for (int round = 0; round < 12; round++) {
                    int64_t v = p.ops[i].f[j];
                    if (v == 0) break;
                    bool ok = false;
                    for (int64_t nv : {(int64_t)0, (int64_t)1, v / 2, v - 1}) {
                        if (nv == v || (v > 0 && nv > v)) continue;
                        Plan q = p;
                        q.ops[i].f[j] = nv;
                        if (try_plan(q)) {
                            ok = any = true;
                            break;
                        }
                        if (out_of_time()) return any;
                    }
                    if (!ok) break;
                }
            }
        return any;
    }
    void simplify_cfg() {
        auto attempt = [&](auto f) {
            Config d = c;
            f(d);
            if (!out_of_time() && check(p, d, nullptr)) c = d;
        };
        attempt([](Config &d) { d.strategy = S_NONE; });
        if (c.spurious) attempt([](Config &d) { d.spurious = 0; });
        if (c.lifo) attempt([](Config &d) { d.lifo = 0; });
        if (c.clock_jump) attempt([](Config &d) { d.clock_jump = 0; });
        if (c.ns_per_step) attempt([](Config &d) { d.ns_per_step = 0; });
        if (c.reuse) attempt([](Config &d) { d.reuse = 0; });
        if (c.cores != 8) attempt([](Config &d) { d.cores = 8; });
    }
    void shrink_sched() {
        size_t chunk = std::max<size_t>(1, s.size() / 2);
        while (!s.empty()) {
            bool prog = false;
            for (size_t i = 0; i < s.size();) {
                if (out_of_time()) return;
                std::vector<SchedEntry> q = s;
                size_t n = std::min(chunk, q.size() - i);
                q.erase(q.begin() + i, q.begin() + i + n);
                if (check(p, c, &q)) {
                    s = q;
                    prog = true;
                } else
                    i += n;
            }
            if (chunk == 1 && !prog) break;
            if (chunk > 1) chunk /= 2;
        }
    }
};

static int minimise(uint64_t seed, uint64_t index, const std::string &out, double budget) {
    Minimiser m;
    make(seed, index, m.p, m.c);
    Plan p0 = m.p;
    Config c0 = m.c;
    Result r0 = run(m.p, m.c, nullptr);
    if (!r0.bad()) {
        printf("NOTREPRODUCED first run status %u %s %s\n", r0.status, r0.cls.c_str(), r0.msg.c_str());
        return 3;
    }
    if (r0.cls == "hang") { // takes its time on every run: recorded as it is, the caller replays it
        write_replay(out, m.p, m.c, r0.sched, r0, seed, index, "not minimised");
        printf("MINIMISED hang %s | not minimised\n", one_line(r0.msg).c_str());
        return 0;
    }
    Result r1 = run(m.p, m.c, nullptr);
    if (!r1.bad() || r1.cls != r0.cls || r1.hash != r0.hash) {
        printf("NONDETERMINISTIC %s/%llu vs %s/%llu\n", r0.cls.c_str(), (unsigned long long)r0.hash, r1.cls.c_str(), (unsigned long long)r1.hash);
        return 3;
    }
    m.cls = r0.cls;
    m.deadline = wall() + budget;
    m.last = r0;
    size_t ops0 = m.p.ops.size(), s0 = r0.sched.size();
    m.simplify_cfg();
    for (int i = 0; i < 4 && !m.out_of_time(); i++) {
        bool a = m.shrink_ops();
        bool b = m.shrink_fields();
        if (!a && !b) break;
    }
    m.simplify_cfg();
    // fix the schedule
    Result r = run(m.p, m.c, nullptr);
    bool ok = r.bad() && r.cls == m.cls && !r.truncated;
    if (ok) {
        m.s = r.sched;
        m.have_sched = true;
        Result rr = run(m.p, m.c, &m.s);
        ok = rr.bad() && rr.cls == m.cls;
        if (ok && rr.hash != r.hash) printf("NOTE replay hash differs from the recorded run\n");
    }
    if (!ok) {
        m.p = p0;
        m.c = c0;
        m.s = r0.sched;
        Result rr = run(m.p, m.c, &m.s);
        if (!rr.bad() || rr.cls != m.cls) {
            printf("NOTREPRODUCED by the recorded schedule\n");
            return 3;
        }
        m.have_sched = true;
    }
    m.deadline = std::max(m.deadline, wall() + budget * 0.3);
    m.shrink_sched();
    if (!m.out_of_time()) m.shrink_ops();
    if (!m.out_of_time()) m.shrink_sched();
    Result f = run(m.p, m.c, &m.s);
    if (!f.bad() || f.cls != m.cls) {
        printf("NOTREPRODUCED at the end\n");
        return 3;
    }
    std::ostringstream note;
    note << "minimised from " << ops0 << " operations and " << s0 << " scheduling decisions to " << m.p.ops.size() << " and " << m.s.size()
         << " (" << m.tried << " candidate runs)";
    write_replay(out, m.p, m.c, m.s, f, seed, index, note.str());
    printf("MINIMISED %s %s | %s\n", f.cls.c_str(), one_line(f.msg).c_str(), note.str().c_str());
    return 0;
}

// ------------------------------------------------------------------------------------ worker
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (char ch : s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if ((unsigned char)ch < 32)
            o += ' ';
        else
            o += ch;
    }
    return o + "\"";
}
static int worker(int argc, char **argv) {
    // SEED START STRIDE COUNT WALL OUT
    if (argc < 8) return 2;
    uint64_t seed = strtoull(argv[2], 0, 10), start = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
    double budget = atof(argv[6]);
    std::string out = argv[7];
    double t0 = wall();
    double maxload = 0; // the largest part of the step limit that a run took
    uint64_t heaviest = 0;
    uint64_t runs = 0, dbl = 0, replays = 0, mism = 0, invalid = 0, nontrivial = 0, steps = 0, switches = 0, preempts = 0, simtime = 0, maxthreads = 0, allocs = 0;
    uint64_t strat[S_NSTRAT] = {};
    uint64_t faults[F_NKINDS] = {}, probes[MAX_PROBES] = {}, fruns[F_NKINDS] = {}, pruns[MAX_PROBES] = {};
    std::set<uint64_t> distinct, scheds;
    std::string stopfile = getenv("SIM_STOP") ? getenv("SIM_STOP") : "/nonexistent";
    std::string sample, viol, mismsg, invmsg;
    for (uint64_t i = start; runs < count; i += stride) {
        if (wall() - t0 > budget) break;
        if (runs % 8 == 0 && access(stopfile.c_str(), F_OK) == 0) break;
        Plan p;
        Config c;
        make(seed, i, p, c);
        Result r = run(p, c, nullptr);
        runs++;
        strat[c.strategy]++;
        steps += r.steps;
        switches += r.switches;
        preempts += r.preempts;
        simtime += r.simtime;
        allocs += r.allocs;
        maxthreads = std::max(maxthreads, r.threads);
        double load = std::max((double)r.steps, r.switches * 20.0) / (double)c.step_cap;
        if (load > maxload) maxload = load, heaviest = i;
        bool flt = false;
        for (int k = 0; k < F_NKINDS; k++) {
            faults[k] += r.faults[k];
            fruns[k] += r.faults[k] > 0;
            flt |= r.faults[k] > 0;
        }
        for (int k = 0; k < MAX_PROBES; k++) {
            probes[k] += r.probes[k];
            pruns[k] += r.probes[k] > 0;
        }
        if (r.status == ST_INVALID) {
            invalid++;
            invmsg = r.msg;
        }
        if ((flt || r.switches > 0) && r.status == ST_OK) {
            if (distinct.insert(r.hash).second) nontrivial++;
        }
        scheds.insert(r.sched_hash);
        if (runs <= 1) {
            std::ostringstream o;
            o << "run " << i << ": strategy " << c.strategy << " interval " << c.interval << ", " << r.threads << " threads, " << r.steps << " steps, "
              << r.switches << " switches; plan: ";
            size_t k = 0;
            for (const auto &op : p.ops) {
                if (k++ > 11) {
                    o << " ... (" << p.ops.size() << " operations)";
                    break;
                }
                o << harness.op_name(op.kind) << "(";
                for (size_t q = 0; q < op.f.size(); q++) o << (q ? "," : "") << op.f[q];
                o << ") ";
            }
            sample = o.str();
        }
        if (r.bad()) {
            std::ostringstream o;
            o << "{\"index\":" << i << ",\"class\":" << jstr(r.cls) << ",\"msg\":" << jstr(r.msg) << ",\"hash\":\"" << r.hash << "\"}";
            viol = o.str();
            int fd = open(stopfile.c_str(), O_CREAT | O_WRONLY, 0644);
            if (fd >= 0) close(fd);
            break;
        }
        if (runs % 16 == 1) {
            Result q = run(p, c, nullptr);
            dbl++;
            if (q.hash != r.hash || q.status != r.status || q.steps != r.steps) {
                mism++;
                mismsg = "run " + std::to_string(i) + " same seed twice: hash " + std::to_string(r.hash) + " / " + std::to_string(q.hash) + " status " +
                         std::to_string(q.status) + " " + q.cls + " " + q.msg;
            }
        }
        if (runs % 32 == 2 && !r.truncated) {
            Result q = run(p, c, &r.sched);
            replays++;
            if (q.hash != r.hash || q.status != r.status) {
                mism++;
                mismsg = "run " + std::to_string(i) + " replayed from its schedule: hash " + std::to_string(r.hash) + " / " + std::to_string(q.hash) + " status " +
                         std::to_string(q.status) + " " + q.cls + " " + q.msg;
            }
        }
    }
    std::ofstream o(out);
    o << "{\"runs\":" << runs << ",\"double_runs\":" << dbl << ",\"replay_runs\":" << replays << ",\"mismatches\":" << mism << ",\"mismatch\":" << jstr(mismsg)
      << ",\"invalid\":" << invalid << ",\"invalid_msg\":" << jstr(invmsg) << ",\"nontrivial\":" << nontrivial << ",\"steps\":" << steps << ",\"switches\":" << switches
      << ",\"preemptions\":" << preempts << ",\"simtime_ns\":" << simtime << ",\"allocs\":" << allocs << ",\"max_threads\":" << maxthreads << ",\"max_load\":" << maxload << ",\"heaviest\":" << heaviest << ",\"wall\":" << wall() - t0
      << ",\"sample\":" << jstr(sample) << ",\"strategies\":[";
    for (int k = 0; k < S_NSTRAT; k++) o << (k ? "," : "") << strat[k];
    o << "],\"faults\":{";
    for (int k = 0; k < F_NKINDS; k++) o << (k ? "," : "") << jstr(fault_names[k]) << ":[" << faults[k] << "," << fruns[k] << "]";
    o << "},\"probes\":{";
    bool first = true;
    for (size_t k = 0; k < harness.probes.size() && k < MAX_PROBES; k++) {
        o << (first ? "" : ",") << jstr(harness.probes[k]) << ":[" << probes[k] << "," << pruns[k] << "]";
        first = false;
    }
    o << "},\"violation\":" << (viol.empty() ? "null" : viol) << "}\n";
    std::ofstream h(out + ".hashes", std::ios::binary);
    for (auto v : distinct) h.write((const char *)&v, 8);
    std::ofstream h2(out + ".scheds", std::ios::binary);
    for (auto v : scheds) h2.write((const char *)&v, 8);
    return 0;
}

int main(int argc, char **argv) {
    { // what streams set up at their first use, or the first run would take other steps than later ones
        const auto &ct = std::use_facet<std::ctype<char>>(std::locale::classic());
        for (int c = 0; c < 256; c++) ct.widen((char)c), ct.narrow((char)c, '?');
        std::ostringstream o;
        o << 1.5 << ' ' << 1 << std::endl;
    }

    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR_TRIED")) {
        setenv("SIM_NOASLR_TRIED", "1", 1);
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    if (argc < 2) return 2;
    if (const char *e = getenv("SIM_CPU")) {
        cpu_set_t all, one;
        CPU_ZERO(&all);
        if (sched_getaffinity(0, sizeof all, &all) == 0 && CPU_COUNT(&all) > 1) {
            int want = atoi(e) % CPU_COUNT(&all), k = 0;
            for (int i = 0; i < CPU_SETSIZE; i++)
                if (CPU_ISSET(i, &all) && k++ == want) {
                    CPU_ZERO(&one);
                    CPU_SET(i, &one);
                    sched_setaffinity(0, sizeof one, &one);
                    break;
                }
        }
    }
    shm = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    init_process();
    std::cout << "" << std::flush; // make the standard streams exist before any run
    std::string cmd = argv[1];
    if (cmd == "worker") return worker(argc, argv);
    if (cmd == "minimise" && argc >= 6) return minimise(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), argv[4], atof(argv[5]));
    if (cmd == "replay" && argc >= 3) {
        Replay r;
        if (!read_replay(argv[2], r) || r.prop != harness.property) {
            printf("not a replay file of %s\n", harness.property);
            return 2;
        }
        Result q = run(r.p, r.c, &r.s);
        printf("status %u class %s hash %llu expected %s %llu\nmessage %s\n", q.status, q.cls.c_str(), (unsigned long long)q.hash, r.cls.c_str(),
               (unsigned long long)r.hash, one_line(q.msg).c_str());
        if (q.bad() && q.cls == r.cls && (q.hash == r.hash || r.cls == "hang")) return 1;
        return q.bad() ? 4 : 0;
    }
    if (cmd == "show" && argc >= 4) {
        Plan p;
        Config c;
        make(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), p, c);
        for (const auto &f : cfg_fields) std::cout << "cfg " << f.name << " " << f.get(c) << "\n";
        write_plan(std::cout, p);
        Result q = run(p, c, nullptr);
        printf("status %u class %s hash %llu steps %llu switches %llu\nmessage %s\n", q.status, q.cls.c_str(), (unsigned long long)q.hash, (unsigned long long)q.steps,
               (unsigned long long)q.switches, one_line(q.msg).c_str());
        return 0;
    }
    if (cmd == "hashes" && argc >= 5) { // event hashes of a range of runs: for the determinism self-test
        uint64_t seed = strtoull(argv[2], 0, 10), a = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10);
        for (uint64_t i = a; i < a + n; i++) {
            Plan p;
            Config c;
            make(seed, i, p, c);
            Result r = run(p, c, nullptr);
            printf("%llu %u %llu %llu %llu\n", (unsigned long long)i, r.status, (unsigned long long)r.hash, (unsigned long long)r.steps, (unsigned long long)r.switches);
        }
        return 0;
    }
    return 2;
}
