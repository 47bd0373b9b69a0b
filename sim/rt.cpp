// Deterministic simulation runtime.  Compiled WITHOUT instrumentation; provides the __tsan_* entry
// points the instrumented objects call, interposes threads, time, entropy and allocation, and owns the
// scheduler.  See rt.h and DESIGN.md.
#include "rt.h"

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <bits/functexcept.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

extern "C" void *__cxa_current_exception_type();

namespace sim {

typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

#define HOT __attribute__((always_inline)) inline
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

const char *const fault_names[F_NKINDS] = {
    "preemption",    "allocation_failure", "thread_start_failure", "spurious_wakeup", "stall",
    "clock_jump",    "entropy_failure",    "entropy_repeat",       "callback_throw",  "bad_job_result",
    "stream_refuse", "stream_throw",       "callback_reentry",     "bad_argument",    "memory_limit",
    "starvation"};

// ------------------------------------------------------------------------------------ raw syscalls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static void raw_futex_wait(volatile u32 *p, u32 v) { raw6(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void raw_futex_wake(volatile u32 *p) { raw6(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
[[noreturn]] static void raw_exit(int c) {
    for (;;) raw6(SYS_exit_group, c, 0, 0, 0, 0, 0);
}

// ------------------------------------------------------------------------------------ memory layout
static const uptr HEAP0 = 0x10000000000ull, HEAPSZ = 384ull << 20;
static const uptr STACK0 = HEAP0 + HEAPSZ;
static const uptr STACKSZ = 512 << 10;
static const uptr STACKALL = STACKSZ * (MAX_THREADS + 2);
static const uptr ARENA1 = STACK0 + STACKALL;
static const uptr ARENASZ = HEAPSZ + STACKALL;
static const uptr CELL0 = 0x20000000000ull; // 4 u64 per granule of the arena
static const uptr PC0 = 0x30000000000ull;   // 4 u32 per granule of the arena
static const uptr GCELL0 = 0x40000000000ull; // same for the executable's globals
static const uptr GPC0 = 0x41000000000ull;
static const uptr ASAN0 = 0x50000000000ull; // 1 byte per granule of the heap
static const uptr GLOB0 = 0x400000, GLOBSZ = 64 << 20; // no-pie executable image
static const u64 MEM_LIMIT = 192ull << 20;

extern "C" char __data_start, _end;
static uptr glob_lo, glob_hi;

struct Blk { // header in front of every arena block
    u64 magic, size, serial;
    u32 pc;
    u16 tid;
    u16 flags;
};
enum : u64 { MAGIC_LIVE = 0xA110CA7EDB10C401ull, MAGIC_FREE = 0xF4EEDB10CF4EED02ull };
enum { BF_OFF = 1, BF_ARRAY = 2, BF_ALIGNED = 4 };

// ------------------------------------------------------------------------------------ threads
enum State { T_UNUSED, T_RUN, T_BLOCK, T_DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_FUTEX, W_ONCE, W_RW, W_SEM, W_BARRIER, W_GUARD, W_QUIESCE, W_SPIN };
static const char *const why_names[] = {"-", "mutex", "condition", "join", "sleep", "futex", "once", "rwlock", "semaphore", "barrier", "static-init", "quiesce", "spin"};

struct TlsDtor {
    void (*fn)(void *);
    void *obj;
    TlsDtor *next;
};

struct Thread {
    u32 id;
    u64 step, stop, acct, run_start, next_preempt;
    int off;
    State state;
    Why why;
    uptr obj;
    u64 wait_seq;
    bool timed, timed_out, notified;
    u64 deadline;
    volatile u32 go;
    u32 prio;
    bool detached, joined;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    pthread_t real;
    TlsDtor *dtors;
    // alloc faults
    u64 alloc_n, alloc_at, alloc_fired;
    bool alloc_persist;
    // schedule to replay
    u64 nblock; // how often it had to choose a successor
    SchedEntry *plist, *flist;
    u32 np, nf, ip, jf;
    // clocks
    u32 clk;
    u32 vc[MAX_THREADS + 8];
    u32 pend[MAX_THREADS + 8]; // relaxed-load clocks (for acquire fences)
    u32 relf[MAX_THREADS + 8]; // release-fence clock
    bool has_pend, has_relf;
};

struct SyncVar {
    uptr addr;
    u32 owner, count, state, aux;
    u32 vc[MAX_THREADS + 8];
};
enum { NSYNC = 1 << 16 };

struct Globals {
    Config cfg;
    Shared *out;
    Thread *th; // MAX_THREADS+1, 1-based
    u32 nth;
    u64 steps, now_base, realtime_off;
    u64 wait_seq, events;
    u64 rng;
    u64 hash, shash;
    u64 switches, preempts;
    u64 burst_left;
    bool burst_fast;
    u64 pct_points[64];
    u32 pct_i, pct_low;
    uptr bump, bump_start;
    uptr free_list[772]; // by size class: runs that reuse memory, and others when it becomes scarce
    u64 live_blocks, live_bytes, serial, allocs, used;
    u64 gall_n, gall_at, gall_fired;
    bool gall_persist;
    u64 thr_n, thr_at, thr_fired;
    bool thr_persist;
    int ent_mode;
    u64 ent_val, ent_at, ent_n, ent_rng;
    SyncVar *sv;
    SyncVar fallback;
    SyncVar exc; // happens-before of the exception machinery (lives inside libstdc++)
    u32 nsv;
    bool on, ending;
    u64 clock_reads;
    SchedEntry *entries;
    u64 nentries;
    u64 faults[F_NKINDS];
    u64 probes[MAX_PROBES];
};
static Globals G;
static __thread Thread *cur __attribute__((tls_model("local-exec")));

static u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static u64 rnd() {
    G.rng += 0x9e3779b97f4a7c15ull;
    u64 z = G.rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static void hmix(u64 &h, u64 v) { h = (h ^ v) * 0x100000001b3ull, h ^= h >> 29; }

// ------------------------------------------------------------------------------------ end of a run
static void collect(u32 status) {
    Shared *o = G.out;
    if (cur) {
        G.steps += cur->step - cur->acct;
        cur->acct = cur->step;
    }
    for (u32 i = 1; i <= G.nth; i++) hmix(G.hash, G.th[i].step);
    o->hash = G.hash;
    o->sched_hash = G.shash;
    o->steps = G.steps;
    o->switches = G.switches;
    o->preemptions = G.preempts;
    o->threads = G.nth;
    o->allocs = G.allocs;
    o->simtime = G.now_base + G.steps * G.cfg.ns_per_step;
    memcpy(o->faults, G.faults, sizeof G.faults);
    memcpy(o->probes, G.probes, sizeof G.probes);
    o->status = status;
}
void violation_plain(const char *cls, const char *msg) {
    if (!G.on || G.ending) raw_exit(3);
    G.ending = true;
    if (cur) cur->off++;
    strncpy(G.out->cls, cls, sizeof G.out->cls - 1);
    strncpy(G.out->msg, msg, sizeof G.out->msg - 1);
    for (const char *p = cls; *p; p++) hmix(G.hash, (u8)*p);
    collect(ST_VIOLATION);
    raw_exit(0);
}
static char msgbuf[3000];
void violation(const char *cls, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(msgbuf, sizeof msgbuf, fmt, ap);
    va_end(ap);
    violation_plain(cls, msgbuf);
}
[[noreturn]] static void invalid(const char *why) {
    if (!G.on) raw_exit(3);
    strncpy(G.out->cls, "invalid", 90);
    strncpy(G.out->msg, why, sizeof G.out->msg - 1);
    collect(ST_INVALID);
    raw_exit(0);
}
void finish_ok() {
    if (cur) cur->off++;
    collect(ST_OK);
    raw_exit(0);
}

// ------------------------------------------------------------------------------------ simulated time
static u64 now_ns() {
    u64 s = G.steps;
    if (cur) s += cur->step - cur->acct;
    return G.now_base + s * G.cfg.ns_per_step;
}
static bool expired_wake() { // wakes sleepers whose deadline has passed
    bool any = false;
    u64 n = now_ns();
    for (u32 i = 1; i <= G.nth; i++) {
        Thread *t = &G.th[i];
        if (t->state == T_BLOCK && t->timed && t->deadline <= n) {
            t->state = T_RUN;
            t->timed_out = true;
            any = true;
        }
    }
    return any;
}

// ------------------------------------------------------------------------------------ scheduler
static void compute_stop(Thread *t) {
    u64 stop = t->run_start + G.cfg.quantum;
    if (stop <= t->step) stop = t->step + G.cfg.quantum;
    if (G.cfg.replay) {
        while (t->ip < t->np && t->plist[t->ip].step <= t->step) t->ip++;
        if (t->ip < t->np && t->plist[t->ip].step < stop) stop = t->plist[t->ip].step;
    } else if (t->next_preempt < stop) {
        stop = t->next_preempt;
    }
    u64 capleft = G.cfg.step_cap > G.steps ? G.cfg.step_cap - G.steps : 1;
    if (t->step + capleft < stop) stop = t->step + capleft;
    if (G.cfg.ns_per_step) {
        u64 n = now_ns();
        for (u32 i = 1; i <= G.nth; i++) {
            Thread *o = &G.th[i];
            if (o->state == T_BLOCK && o->timed && o->deadline != ~0ull) {
                u64 d = o->deadline > n ? (o->deadline - n + G.cfg.ns_per_step - 1) / G.cfg.ns_per_step : 1;
                if (d == 0) d = 1;
                if (t->step + d < stop) stop = t->step + d;
            }
        }
    }
    if (stop <= t->step) stop = t->step + 1;
    t->stop = stop;
}
static u64 geometric(u64 mean) {
    if (mean <= 1) return 1;
    // sum of a uniform and an occasional longer tail: cheap, integer only, deterministic
    u64 r = rnd();
    u64 g = 1 + r % (2 * mean - 1);
    if ((r >> 60) == 0) g *= 8;
    return g;
}
static void plan_preempt(Thread *t) {
    t->next_preempt = ~0ull;
    if (G.cfg.replay) return;
    switch (G.cfg.strategy) {
    case S_RANDOM: t->next_preempt = t->step + geometric(G.cfg.interval); break;
    case S_BURST:
        if (G.burst_left == 0) {
            G.burst_fast = !G.burst_fast;
            G.burst_left = G.burst_fast ? 4 + rnd() % 30 : 1 + rnd() % 3;
        }
        G.burst_left--;
        t->next_preempt = t->step + geometric(G.burst_fast ? 3 : G.cfg.interval * 10 + 50);
        break;
    case S_PCT: {
        u64 s = G.steps + (t->step - t->acct);
        if (G.pct_i < G.cfg.depth && G.pct_i < 64) {
            u64 p = G.pct_points[G.pct_i];
            t->next_preempt = t->step + (p > s ? p - s : 1);
        }
        break;
    }
    default: break;
    }
}
static Thread *default_next(Thread *t) {
    for (u32 k = 1; k <= G.nth; k++) {
        u32 i = (t->id - 1 + k) % G.nth + 1;
        if (&G.th[i] != t && G.th[i].state == T_RUN) return &G.th[i];
    }
    return nullptr;
}
static Thread *random_other(Thread *t) {
    u32 n = 0;
    for (u32 i = 1; i <= G.nth; i++)
        if (&G.th[i] != t && G.th[i].state == T_RUN) n++;
    if (!n) return nullptr;
    u32 k = rnd() % n;
    for (u32 i = 1; i <= G.nth; i++)
        if (&G.th[i] != t && G.th[i].state == T_RUN && k-- == 0) return &G.th[i];
    return nullptr;
}
static Thread *best_prio(bool self_ok, Thread *t) {
    Thread *b = nullptr;
    for (u32 i = 1; i <= G.nth; i++) {
        Thread *o = &G.th[i];
        if (o->state != T_RUN || (!self_ok && o == t)) continue;
        if (!b || o->prio > b->prio) b = o;
    }
    return b;
}
static void record(Thread *t, u32 kind, Thread *to) {
    if (G.out->nsched < MAX_SCHED) {
        SchedEntry &e = G.out->sched[G.out->nsched];
        e.tid = t->id;
        e.kind = kind;
        e.step = kind ? t->nblock : t->step;
        e.target = to->id;
        e.pad = 0;
    }
    G.out->nsched++;
}
static void wait_go(Thread *t) {
    while (t->go == 0) raw_futex_wait(&t->go, 0);
    t->go = 0;
}
static void switched_in(Thread *t) {
    t->run_start = t->step;
    t->acct = t->step;
    plan_preempt(t);
    compute_stop(t);
}
// hands the processor from t to n; returns when t runs again (unless t is done)
static void handoff(Thread *t, Thread *n, u32 reason) {
    G.steps += t->step - t->acct;
    t->acct = t->step;
    G.switches++;
    u64 v = (u64)t->id << 56 ^ (u64)n->id << 48 ^ (u64)reason << 44 ^ t->step;
    hmix(G.hash, v);
    hmix(G.shash, v);
    bool done = t->state == T_DONE;
    n->go = 1;
    raw_futex_wake(&n->go);
    if (done) return;
    wait_go(t);
    switched_in(t);
}
static void describe_threads(char *b, size_t n) {
    size_t k = 0;
    for (u32 i = 1; i <= G.nth && k + 60 < n; i++) {
        Thread *t = &G.th[i];
        if (t->state == T_DONE) continue;
        k += snprintf(b + k, n - k, " T%u:%s", t->id, t->state == T_RUN ? "runnable" : why_names[t->why]);
    }
}
// t cannot continue: choose who runs next
static void pick_after_block(Thread *t) {
    G.steps += t->step - t->acct;
    t->acct = t->step;
    expired_wake();
    t->nblock++;
    for (;;) {
        Thread *d = default_next(t);
        if (t->state == T_RUN && !d) { // woken by its own deadline, nobody else
            compute_stop(t);
            return;
        }
        if (d || t->state == T_RUN) {
            Thread *n = d;
            if (G.cfg.replay) {
                while (t->jf < t->nf && t->flist[t->jf].step < t->nblock) t->jf++;
                if (t->jf < t->nf && t->flist[t->jf].step == t->nblock) {
                    u32 id = t->flist[t->jf].target;
                    t->jf++;
                    if (id >= 1 && id <= G.nth && G.th[id].state == T_RUN && &G.th[id] != t) n = &G.th[id];
                }
            } else {
                if (G.cfg.strategy == S_PCT)
                    n = best_prio(false, t);
                else if (G.cfg.strategy != S_NONE)
                    n = random_other(t);
                if (n != d) record(t, 1, n);
            }
            handoff(t, n, 1);
            return;
        }
        // nobody runnable: advance the clock to the next deadline
        u64 best = ~0ull;
        for (u32 i = 1; i <= G.nth; i++)
            if (G.th[i].state == T_BLOCK && G.th[i].timed && G.th[i].deadline < best) best = G.th[i].deadline;
        if (best == ~0ull) {
            char b[1500];
            describe_threads(b, sizeof b);
            violation("deadlock", "no thread can run:%s", b);
        }
        u64 n = now_ns();
        if (best > n) G.now_base += best - n;
        expired_wake();
    }
}
static void check_caps() {
    if (G.steps < G.cfg.step_cap && G.switches < G.cfg.step_cap / 20) return;
    char b[1500];
    describe_threads(b, sizeof b);
    violation("livelock", "no end after %llu steps and %llu switches:%s", (unsigned long long)G.steps, (unsigned long long)G.switches, b);
}
static __attribute__((noinline)) void slow_step(Thread *t, bool sync) {
    G.steps += t->step - t->acct;
    t->acct = t->step;
    check_caps();
    expired_wake();
    Thread *to = nullptr;
    bool pre = false;
    if (G.cfg.replay) {
        while (t->ip < t->np && t->plist[t->ip].step < t->step) t->ip++;
        if (t->ip < t->np && t->plist[t->ip].step == t->step) {
            u32 id = t->plist[t->ip].target;
            t->ip++;
            to = id >= 1 && id <= G.nth && G.th[id].state == T_RUN && &G.th[id] != t ? &G.th[id] : default_next(t);
            pre = to != nullptr;
        }
    } else {
        switch (G.cfg.strategy) {
        case S_RANDOM:
        case S_BURST:
        case S_SYNC:
            if (t->step >= t->next_preempt || (sync && rnd() % 100 < G.cfg.sync_pct)) {
                to = random_other(t);
                if (!to) plan_preempt(t);
            }
            break;
        case S_PCT: {
            if (G.pct_i < G.cfg.depth && G.steps >= G.pct_points[G.pct_i]) {
                G.pct_i++;
                t->prio = --G.pct_low;
            }
            Thread *b = best_prio(true, t);
            if (b != t) to = b;
            plan_preempt(t);
            break;
        }
        default: break;
        }
        if (to) {
            record(t, 0, to);
            pre = true;
        }
    }
    if (!to && t->step - t->run_start >= G.cfg.quantum) {
        if (G.pct_low > 1) t->prio = --G.pct_low;
        to = default_next(t);
        if (to)
            G.faults[F_STARVE]++;
        else
            t->run_start = t->step;
    }
    if (to) {
        if (pre) {
            G.preempts++;
            G.faults[F_PREEMPT]++;
        }
        handoff(t, to, pre ? 0 : 2);
    } else {
        compute_stop(t);
    }
}
static HOT void step(Thread *t) {
    if (UNLIKELY(++t->step >= t->stop)) slow_step(t, false);
}
static void sync_point(Thread *t) {
    if (t->off) return;
    ++t->step;
    if (G.cfg.replay) {
        if (t->step >= t->stop) slow_step(t, true);
    } else if (t->step >= t->stop || G.cfg.strategy == S_SYNC || G.cfg.strategy == S_RANDOM || G.cfg.strategy == S_BURST || G.cfg.strategy == S_PCT) {
        slow_step(t, true);
    }
}
static void block(Thread *t, Why why, uptr obj, bool timed, u64 deadline) {
    if (t->off) invalid("blocking operation inside an oracle section");
    t->why = why;
    t->obj = obj;
    t->timed = timed;
    t->deadline = deadline;
    t->timed_out = false;
    t->notified = false;
    t->wait_seq = ++G.wait_seq;
    t->state = T_BLOCK;
    pick_after_block(t);
    t->why = W_NONE;
    t->timed = false;
}
static void wake_all(Why why, uptr obj) {
    for (u32 i = 1; i <= G.nth; i++) {
        Thread *t = &G.th[i];
        if (t->state == T_BLOCK && t->why == why && t->obj == obj) {
            t->state = T_RUN;
            t->notified = true;
        }
    }
}
static bool wake_one(Why why, uptr obj) {
    Thread *b = nullptr;
    for (u32 i = 1; i <= G.nth; i++) {
        Thread *t = &G.th[i];
        if (t->state == T_BLOCK && t->why == why && t->obj == obj)
            if (!b || (G.cfg.lifo ? t->wait_seq > b->wait_seq : t->wait_seq < b->wait_seq)) b = t;
    }
    if (!b) return false;
    b->state = T_RUN;
    b->notified = true;
    return true;
}
static bool spurious(Thread *t) {
    if (!G.cfg.spurious) return false;
    if (mix(G.cfg.seed ^ (u64)t->id << 40 ^ t->step) % G.cfg.spurious) return false;
    G.faults[F_SPURIOUS]++;
    return true;
}

// ------------------------------------------------------------------------------------ happens-before
static SyncVar *sv_get(uptr a) {
    u64 h = mix(a) & (NSYNC - 1);
    for (u32 k = 0; k < NSYNC; k++, h = (h + 1) & (NSYNC - 1)) {
        SyncVar *s = &G.sv[h];
        if (s->addr == a) return s;
        if (s->addr == 0) {
            if (G.nsv > NSYNC * 3 / 4) return &G.fallback;
            G.nsv++;
            s->addr = a;
            return s;
        }
    }
    return &G.fallback;
}
static SyncVar *sv_find(uptr a) {
    u64 h = mix(a) & (NSYNC - 1);
    for (u32 k = 0; k < NSYNC; k++, h = (h + 1) & (NSYNC - 1)) {
        SyncVar *s = &G.sv[h];
        if (s->addr == a) return s;
        if (s->addr == 0) return nullptr;
    }
    return nullptr;
}
static void vc_join(u32 *d, const u32 *s) {
    for (u32 i = 1; i <= G.nth; i++)
        if (s[i] > d[i]) d[i] = s[i];
}
static void acquire(Thread *t, SyncVar *s) { vc_join(t->vc, s->vc); }
static void release(Thread *t, SyncVar *s) {
    vc_join(s->vc, t->vc);
    t->clk++;
    t->vc[t->id] = t->clk;
}
static void hb_exc(Thread *t) {
    acquire(t, &G.exc);
    release(t, &G.exc);
}

// ------------------------------------------------------------------------------------ access checks
// cell: tid:16 | clk:32 | off:3 | size-1:3 | write:1 | atomic:1 | valid:1
static HOT u64 pack(u32 tid, u32 clk, u32 off, u32 sz, bool w, bool at) {
    return (u64)tid << 48 | (u64)clk << 16 | (u64)off << 6 | (u64)(sz - 1) << 3 | (u64)w << 2 | (u64)at << 1 | 1;
}
static __attribute__((noinline)) void report_race(Thread *t, uptr a, u32 sz, bool w, u32 pc, u64 o, u32 opc) {
    violation("data-race", "%s of %u bytes by T%u at pc=0x%x unordered with %s by T%u at pc=0x%x (%s memory)",
              w ? "write" : "read", sz, t->id, pc, (o >> 2 & 1) ? "write" : "read", (u32)(o >> 48), opc,
              a >= STACK0 && a < ARENA1 ? "stack" : a >= HEAP0 && a < STACK0 ? "heap" : "global");
}
static HOT void race1(Thread *t, uptr a, u64 *c, u32 *pcs, u32 off, u32 sz, bool w, bool at, u32 pc) {
    u64 mine = pack(t->id, t->clk, off, sz, w, at);
    int rep = -1;
    for (int i = 0; i < 4; i++) {
        u64 o = c[i];
        if (o == 0) {
            if (rep < 0) rep = i;
            continue;
        }
        if (o == mine) return;
        u32 ooff = o >> 6 & 7, osz = (o >> 3 & 7) + 1;
        u32 otid = o >> 48;
        if (ooff >= off + sz || off >= ooff + osz) continue;
        bool ow = o >> 2 & 1, oat = o >> 1 & 1;
        if (otid == t->id) {
            if (ooff == off && osz == sz && (w || !ow) && (!at || oat)) rep = i; // mine is at least as strong
            continue;
        }
        u32 oclk = (u32)(o >> 16);
        if (oclk <= t->vc[otid]) { // ordered before us
            if (w && !at && ooff >= off && ooff + osz <= off + sz) rep = i; // superseded
            continue;
        }
        if (!(w || ow) || (at && oat)) continue;
        report_race(t, a, sz, w, pc, o, pcs[i]);
    }
    if (rep < 0) rep = t->step & 3;
    c[rep] = mine;
    pcs[rep] = pc;
}
static __attribute__((noinline)) void bad_access(Thread *t, uptr a, u32 sz, bool w, u32 pc) {
    // find out what it hit
    const char *what = "outside any block";
    u64 bsz = 0;
    u32 apc = 0;
    u8 v = *(u8 *)(ASAN0 + ((a - HEAP0) >> 3));
    uptr p = a & ~15ull;
    for (int i = 0; i < 1 << 16 && p > HEAP0; i++, p -= 16) {
        Blk *b = (Blk *)(p - sizeof(Blk));
        if ((uptr)b < HEAP0) break;
        if (b->magic == MAGIC_LIVE || b->magic == MAGIC_FREE) {
            bsz = b->size;
            apc = b->pc;
            if (a < p + bsz)
                what = b->magic == MAGIC_FREE ? "inside a freed block" : "inside";
            else
                what = b->magic == MAGIC_FREE ? "past a freed block" : "past the end";
            violation(v == 0xFD ? "use-after-free" : "heap-overflow",
                      "%s of %u bytes by T%u at pc=0x%x: %lld bytes into a block of %llu bytes (%s) allocated at pc=0x%x",
                      w ? "write" : "read", sz, t->id, pc, (long long)(a - p), (unsigned long long)bsz, what, apc);
        }
    }
    violation(v == 0xFD ? "use-after-free" : "heap-overflow", "%s of %u bytes by T%u at pc=0x%x: %s", w ? "write" : "read", sz, t->id, pc, what);
}
static HOT void check_addr(Thread *t, uptr a, u32 sz, bool w, u32 pc) {
    // a in heap
    u8 v = *(u8 *)(ASAN0 + ((a - HEAP0) >> 3));
    u32 off = a & 7;
    if (UNLIKELY(v > 8 || off + (sz > 8 - off ? 8 - off : sz) > v)) bad_access(t, a, sz, w, pc);
}
static HOT void access1(Thread *t, uptr a, u32 sz, bool w, bool at, u32 pc) { // within one granule
    if (a - HEAP0 < ARENASZ) {
        if (a < STACK0) check_addr(t, a, sz, w, pc);
        uptr g = (a - HEAP0) >> 3;
        race1(t, a, (u64 *)(CELL0 + g * 32), (u32 *)(PC0 + g * 16), a & 7, sz, w, at, pc);
    } else if (a - glob_lo < glob_hi - glob_lo) {
        uptr g = (a - GLOB0) >> 3;
        race1(t, a, (u64 *)(GCELL0 + g * 32), (u32 *)(GPC0 + g * 16), a & 7, sz, w, at, pc);
    }
}
static HOT void access(uptr a, u32 sz, bool w, bool at, u32 pc) {
    Thread *t = cur;
    if (!t || t->off) return;
    step(t);
    u32 off = a & 7;
    if (LIKELY(off + sz <= 8)) {
        access1(t, a, sz, w, at, pc);
        return;
    }
    while (sz) {
        u32 n = 8 - (a & 7);
        if (n > sz) n = sz;
        access1(t, a, n, w, at, pc);
        a += n;
        sz -= n;
    }
}
static void access_range(uptr a, uptr n, bool w, u32 pc) {
    Thread *t = cur;
    if (!t || t->off || !n) return;
    step(t);
    if (n > (64u << 20)) n = 64u << 20;
    while (n) {
        u32 k = 8 - (a & 7);
        if (k > n) k = n;
        access1(t, a, k, w, false, pc);
        a += k;
        n -= k;
    }
}

// ------------------------------------------------------------------------------------ allocator
static void set_valid(uptr p, u64 n) {
    u8 *s = (u8 *)(ASAN0 + ((p - HEAP0) >> 3));
    memset(s, 8, n >> 3);
    if (n & 7) s[n >> 3] = n & 7;
}
static bool alloc_should_fail(Thread *t) {
    t->alloc_n++;
    G.gall_n++;
    if (t->alloc_at && (t->alloc_persist ? t->alloc_n >= t->alloc_at : t->alloc_n == t->alloc_at)) {
        t->alloc_fired++;
        G.faults[F_ALLOC]++;
        return true;
    }
    if (G.gall_at && (G.gall_persist ? G.gall_n >= G.gall_at : G.gall_n == G.gall_at)) {
        G.gall_fired++;
        G.faults[F_ALLOC]++;
        return true;
    }
    return false;
}
// Reused memory has no history: accesses of its former owner are ordered before those of the new one by the allocator.
static void forget_range(uptr p, u64 n) {
    uptr g = (p - HEAP0) >> 3;
    memset((void *)(CELL0 + g * 32), 0, (n >> 3) * 32);
    if (G.nsv)
        for (uptr a = p; a < p + n; a += 4)
            if (SyncVar *s = sv_find(a)) {
                s->owner = s->count = s->state = s->aux = 0;
                memset(s->vc, 0, sizeof(u32) * (G.nth + 1));
            }
}
static void *hand_out(Thread *t, uptr p, u64 n, bool array, u32 pc) {
    Blk *b = (Blk *)(p - sizeof(Blk));
    b->magic = MAGIC_LIVE;
    b->size = n;
    b->serial = ++G.serial;
    b->pc = pc;
    b->tid = t->id;
    b->flags = (t->off ? BF_OFF : 0) | (array ? BF_ARRAY : 0);
    memset((void *)p, 0xCB, n);
    set_valid(p, n);
    if (!t->off) {
        G.allocs++;
        G.live_blocks++;
        G.live_bytes += n;
    }
    return (void *)p;
}
// sizes that can take each other's place; sizes above 4096 are rounded to pages, above 1 MB to 256 kB
static u64 size_class(u64 n) { return n <= 4096 ? (n + 15) >> 4 : n <= 1 << 20 ? 257 + ((n - 1) >> 12) : n <= 64 << 20 ? 513 + ((n - 1) >> 18) : ~0ull; }
static u64 class_size(u64 c) { return c <= 256 ? (c ? c * 16 : 16) : c <= 512 ? (c - 256) << 12 : (c - 512) << 18; }
static void *arena_alloc(Thread *t, u64 n, u64 align, bool array, u32 pc) {
    if (!t->off) {
        step(t);
        if (alloc_should_fail(t)) return nullptr;
    }
    if (align < 16) align = 16;
    u64 cls = align == 16 ? size_class(n) : ~0ull;
    if (cls != ~0ull && G.free_list[cls] && (G.cfg.reuse || G.bump - HEAP0 > HEAPSZ / 4)) {
        uptr p = G.free_list[cls];
        memcpy(&G.free_list[cls], (void *)p, sizeof(uptr));
        forget_range(p, class_size(cls));
        return hand_out(t, p, n, array, pc);
    }
    uptr p = G.bump + sizeof(Blk) + 16;
    p = (p + align - 1) & ~(align - 1);
    if (n > MEM_LIMIT || G.used + n > MEM_LIMIT || p + n + 4096 + 64 > HEAP0 + HEAPSZ) {
        // too much asked for at once, or too much in use; otherwise it is the harness or the arena's own waste
        if (t->off || (n < MEM_LIMIT / 4 && G.live_bytes + n < MEM_LIMIT / 2)) invalid("the simulated memory is too small for this workload");
        G.faults[F_MEM_LIMIT]++;
        return nullptr;
    }
    u64 room = cls == ~0ull ? (n + 15) & ~15ull : class_size(size_class(n));
    G.bump = p + room + 16;
    G.used += room;
    hand_out(t, p, n, array, pc);
    if (cls == ~0ull) ((Blk *)(p - sizeof(Blk)))->flags |= BF_ALIGNED;
    return (void *)p;
}
static void arena_free(Thread *t, void *q, u32 pc) {
    uptr p = (uptr)q;
    Blk *b = (Blk *)(p - sizeof(Blk));
    if (p & 15 || p < HEAP0 + sizeof(Blk) || p >= HEAP0 + HEAPSZ || (b->magic != MAGIC_LIVE && b->magic != MAGIC_FREE))
        violation("invalid-free", "T%u frees a pointer that is not the start of a block at pc=0x%x", t ? t->id : 0, pc);
    if (b->magic == MAGIC_FREE)
        violation("double-free", "T%u frees a block of %llu bytes twice at pc=0x%x (allocated at pc=0x%x)", t ? t->id : 0,
                  (unsigned long long)b->size, pc, b->pc);
    if (t && !t->off && !(b->flags & BF_OFF)) access_range(p, b->size > 4096 ? 4096 : b->size, true, pc);
    b->magic = MAGIC_FREE;
    memset((void *)(ASAN0 + ((p - HEAP0) >> 3)), 0xFD, (b->size + 7) >> 3);
    memset(q, 0xDD, b->size);
    u64 cls = p >= G.bump_start && !(b->flags & BF_ALIGNED) ? size_class(b->size) : ~0ull;
    if (cls != ~0ull) {
        memcpy(q, &G.free_list[cls], sizeof(uptr));
        G.free_list[cls] = p;
    }
    if (!(b->flags & BF_OFF)) {
        G.live_blocks--;
        G.live_bytes -= b->size;
    }
}
void newest_live(char *out, size_t n, uint64_t since) {
    size_t k = 0;
    out[0] = 0;
    uptr p = G.bump_start;
    // blocks are laid out in order of serial; walk the headers (16-aligned scan)
    for (p = G.bump_start; p + sizeof(Blk) < G.bump && k + 80 < n; p += 16) {
        Blk *b = (Blk *)p;
        if (b->magic == MAGIC_LIVE && !(b->flags & BF_OFF) && b->serial > since)
            k += snprintf(out + k, n - k, " [%llu bytes by T%u at pc=0x%x]", (unsigned long long)b->size, b->tid, b->pc);
    }
}

// ------------------------------------------------------------------------------------ harness API
bool active() { return cur != nullptr; }
int self() { return cur ? (int)cur->id : 0; }
void log(uint64_t v) {
    hmix(G.hash, v + 0x51ull);
    G.events++;
}
enum : size_t { ISO_WORDS = 1 << 17 };
static u64 *iso_buf;
size_t isolated(size_t (*fn)(void *arg, uint64_t *out, size_t cap), void *arg, const uint64_t **out) {
    off_enter();
    if (!iso_buf) {
        iso_buf = (u64 *)mmap(nullptr, (ISO_WORDS + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (iso_buf == MAP_FAILED) raw_exit(2);
    }
    iso_buf[0] = ~0ull;
    pid_t pid = fork();
    if (pid < 0) raw_exit(2);
    if (pid == 0) {
        alarm(20);
        off_leave();
        G.cfg.strategy = S_NONE;
        G.cfg.replay = 0;
        G.cfg.spurious = G.cfg.clock_jump = 0;
        for (u32 i = 1; i <= G.nth; i++)
            if (&G.th[i] != cur) G.th[i].state = T_DONE;
        cur->np = cur->nf = 0;
        cur->next_preempt = ~0ull;
        cur->alloc_at = 0;
        compute_stop(cur);
        size_t n = fn(arg, iso_buf + 1, ISO_WORDS);
        iso_buf[0] = n;
        raw_exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    if (G.out->status != ST_NONE) raw_exit(0); // it reported a violation
    if (iso_buf[0] == ~0ull) {
        char m[100];
        snprintf(m, sizeof m, "a call that runs alone in a fresh process did not end (wait status %d)", st);
        violation_plain("hang", m);
    }
    off_leave();
    *out = iso_buf + 1;
    return iso_buf[0];
}
uint64_t event_seq() { return ++G.events; }
void probe(int id) {
    if (id >= 0 && id < MAX_PROBES) G.probes[id]++;
}
void fired(Fault f) { G.faults[f]++; }
void off_enter() {
    if (cur) cur->off++;
}
void off_leave() {
    if (cur) cur->off--;
}
void yield_point() {
    if (cur) sync_point(cur);
}
uint64_t now() { return now_ns(); }
void sleep_ns(uint64_t d) {
    if (!cur || !d) return;
    G.faults[F_STALL]++;
    u64 n = now_ns();
    block(cur, W_SLEEP, 0, true, n + d);
}
int other_threads() {
    int n = 0;
    for (u32 i = 1; i <= G.nth; i++)
        if (&G.th[i] != cur && G.th[i].state != T_DONE && G.th[i].state != T_UNUSED) n++;
    return n;
}
void quiesce() {
    while (other_threads()) block(cur, W_QUIESCE, 0, false, 0);
}
void alloc_fault(uint64_t at, bool persistent) {
    cur->alloc_at = at ? cur->alloc_n + at : 0;
    cur->alloc_persist = persistent;
    cur->alloc_fired = 0;
}
uint64_t alloc_fault_end() {
    cur->alloc_at = 0;
    u64 f = cur->alloc_fired;
    cur->alloc_fired = 0;
    return f;
}
uint64_t allocs_by_me() { return cur->alloc_n; }
void alloc_fault_all(uint64_t at, bool persistent) {
    G.gall_at = at ? G.gall_n + at : 0;
    G.gall_persist = persistent;
    G.gall_fired = 0;
}
uint64_t alloc_fault_all_end() {
    G.gall_at = 0;
    u64 f = G.gall_fired;
    G.gall_fired = 0;
    return f;
}
uint64_t allocs_by_all() { return G.gall_n; }
void live(uint64_t *b, uint64_t *n) {
    if (b) *b = G.live_blocks;
    if (n) *n = G.live_bytes;
}
uint64_t alloc_serial() { return G.serial; }
void thread_fault(uint64_t at, bool persistent) {
    G.thr_at = at ? G.thr_n + at : 0;
    G.thr_persist = persistent;
    G.thr_fired = 0;
}
uint64_t thread_fault_end() {
    G.thr_at = 0;
    u64 f = G.thr_fired;
    G.thr_fired = 0;
    return f;
}
void entropy(int mode, uint64_t val, uint64_t at) {
    G.ent_mode = mode;
    G.ent_val = val;
    G.ent_at = at ? G.ent_n + at : 0;
}
uint64_t entropy_draws() { return G.ent_n; }

// next 32 bits of simulated entropy; false: the source failed
static bool entropy_draw(u32 *v) {
    G.ent_n++;
    if (G.ent_mode == 2 && G.ent_at && G.ent_n >= G.ent_at) {
        G.faults[F_ENTROPY_FAIL]++;
        return false;
    }
    if (G.ent_mode == 1) {
        G.faults[F_ENTROPY_DUP]++;
        *v = (u32)G.ent_val;
        return true;
    }
    *v = (u32)mix(G.ent_rng + G.ent_n);
    return true;
}

// ------------------------------------------------------------------------------------ real functions
template <class T> static void real_sym(T &f, const char *name) {
    if (!f) f = (T)dlsym(RTLD_NEXT, name);
}
#define REAL(ret, name, ...)                                                                            \
    static ret (*real_##name)(__VA_ARGS__);                                                             \
    static inline void need_##name() { real_sym(real_##name, #name); }

REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
REAL(int, pthread_join, pthread_t, void **)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const struct timespec *)
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *)
REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *)
REAL(int, pthread_cond_signal, pthread_cond_t *)
REAL(int, pthread_cond_broadcast, pthread_cond_t *)
REAL(int, pthread_once, pthread_once_t *, void (*)(void))
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
REAL(int, sched_yield, void)
REAL(int, nanosleep, const struct timespec *, struct timespec *)
REAL(int, clock_nanosleep, clockid_t, int, const struct timespec *, struct timespec *)
REAL(int, usleep, useconds_t)
REAL(unsigned, sleep, unsigned)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(int, gettimeofday, struct timeval *, void *)
REAL(time_t, time, time_t *)
REAL(long, syscall, long, ...)
REAL(int, __cxa_guard_acquire, u64 *)
REAL(void, __cxa_guard_release, u64 *)
REAL(void, __cxa_guard_abort, u64 *)
REAL(int, __cxa_thread_atexit, void (*)(void *), void *, void *)
REAL(ssize_t, getrandom, void *, size_t, unsigned)
REAL(int, getentropy, void *, size_t)
REAL(long, sysconf, int)

// ------------------------------------------------------------------------------------ thread start/end
static void altstack() {
    // below the alternate stack of each thread: its own slice of plain memory
    size_t sz = 32 << 10;
    void *m = (void *)raw6(SYS_mmap, 0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = m;
    ss.ss_size = sz;
    sigaltstack(&ss, nullptr);
}
static Thread *new_thread(void *(*fn)(void *), void *arg) {
    Thread *t = &G.th[++G.nth];
    memset(t, 0, sizeof *t);
    t->id = G.nth;
    t->fn = fn;
    t->arg = arg;
    t->state = T_RUN;
    t->clk = 1;
    t->vc[t->id] = 1;
    t->prio = 1000000 + (u32)(mix(G.cfg.seed * 31 + t->id) % 1000000);
    t->next_preempt = ~0ull;
    if (G.cfg.replay) {
        // entries are sorted by (tid, kind, step)
        SchedEntry *e = G.entries;
        size_t n = G.entries ? (size_t)G.nentries : 0;
        for (size_t i = 0; i < n; i++) {
            if (e[i].tid != t->id) continue;
            if (e[i].kind == 0) {
                if (!t->plist) t->plist = &e[i];
                t->np++;
            } else {
                if (!t->flist) t->flist = &e[i];
                t->nf++;
            }
        }
    }
    return t;
}
static void *thread_main(void *p) {
    Thread *t = (Thread *)p;
    wait_go(t);
    altstack();
    cur = t;
    switched_in(t);
    t->ret = t->fn(t->arg);
    while (t->dtors) {
        TlsDtor *d = t->dtors;
        t->dtors = d->next;
        d->fn(d->obj);
        free(d);
    }
    sync_point(t);
    // finish
    t->clk++;
    t->vc[t->id] = t->clk;
    t->state = T_DONE;
    wake_all(W_JOIN, t->id);
    wake_all(W_QUIESCE, 0);
    void *r = t->ret;
    (void)r;
    pick_after_block(t);
    // The real thread must do nothing any more: its teardown would run beside the thread that has just been given the
    // turn. The process ends with the run, and this thread with it.
    static unsigned never;
    for (;;) raw6(SYS_futex, (uptr)&never, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
static int start_real(Thread *t, bool detached) {
    (void)detached;
    pthread_attr_t a;
    pthread_attr_init(&a);
    uptr base = STACK0 + (uptr)(t->id - 1) * STACKSZ;
    raw6(SYS_mprotect, base, 4096, PROT_NONE, 0, 0, 0);
    pthread_attr_setstack(&a, (void *)(base + 4096), STACKSZ - 4096);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    need_pthread_create();
    return real_pthread_create(&t->real, &a, thread_main, t);
}

// ------------------------------------------------------------------------------------ crash handling
static void on_signal(int sig, siginfo_t *si, void *uc) {
    (void)uc;
    const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT";
    char cls[32];
    snprintf(cls, sizeof cls, "crash-%s", n);
    uptr pc = 0;
#ifdef __x86_64__
    pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
#endif
    bool wild = sig == SIGSEGV || sig == SIGBUS;
    char m[200];
    snprintf(m, sizeof m, "%s in T%d%s pc=0x%llx", n, self(),
             wild ? ((uptr)si->si_addr < 65536 ? " (null page)" : (uptr)si->si_addr - STACK0 < STACKALL ? " (stack overflow)" : " (wild address)") : "",
             (unsigned long long)(pc < 0x10000000 ? pc : 0));
    violation_plain(cls, m);
}
static void on_terminate() {
    const char *what = "std::terminate called";
    if (__cxa_current_exception_type()) what = "std::terminate called with an uncaught exception";
    violation_plain("terminate", what);
}

// ------------------------------------------------------------------------------------ set-up
static void *map_fixed(uptr a, uptr n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)a) {
        fprintf(stderr, "sim: cannot map 0x%lx (%s)\n", (unsigned long)a, strerror(errno));
        _exit(2);
    }
    madvise(p, n, MADV_NOHUGEPAGE);
    return p;
}
void init_process() {
    map_fixed(HEAP0, ARENASZ);
    map_fixed(CELL0, (ARENASZ >> 3) * 32);
    map_fixed(PC0, (ARENASZ >> 3) * 16);
    map_fixed(GCELL0, (GLOBSZ >> 3) * 32);
    map_fixed(GPC0, (GLOBSZ >> 3) * 16);
    map_fixed(ASAN0, HEAPSZ >> 3);
    glob_lo = (uptr)&__data_start;
    glob_hi = (uptr)&_end;
    if (glob_hi > GLOB0 + GLOBSZ || glob_lo < GLOB0) {
        fprintf(stderr, "sim: executable image outside the expected range\n");
        _exit(2);
    }
    G.th = (Thread *)mmap(nullptr, sizeof(Thread) * (MAX_THREADS + 2), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    G.sv = (SyncVar *)mmap(nullptr, sizeof(SyncVar) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    need_pthread_create();
}
struct MainArg {
    void (*fn)(void *);
    void *arg;
};
static MainArg main_arg;
static void *sim_main(void *) {
    main_arg.fn(main_arg.arg);
    finish_ok();
}
void run_child(const Config &cfg, const SchedEntry *e, size_t n, Shared *out, void (*fn)(void *), void *arg) {
    Thread *th = G.th;
    SyncVar *sv = G.sv;
    memset(&G, 0, sizeof G);
    G.th = th;
    G.sv = sv;
    G.cfg = cfg;
    G.out = out;
    G.entries = const_cast<SchedEntry *>(e);
    G.nentries = n;
    G.rng = mix(cfg.seed ^ 0x5eedull);
    G.ent_rng = mix(cfg.seed ^ 0xe47ull);
    G.hash = G.shash = 0xcbf29ce484222325ull;
    G.bump = G.bump_start = HEAP0 + 4096;
    G.pct_low = 900000;
    G.realtime_off = 1700000000ull * 1000000000ull + mix(cfg.seed) % 1000000000ull;
    if (cfg.strategy == S_PCT && !cfg.replay) {
        u32 d = cfg.depth > 64 ? 64 : cfg.depth;
        for (u32 i = 0; i < d; i++) {
            u64 v = 1 + rnd() % (cfg.pct_len ? cfg.pct_len : 1);
            u32 j = i;
            while (j > 0 && G.pct_points[j - 1] > v) {
                G.pct_points[j] = G.pct_points[j - 1];
                j--;
            }
            G.pct_points[j] = v;
        }
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
    sigaction(SIGABRT, &sa, nullptr);
    std::set_terminate(on_terminate);
    main_arg.fn = fn;
    main_arg.arg = arg;
    G.on = true;
    Thread *t = new_thread(sim_main, nullptr);
    if (start_real(t, true)) raw_exit(4);
    t->go = 1;
    raw_futex_wake(&t->go);
    for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}

static u64 abs_ns(const struct timespec *ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }
static u64 clock_now(clockid_t c) {
    u64 n = now_ns() + 1000000000ull;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) n += G.realtime_off;
    return n;
}
static u64 deadline_of(clockid_t c, const struct timespec *ts) { // absolute time on clock c -> simulated ns
    u64 a = abs_ns(ts), n = clock_now(c);
    return now_ns() + (a > n ? a - n : 0);
}

// ------------------------------------------------------------------------------------ mutexes etc.
static bool mtx_recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool mtx_errorcheck(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP; }
static int mtx_lock(Thread *t, pthread_mutex_t *m, bool timed, u64 deadline, bool tryonly) {
    SyncVar *s = sv_get((uptr)m);
    for (;;) {
        if (s->owner == 0) {
            s->owner = t->id;
            s->count = 1;
            acquire(t, s);
            return 0;
        }
        if (s->owner == t->id) {
            if (mtx_recursive(m)) {
                s->count++;
                return 0;
            }
            if (mtx_errorcheck(m)) return EDEADLK;
        }
        if (tryonly) return EBUSY;
        block(t, W_MUTEX, (uptr)m, timed, deadline);
        if (timed && t->timed_out && s->owner) return ETIMEDOUT;
    }
}
static int mtx_unlock(Thread *t, pthread_mutex_t *m) {
    SyncVar *s = sv_get((uptr)m);
    if (s->owner != t->id) {
        if (mtx_errorcheck(m) || mtx_recursive(m)) return EPERM;
        violation("bad-unlock", "T%u unlocks a mutex it does not hold", t->id);
    }
    if (--s->count) return 0;
    release(t, s);
    s->owner = 0;
    wake_all(W_MUTEX, (uptr)m);
    return 0;
}
static int cond_wait(Thread *t, pthread_cond_t *c, pthread_mutex_t *m, bool timed, u64 deadline) {
    sync_point(t);
    SyncVar *s = sv_get((uptr)m);
    u32 cnt = s->count;
    s->count = 1;
    mtx_unlock(t, m);
    int r = 0;
    if (!spurious(t)) {
        block(t, W_COND, (uptr)c, timed, deadline);
        if (timed && t->timed_out && !t->notified) r = ETIMEDOUT;
    } else {
        sync_point(t);
    }
    acquire(t, sv_get((uptr)c));
    mtx_lock(t, m, false, 0, false);
    s->count = cnt;
    return r;
}
static int rw_lock(Thread *t, pthread_rwlock_t *l, bool w, bool tryonly, bool timed, u64 deadline) {
    SyncVar *s = sv_get((uptr)l);
    for (;;) {
        if (w ? (s->owner == 0 && s->count == 0) : s->owner == 0) {
            if (w)
                s->owner = t->id;
            else
                s->count++;
            acquire(t, s);
            return 0;
        }
        if (tryonly) return EBUSY;
        if (s->owner == t->id) return EDEADLK;
        block(t, W_RW, (uptr)l, timed, deadline);
        if (timed && t->timed_out) return ETIMEDOUT;
    }
}

} // namespace sim
using namespace sim;

#define PC ((u32)(uptr)__builtin_return_address(0))

extern "C" {

// ================================================================== instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                           \
    void __tsan_read##n(void *a) { access((uptr)a, n, false, false, PC); }                              \
    void __tsan_write##n(void *a) { access((uptr)a, n, true, false, PC); }                              \
    void __tsan_unaligned_read##n(void *a) { access((uptr)a, n, false, false, PC); }                    \
    void __tsan_unaligned_write##n(void *a) { access((uptr)a, n, true, false, PC); }                    \
    void __tsan_read_write##n(void *a) { access((uptr)a, n, true, false, PC); }                         \
    void __tsan_unaligned_read_write##n(void *a) { access((uptr)a, n, true, false, PC); }               \
    void __tsan_volatile_read##n(void *a) { access((uptr)a, n, false, false, PC); }                     \
    void __tsan_volatile_write##n(void *a) { access((uptr)a, n, true, false, PC); }                     \
    void __tsan_unaligned_volatile_read##n(void *a) { access((uptr)a, n, false, false, PC); }           \
    void __tsan_unaligned_volatile_write##n(void *a) { access((uptr)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access_range((uptr)a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access_range((uptr)a, n, true, PC); }
void __tsan_vptr_update(void **a, void *v) {
    if (*a != v) access((uptr)a, 8, true, false, PC);
}
void __tsan_vptr_read(void **a) { access((uptr)a, 8, false, false, PC); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
    u32 pc = PC;
    access_range((uptr)s, n, false, pc);
    access_range((uptr)d, n, true, pc);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
    u32 pc = PC;
    access_range((uptr)s, n, false, pc);
    access_range((uptr)d, n, true, pc);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n) {
    access_range((uptr)d, n, true, PC);
    return memset(d, c, n);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

// ------------------------------------------------------------------ atomics
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void at_before(Thread *t, uptr a, u32 sz, bool w, u32 pc) {
    ++t->step;
    if (t->step >= t->stop)
        slow_step(t, true);
    else if (!G.cfg.replay && (G.cfg.strategy == S_SYNC || G.cfg.strategy == S_RANDOM || G.cfg.strategy == S_BURST || G.cfg.strategy == S_PCT))
        slow_step(t, true);
    access1(t, a, sz, w, true, pc);
}
static void at_load_hb(Thread *t, uptr a, int mo) {
    SyncVar *s = sv_find(a);
    if (!s) return;
    if (is_acq(mo))
        acquire(t, s);
    else {
        vc_join(t->pend, s->vc);
        t->has_pend = true;
    }
}
static void at_store_hb(Thread *t, uptr a, int mo, bool rmw) {
    SyncVar *s;
    if (is_rel(mo)) {
        s = sv_get(a);
        if (!rmw) memset(s->vc, 0, sizeof(u32) * (G.nth + 1));
        release(t, s);
    } else {
        if (t->has_relf) {
            s = sv_get(a);
            if (!rmw) memset(s->vc, 0, sizeof(u32) * (G.nth + 1));
            vc_join(s->vc, t->relf);
        } else if (!rmw) {
            s = sv_find(a);
            if (s) memset(s->vc, 0, sizeof(u32) * (G.nth + 1)); // a relaxed store ends the release sequence
        }
    }
}
#define LIVE Thread *t = cur; const bool on = t && !t->off
#define ATOMICS(N, T)                                                                                    \
    T __tsan_atomic##N##_load(const volatile T *a, int mo) {                                            \
        LIVE;                                                                                           \
        if (on) at_before(t, (uptr)a, N / 8, false, PC);                                                \
        T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                     \
        if (on) at_load_hb(t, (uptr)a, mo);                                                             \
        return v;                                                                                       \
    }                                                                                                   \
    void __tsan_atomic##N##_store(volatile T *a, T v, int mo) {                                         \
        LIVE;                                                                                           \
        if (on) {                                                                                       \
            at_before(t, (uptr)a, N / 8, true, PC);                                                     \
            at_store_hb(t, (uptr)a, mo, false);                                                         \
        }                                                                                               \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                       \
    }                                                                                                   \
    RMW(N, T, exchange, __atomic_exchange_n)                                                            \
    RMW(N, T, fetch_add, __atomic_fetch_add)                                                            \
    RMW(N, T, fetch_sub, __atomic_fetch_sub)                                                            \
    RMW(N, T, fetch_and, __atomic_fetch_and)                                                            \
    RMW(N, T, fetch_or, __atomic_fetch_or)                                                              \
    RMW(N, T, fetch_xor, __atomic_fetch_xor)                                                            \
    RMW(N, T, fetch_nand, __atomic_fetch_nand)                                                          \
    CAS(N, T, strong) CAS(N, T, weak)                                                                   \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T d, int mo, int fmo) {               \
        __tsan_atomic##N##_compare_exchange_strong(a, &e, d, mo, fmo);                                  \
        return e;                                                                                       \
    }
#define RMW(N, T, NAME, OP)                                                                              \
    T __tsan_atomic##N##_##NAME(volatile T *a, T v, int mo) {                                           \
        LIVE;                                                                                           \
        if (on) {                                                                                       \
            at_before(t, (uptr)a, N / 8, true, PC);                                                     \
            at_load_hb(t, (uptr)a, mo);                                                                 \
            at_store_hb(t, (uptr)a, mo, true);                                                          \
        }                                                                                               \
        return OP(a, v, __ATOMIC_SEQ_CST);                                                              \
    }
#define CAS(N, T, KIND)                                                                                  \
    int __tsan_atomic##N##_compare_exchange_##KIND(volatile T *a, T *e, T d, int mo, int fmo) {         \
        LIVE;                                                                                           \
        if (on) at_before(t, (uptr)a, N / 8, true, PC);                                                 \
        bool ok = __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);      \
        if (on) {                                                                                       \
            at_load_hb(t, (uptr)a, ok ? mo : fmo);                                                      \
            if (ok) at_store_hb(t, (uptr)a, mo, true);                                                  \
        }                                                                                               \
        return ok;                                                                                      \
    }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    LIVE;
    if (!on) return;
    sync_point(t);
    if (is_acq(mo) && t->has_pend) vc_join(t->vc, t->pend);
    if (is_rel(mo)) {
        memcpy(t->relf, t->vc, sizeof t->vc);
        t->has_relf = true;
        t->clk++;
        t->vc[t->id] = t->clk;
    }
}
void __tsan_atomic_signal_fence(int) {}

// ================================================================== threads
int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    Thread *t = cur;
    if (!t) {
        need_pthread_create();
        return real_pthread_create(out, attr, fn, arg);
    }
    sync_point(t);
    if (!t->off) {
        G.thr_n++;
        if (G.thr_at && (G.thr_persist ? G.thr_n >= G.thr_at : G.thr_n == G.thr_at)) {
            G.thr_fired++;
            G.faults[F_THREAD_CREATE]++;
            return EAGAIN;
        }
    }
    if (G.nth >= MAX_THREADS) return EAGAIN;
    Thread *n = new_thread(fn, arg);
    vc_join(n->vc, t->vc);
    t->clk++;
    t->vc[t->id] = t->clk;
    int det = PTHREAD_CREATE_JOINABLE;
    if (attr) pthread_attr_getdetachstate(attr, &det);
    n->detached = det == PTHREAD_CREATE_DETACHED;
    int r = start_real(n, true);
    if (r) {
        n->state = T_DONE;
        invalid("the system cannot start a thread");
    }
    *out = n->real;
    sync_point(t);
    return 0;
}
static Thread *by_real(pthread_t p) {
    for (u32 i = 1; i <= G.nth; i++)
        if (G.th[i].real == p) return &G.th[i];
    return nullptr;
}
int pthread_join(pthread_t p, void **ret) {
    Thread *t = cur;
    if (!t) {
        need_pthread_join();
        return real_pthread_join(p, ret);
    }
    sync_point(t);
    Thread *o = by_real(p);
    if (!o || o->detached || o->joined) return EINVAL;
    if (o == t) return EDEADLK;
    while (o->state != T_DONE) block(t, W_JOIN, o->id, false, 0);
    o->joined = true;
    vc_join(t->vc, o->vc);
    if (ret) *ret = o->ret;
    return 0;
}
int pthread_detach(pthread_t p) {
    Thread *t = cur;
    if (!t) {
        need_pthread_detach();
        return real_pthread_detach(p);
    }
    sync_point(t);
    Thread *o = by_real(p);
    if (!o) return ESRCH;
    o->detached = true;
    return 0;
}
int sched_yield(void) {
    Thread *t = cur;
    if (!t) {
        need_sched_yield();
        return real_sched_yield();
    }
    if (t->off) return 0;
    // a yield always lets somebody else run, if there is somebody
    ++t->step;
    G.steps += t->step - t->acct;
    t->acct = t->step;
    check_caps();
    expired_wake();
    if (G.pct_low > 1) t->prio = --G.pct_low;
    if (default_next(t))
        pick_after_block(t);
    else if (G.cfg.ns_per_step == 0) {
        // only sleepers left: let time pass so that a spin on a yield ends
        u64 best = ~0ull;
        for (u32 i = 1; i <= G.nth; i++)
            if (G.th[i].state == T_BLOCK && G.th[i].timed && G.th[i].deadline < best) best = G.th[i].deadline;
        if (best != ~0ull && best > now_ns()) G.now_base += best - now_ns();
        expired_wake();
        if (default_next(t)) pick_after_block(t);
    }
    compute_stop(t);
    return 0;
}

// ================================================================== mutex / cond / rwlock / once / ...
int pthread_mutex_lock(pthread_mutex_t *m) {
    Thread *t = cur;
    if (!t) {
        need_pthread_mutex_lock();
        return real_pthread_mutex_lock(m);
    }
    sync_point(t);
    return mtx_lock(t, m, false, 0, false);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    Thread *t = cur;
    if (!t) {
        need_pthread_mutex_trylock();
        return real_pthread_mutex_trylock(m);
    }
    sync_point(t);
    return mtx_lock(t, m, false, 0, true);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    Thread *t = cur;
    if (!t) {
        need_pthread_mutex_timedlock();
        return real_pthread_mutex_timedlock(m, ts);
    }
    sync_point(t);
    return mtx_lock(t, m, true, deadline_of(CLOCK_REALTIME, ts), false);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) {
    Thread *t = cur;
    if (!t) return pthread_mutex_lock(m);
    sync_point(t);
    return mtx_lock(t, m, true, deadline_of(c, ts), false);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    Thread *t = cur;
    if (!t) {
        need_pthread_mutex_unlock();
        return real_pthread_mutex_unlock(m);
    }
    sync_point(t);
    int r = mtx_unlock(t, m);
    sync_point(t);
    return r;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    Thread *t = cur;
    if (!t) {
        need_pthread_cond_wait();
        return real_pthread_cond_wait(c, m);
    }
    return cond_wait(t, c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    Thread *t = cur;
    if (!t) {
        need_pthread_cond_timedwait();
        return real_pthread_cond_timedwait(c, m, ts);
    }
    return cond_wait(t, c, m, true, deadline_of(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    Thread *t = cur;
    if (!t) return pthread_cond_timedwait(c, m, ts);
    return cond_wait(t, c, m, true, deadline_of(k, ts));
}
int pthread_cond_signal(pthread_cond_t *c) {
    Thread *t = cur;
    if (!t) {
        need_pthread_cond_signal();
        return real_pthread_cond_signal(c);
    }
    sync_point(t);
    release(t, sv_get((uptr)c));
    wake_one(W_COND, (uptr)c);
    sync_point(t);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    Thread *t = cur;
    if (!t) {
        need_pthread_cond_broadcast();
        return real_pthread_cond_broadcast(c);
    }
    sync_point(t);
    release(t, sv_get((uptr)c));
    wake_all(W_COND, (uptr)c);
    sync_point(t);
    return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    Thread *t = cur;
    if (!t) {
        need_pthread_once();
        return real_pthread_once(o, fn);
    }
    sync_point(t);
    SyncVar *s = sv_get((uptr)o);
    for (;;) {
        if (__atomic_load_n((int *)o, __ATOMIC_ACQUIRE) == 2) {
            acquire(t, s);
            return 0;
        }
        if (s->owner == 0) break;
        block(t, W_ONCE, (uptr)o, false, 0);
    }
    s->owner = t->id;
    acquire(t, s);
    try {
        fn();
    } catch (...) {
        s->owner = 0;
        release(t, s);
        wake_all(W_ONCE, (uptr)o);
        throw;
    }
    __atomic_store_n((int *)o, 2, __ATOMIC_RELEASE);
    s->owner = 0;
    release(t, s);
    wake_all(W_ONCE, (uptr)o);
    sync_point(t);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    Thread *t = cur;
    if (!t) {
        need_pthread_rwlock_rdlock();
        return real_pthread_rwlock_rdlock(l);
    }
    sync_point(t);
    return rw_lock(t, l, false, false, false, 0);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    Thread *t = cur;
    if (!t) {
        need_pthread_rwlock_wrlock();
        return real_pthread_rwlock_wrlock(l);
    }
    sync_point(t);
    return rw_lock(t, l, true, false, false, 0);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
    Thread *t = cur;
    if (!t) {
        need_pthread_rwlock_tryrdlock();
        return real_pthread_rwlock_tryrdlock(l);
    }
    sync_point(t);
    return rw_lock(t, l, false, true, false, 0);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
    Thread *t = cur;
    if (!t) {
        need_pthread_rwlock_trywrlock();
        return real_pthread_rwlock_trywrlock(l);
    }
    sync_point(t);
    return rw_lock(t, l, true, true, false, 0);
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t *l, clockid_t c, const struct timespec *ts) {
    Thread *t = cur;
    if (!t) return pthread_rwlock_rdlock(l);
    sync_point(t);
    return rw_lock(t, l, false, false, true, deadline_of(c, ts));
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t *l, clockid_t c, const struct timespec *ts) {
    Thread *t = cur;
    if (!t) return pthread_rwlock_wrlock(l);
    sync_point(t);
    return rw_lock(t, l, true, false, true, deadline_of(c, ts));
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t *l, const struct timespec *ts) { return pthread_rwlock_clockrdlock(l, CLOCK_REALTIME, ts); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *l, const struct timespec *ts) { return pthread_rwlock_clockwrlock(l, CLOCK_REALTIME, ts); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    Thread *t = cur;
    if (!t) {
        need_pthread_rwlock_unlock();
        return real_pthread_rwlock_unlock(l);
    }
    sync_point(t);
    SyncVar *s = sv_get((uptr)l);
    release(t, s);
    if (s->owner == t->id)
        s->owner = 0;
    else if (s->count)
        s->count--;
    else
        violation("bad-unlock", "T%u unlocks a read-write lock that is not held", t->id);
    wake_all(W_RW, (uptr)l);
    sync_point(t);
    return 0;
}
// spin locks: state in the sync variable
int pthread_spin_init(pthread_spinlock_t *l, int) {
    *(volatile int *)l = 0;
    return 0;
}
int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) {
    Thread *t = cur;
    if (!t) {
        while (__atomic_exchange_n((int *)l, 1, __ATOMIC_ACQUIRE)) {
        }
        return 0;
    }
    sync_point(t);
    SyncVar *s = sv_get((uptr)l);
    while (s->owner) block(t, W_SPIN, (uptr)l, false, 0);
    s->owner = t->id;
    acquire(t, s);
    return 0;
}
int pthread_spin_trylock(pthread_spinlock_t *l) {
    Thread *t = cur;
    if (!t) return __atomic_exchange_n((int *)l, 1, __ATOMIC_ACQUIRE) ? EBUSY : 0;
    sync_point(t);
    SyncVar *s = sv_get((uptr)l);
    if (s->owner) return EBUSY;
    s->owner = t->id;
    acquire(t, s);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *l) {
    Thread *t = cur;
    if (!t) {
        __atomic_store_n((int *)l, 0, __ATOMIC_RELEASE);
        return 0;
    }
    sync_point(t);
    SyncVar *s = sv_get((uptr)l);
    release(t, s);
    s->owner = 0;
    wake_all(W_SPIN, (uptr)l);
    sync_point(t);
    return 0;
}
// semaphores: value kept in the sem_t itself (first word), so that sem_init needs no interposition
int sem_wait(sem_t *sm) {
    Thread *t = cur;
    if (!t) return 0;
    sync_point(t);
    SyncVar *s = sv_get((uptr)sm);
    while (*(volatile int *)sm <= 0) {
        block(t, W_SEM, (uptr)sm, false, 0);
    }
    *(volatile int *)sm = *(volatile int *)sm - 1;
    acquire(t, s);
    return 0;
}
int sem_trywait(sem_t *sm) {
    Thread *t = cur;
    if (!t) return 0;
    sync_point(t);
    if (*(volatile int *)sm <= 0) {
        errno = EAGAIN;
        return -1;
    }
    *(volatile int *)sm = *(volatile int *)sm - 1;
    acquire(t, sv_get((uptr)sm));
    return 0;
}
int sem_clockwait(sem_t *sm, clockid_t c, const struct timespec *ts) {
    Thread *t = cur;
    if (!t) return 0;
    sync_point(t);
    u64 d = deadline_of(c, ts);
    while (*(volatile int *)sm <= 0) {
        block(t, W_SEM, (uptr)sm, true, d);
        if (t->timed_out && *(volatile int *)sm <= 0) {
            errno = ETIMEDOUT;
            return -1;
        }
    }
    *(volatile int *)sm = *(volatile int *)sm - 1;
    acquire(t, sv_get((uptr)sm));
    return 0;
}
int sem_timedwait(sem_t *sm, const struct timespec *ts) { return sem_clockwait(sm, CLOCK_REALTIME, ts); }
int sem_post(sem_t *sm) {
    Thread *t = cur;
    if (!t) return 0;
    sync_point(t);
    release(t, sv_get((uptr)sm));
    *(volatile int *)sm = *(volatile int *)sm + 1;
    wake_one(W_SEM, (uptr)sm);
    sync_point(t);
    return 0;
}
// barriers
int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *, unsigned n) {
    memset(b, 0, sizeof *b);
    ((volatile unsigned *)b)[0] = n;
    return 0;
}
int pthread_barrier_destroy(pthread_barrier_t *) { return 0; }
int pthread_barrier_wait(pthread_barrier_t *b) {
    Thread *t = cur;
    if (!t) return 0;
    sync_point(t);
    volatile unsigned *w = (volatile unsigned *)b; // 0 total, 1 arrived, 2 generation
    SyncVar *s = sv_get((uptr)b);
    release(t, s);
    unsigned gen = w[2];
    w[1] = w[1] + 1;
    if (w[1] == w[0]) {
        w[1] = 0;
        w[2] = w[2] + 1;
        acquire(t, s);
        wake_all(W_BARRIER, (uptr)b);
        sync_point(t);
        return PTHREAD_BARRIER_SERIAL_THREAD;
    }
    while (w[2] == gen) block(t, W_BARRIER, (uptr)b, false, 0);
    acquire(t, s);
    return 0;
}

// ================================================================== futex
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    Thread *t = cur;
    if (t && n == SYS_futex) {
        int op = (int)b & FUTEX_CMD_MASK;
        u32 *u = (u32 *)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_point(t);
            if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != (u32)c) {
                errno = EAGAIN;
                return -1;
            }
            if (spurious(t)) {
                sync_point(t);
                errno = EINTR;
                return -1;
            }
            bool timed = d != 0;
            u64 dl = 0;
            if (timed) {
                const struct timespec *ts = (const struct timespec *)d;
                if (op == FUTEX_WAIT)
                    dl = now_ns() + abs_ns(ts);
                else
                    dl = deadline_of(((int)b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
            }
            block(t, W_FUTEX, (uptr)u, timed, dl);
            if (timed && t->timed_out && !t->notified) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sync_point(t);
            int k = 0;
            for (int i = 0; i < (int)c; i++) {
                if (!wake_one(W_FUTEX, (uptr)u)) break;
                k++;
            }
            sync_point(t);
            return k;
        }
    }
    if (t && n == SYS_getrandom) {
        for (long i = 0; i < b; i++) {
            u32 v;
            if (!entropy_draw(&v)) {
                errno = EIO;
                return -1;
            }
            ((u8 *)a)[i] = (u8)v;
        }
        return b;
    }
    long r = raw6(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// ================================================================== static initialisation, thread exit
int __cxa_guard_acquire(u64 *g) {
    Thread *t = cur;
    if (!t) {
        need___cxa_guard_acquire();
        return real___cxa_guard_acquire(g);
    }
    sync_point(t);
    SyncVar *s = sv_get((uptr)g);
    for (;;) {
        if (__atomic_load_n((u8 *)g, __ATOMIC_ACQUIRE)) {
            acquire(t, s);
            return 0;
        }
        if (s->owner == 0) break;
        block(t, W_GUARD, (uptr)g, false, 0);
    }
    s->owner = t->id;
    acquire(t, s);
    return 1;
}
void __cxa_guard_release(u64 *g) {
    Thread *t = cur;
    if (!t) {
        need___cxa_guard_release();
        return real___cxa_guard_release(g);
    }
    SyncVar *s = sv_get((uptr)g);
    __atomic_store_n((u8 *)g, 1, __ATOMIC_RELEASE);
    s->owner = 0;
    release(t, s);
    wake_all(W_GUARD, (uptr)g);
    sync_point(t);
}
void __cxa_guard_abort(u64 *g) {
    Thread *t = cur;
    if (!t) {
        need___cxa_guard_abort();
        return real___cxa_guard_abort(g);
    }
    SyncVar *s = sv_get((uptr)g);
    s->owner = 0;
    release(t, s);
    wake_all(W_GUARD, (uptr)g);
    sync_point(t);
}
int __cxa_thread_atexit(void (*fn)(void *), void *obj, void *dso) {
    Thread *t = cur;
    if (!t) {
        need___cxa_thread_atexit();
        return real___cxa_thread_atexit(fn, obj, dso);
    }
    TlsDtor *d = (TlsDtor *)malloc(sizeof *d);
    d->fn = fn;
    d->obj = obj;
    d->next = t->dtors;
    t->dtors = d;
    return 0;
}

// ================================================================== time
int clock_gettime(clockid_t c, struct timespec *ts) {
    Thread *t = cur;
    if (!t) {
        long r = raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
        if (r < 0) {
            errno = (int)-r;
            return -1;
        }
        return 0;
    }
    if (!t->off) {
        step(t);
        G.now_base += 100; // reading a clock takes time: loops polling it end
        if (G.cfg.clock_jump && mix(G.cfg.seed * 3 + ++G.clock_reads) % (4 * G.cfg.clock_jump) == 0) { // nobody ran for a while
            static const u64 pause[] = {1000000, 20000000, 1000000000, 10000000000, 600000000000, 7200000000000, 86400000000000, 40 * 86400000000000ull};
            G.now_base += pause[mix(G.cfg.seed * 5 + G.clock_reads) % 8];
            G.faults[F_STALL]++;
        }
        t->stop = t->step + 1; // deadlines may have passed
        if (G.cfg.clock_jump && (c == CLOCK_REALTIME) && mix(G.cfg.seed + ++G.clock_reads) % G.cfg.clock_jump == 0) {
            G.faults[F_CLOCK_JUMP]++;
            G.realtime_off += (mix(G.cfg.seed * 7 + G.clock_reads) & 1) ? 3600ull * 1000000000ull : -3600ull * 1000000000ull;
        }
    }
    u64 v = clock_now(c);
    ts->tv_sec = v / 1000000000ull;
    ts->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *p) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (p) *p = ts.tv_sec;
    return ts.tv_sec;
}
clock_t clock(void) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
int nanosleep(const struct timespec *d, struct timespec *rem) {
    if (!cur) return (int)syscall(SYS_nanosleep, d, rem);
    sync_point(cur);
    G.faults[F_STALL]++;
    u64 n = abs_ns(d);
    block(cur, W_SLEEP, 0, true, now_ns() + (n ? n : 1));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *d, struct timespec *rem) {
    if (!cur) {
        long r = raw6(SYS_clock_nanosleep, c, flags, (long)d, (long)rem, 0, 0);
        return (int)-r;
    }
    sync_point(cur);
    G.faults[F_STALL]++;
    u64 dl = (flags & TIMER_ABSTIME) ? deadline_of(c, d) : now_ns() + abs_ns(d);
    block(cur, W_SLEEP, 0, true, dl ? dl : 1);
    return 0;
}
int usleep(useconds_t us) {
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
unsigned sleep(unsigned s) {
    struct timespec ts = {(time_t)s, 0};
    nanosleep(&ts, nullptr);
    return 0;
}

// ================================================================== entropy, processors
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    if (!cur) return syscall(SYS_getrandom, p, n, flags);
    return syscall(SYS_getrandom, p, n, flags);
}
int getentropy(void *p, size_t n) { return syscall(SYS_getrandom, p, n, 0) == (long)n ? 0 : -1; }
int get_nprocs(void) { return cur ? (int)G.cfg.cores : 8; }
long sysconf(int name) {
    if (cur && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return G.cfg.cores;
    need_sysconf();
    return real_sysconf(name);
}
} // extern "C"

// std::thread::hardware_concurrency, std::random_device
unsigned sim_hwc() __asm__("_ZNSt6thread20hardware_concurrencyEv");
unsigned sim_hwc() { return cur ? G.cfg.cores : 8; }

struct FakeRandomDevice;
void sim_rd_init(FakeRandomDevice *, const void *) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void sim_rd_init(FakeRandomDevice *, const void *) {}
void sim_rd_init_old(FakeRandomDevice *, const void *) __asm__("_ZNSt13random_device7_M_initERKSs");
void sim_rd_init_old(FakeRandomDevice *, const void *) {}
void sim_rd_initp(FakeRandomDevice *, const void *) __asm__("_ZNSt13random_device14_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void sim_rd_initp(FakeRandomDevice *, const void *) {}
void sim_rd_fini(FakeRandomDevice *) __asm__("_ZNSt13random_device7_M_finiEv");
void sim_rd_fini(FakeRandomDevice *) {}
unsigned sim_rd_get(FakeRandomDevice *) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned sim_rd_getp(FakeRandomDevice *) __asm__("_ZNSt13random_device16_M_getval_pretr1Ev");
unsigned sim_rd_get(FakeRandomDevice *) {
    u32 v;
    if (!cur) return 4;
    step(cur);
    if (!entropy_draw(&v)) std::__throw_runtime_error("random_device could not be read: simulated failure");
    return v;
}
unsigned sim_rd_getp(FakeRandomDevice *d) { return sim_rd_get(d); }
double sim_rd_entropy(const FakeRandomDevice *) __asm__("_ZNKSt13random_device13_M_getentropyEv");
double sim_rd_entropy(const FakeRandomDevice *) { return 32.0; }

// ================================================================== exceptions: happens-before only
// Reference counts of exception objects are maintained inside libstdc++ (not instrumented); treat every
// entry into the exception machinery as synchronising, so that their release never looks like a race.
void sim_ep_addref(void **self) __asm__("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
void sim_ep_release(void **self) __asm__("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
static void (*real_ep_addref)(void **);
static void (*real_ep_release)(void **);
void sim_ep_addref(void **self) {
    if (cur && !cur->off) hb_exc(cur);
    real_sym(real_ep_addref, "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv");
    real_ep_addref(self);
}
void sim_ep_release(void **self) {
    if (cur && !cur->off) hb_exc(cur);
    real_sym(real_ep_release, "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv");
    real_ep_release(self);
}
extern "C" {
static void *(*real_begin_catch)(void *);
static void (*real_end_catch)();
void *__cxa_begin_catch(void *p) noexcept {
    if (cur && !cur->off) hb_exc(cur);
    real_sym(real_begin_catch, "__cxa_begin_catch");
    return real_begin_catch(p);
}
void __cxa_end_catch() {
    if (cur && !cur->off) hb_exc(cur);
    real_sym(real_end_catch, "__cxa_end_catch");
    real_end_catch();
}
}

// ================================================================== operator new / delete
static void *sim_new(size_t n, size_t align, bool array, u32 pc) {
    Thread *t = cur;
    if (t) return arena_alloc(t, n, align, array, pc);
    if (align > 16) return aligned_alloc(align, (n + align - 1) & ~(align - 1));
    return malloc(n ? n : 1);
}
static void sim_delete(void *p, u32 pc) {
    if (!p) return;
    if ((uptr)p - HEAP0 < ARENASZ) {
        if (G.on) arena_free(cur, p, pc);
        return;
    }
    free(p);
}
static void *must(void *p) {
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(size_t n) { return must(sim_new(n, 0, false, PC)); }
void *operator new[](size_t n) { return must(sim_new(n, 0, true, PC)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 0, false, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n, 0, true, PC); }
void *operator new(size_t n, std::align_val_t a) { return must(sim_new(n, (size_t)a, false, PC)); }
void *operator new[](size_t n, std::align_val_t a) { return must(sim_new(n, (size_t)a, true, PC)); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return sim_new(n, (size_t)a, false, PC); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return sim_new(n, (size_t)a, true, PC); }
void operator delete(void *p) noexcept { sim_delete(p, PC); }
void operator delete[](void *p) noexcept { sim_delete(p, PC); }
void operator delete(void *p, size_t) noexcept { sim_delete(p, PC); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { sim_delete(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_delete(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_delete(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_delete(p, PC); }
void operator delete(void *p, std::align_val_t, const std::nothrow_t &) noexcept { sim_delete(p, PC); }
void operator delete[](void *p, std::align_val_t, const std::nothrow_t &) noexcept { sim_delete(p, PC); }
