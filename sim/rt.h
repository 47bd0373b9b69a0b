// Simulator runtime, C-style interface (no templates: rt.cpp is compiled without instrumentation and
// must not emit inline library functions that the instrumented objects also emit).
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>

namespace sim {

enum { MAX_THREADS = 600, MAX_SCHED = 1 << 18, MAX_PROBES = 64, MAX_FAULTS = 24 };

// ---- kinds of injected faults (counted when they fire) ------------------------------------------
enum Fault {
    F_PREEMPT,       // a running thread was descheduled at a memory access or synchronisation point
    F_ALLOC,         // an allocation failed
    F_THREAD_CREATE, // starting a thread failed (EAGAIN)
    F_SPURIOUS,      // a wait returned without having been notified
    F_STALL,         // a thread stalled (simulated time)
    F_CLOCK_JUMP,    // the realtime clock jumped
    F_ENTROPY_FAIL,  // the entropy source failed
    F_ENTROPY_DUP,   // the entropy source gave the same value again
    F_CALLBACK,      // a callback / job / stage threw
    F_BAD_RESULT,    // a job returned a badly sized result
    F_STREAM,        // a stream refused characters
    F_STREAM_THROW,  // a stream buffer threw
    F_REENTRY,       // a callback re-entered the library
    F_BAD_ARG,       // an unacceptable argument was passed
    F_MEM_LIMIT,     // the simulated memory was exhausted
    F_STARVE,        // a thread was kept off the processor for the whole fairness quantum
    F_NKINDS
};
extern const char *const fault_names[F_NKINDS];

struct SchedEntry {
    uint32_t tid;
    uint32_t kind; // 0 preemption, 1 choice at a blocking point
    uint64_t step; // thread-local step
    uint32_t target;
    uint32_t pad;
};

enum Strategy { S_NONE = 0, S_RANDOM = 1, S_SYNC = 2, S_PCT = 3, S_BURST = 4, S_NSTRAT };

struct Config {
    uint64_t seed = 1;       // decides everything below that is not in the plan
    uint32_t strategy = 0;   // Strategy
    uint32_t interval = 100; // mean steps between preemptions (S_RANDOM, S_BURST)
    uint32_t sync_pct = 25;  // % chance of a switch at a synchronisation point
    uint32_t depth = 3;      // S_PCT priority change points
    uint32_t pct_len = 20000;
    uint32_t spurious = 0;   // 1 in n waits wakes spuriously (0: never)
    uint32_t lifo = 0;       // condition variables wake the newest waiter first
    uint32_t ns_per_step = 0;
    uint32_t clock_jump = 0; // realtime clock jumps (1 in n reads)
    uint32_t cores = 8;      // hardware_concurrency
    uint64_t step_cap = 40000000;
    uint32_t quantum = 50000;
    uint32_t reuse = 0;   // freed memory is given out again at once
    uint32_t replay = 0; // schedule comes from the entries only
};

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INVALID = 3 };

struct Shared { // result of one run, written by the forked process
    volatile uint32_t status;
    char cls[96];
    char msg[3000];
    uint64_t hash;       // all switches, all harness events
    uint64_t sched_hash; // the switches alone
    uint64_t steps, switches, preemptions, threads, allocs, simtime, accesses;
    uint64_t faults[F_NKINDS];
    uint64_t probes[MAX_PROBES];
    uint64_t nsched;
    SchedEntry sched[MAX_SCHED];
};

// ---- driver side --------------------------------------------------------------------------------
void init_process();                                  // once, in the zygote
[[noreturn]] void run_child(const Config &, const SchedEntry *, size_t n, Shared *, void (*fn)(void *), void *arg);

// ---- harness side (inside a run) ----------------------------------------------------------------
bool active();
int self();
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void violation_plain(const char *cls, const char *msg);
[[noreturn]] void finish_ok();
void log(uint64_t);                 // part of the event hash
void probe(int id);
void fired(Fault f);
void off_enter();
void off_leave();
void yield_point();                 // explicit possible switch
uint64_t now();                     // simulated ns
void sleep_ns(uint64_t);
uint64_t event_seq();               // global event sequence number
void quiesce();                     // wait until every other thread has finished
int other_threads();                // threads not finished, other than the caller

// allocation faults of the calling thread; at==0: none.  persistent: every allocation from the at-th on
void alloc_fault(uint64_t at, bool persistent);
uint64_t alloc_fault_end();         // disarms, returns how often it fired
uint64_t allocs_by_me();            // allocations of the calling thread so far
// allocation faults for all threads together
void alloc_fault_all(uint64_t at, bool persistent);
uint64_t alloc_fault_all_end();
uint64_t allocs_by_all();
// live (counted) blocks
void live(uint64_t *blocks, uint64_t *bytes);
void newest_live(char *buf, size_t n, uint64_t since_serial);
uint64_t alloc_serial();
// thread creation fault: the at-th creation from now fails (persistently or once)
void thread_fault(uint64_t at, bool persistent);
uint64_t thread_fault_end();
// entropy: mode 0 normal, 1 all draws equal to val, 2 fail at the at-th draw
void entropy(int mode, uint64_t val, uint64_t at);
uint64_t entropy_draws();

// Runs fn in a copy of the process as it is now (no other thread, no faults, no preemption, oracle mode off) and brings
// back at most cap words it wrote. A violation there ends the run.
size_t isolated(size_t (*fn)(void *arg, uint64_t *out, size_t cap), void *arg, const uint64_t **out);

struct Off { // oracle code: no faults, no switches, no monitoring, allocations not counted
    Off() { off_enter(); }
    ~Off() { off_leave(); }
    Off(const Off &) = delete;
};

} // namespace sim
