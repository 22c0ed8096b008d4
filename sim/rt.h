// Deterministic simulation runtime for lightmetrica: public interface used by scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace sim {
using u64 = uint64_t; using u32 = uint32_t; using u8 = uint8_t;

inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }

struct Rng {
    u64 s = 1;
    void seed(u64 v) { s = v * 0x9e3779b97f4a7c15ULL + 0x7f4a7c15; next(); next(); }
    u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// Fault categories. Every category has an ordinal counter; a fired fault is (category, ordinal, parameter).
enum Fault {
    F_SPURIOUS_CAS, F_SPURIOUS_WAKE, F_THREAD_CREATE, F_CLOCK_JUMP, F_STALL, F_TEAM_SIZE,
    F_OPEN_ERR, F_WRITE_ERR, F_WRITE_SHORT, F_WRITE_EINTR, F_ENOSPC, F_CLOSE_ERR,
    F_READ_ERR, F_READ_SHORT, F_READ_EINTR, F_MKDIR_ERR, F_STAT_ERR, F_RENAME_ERR, F_DLOPEN_ERR, F_DLCLOSE_ERR,
    F_ALLOC, F_CB_THROW, F_CTOR_THROW, F_KILL, F_TRUNCATE, F_FSYNC_ERR, F_SEEK_ERR, F_HWC_ZERO, F_COUNT
};
extern const char* const fault_names[F_COUNT];

struct FaultRec { u32 cat; u32 ord; u64 param; };
struct SwitchRec { u64 point; u32 tid; u32 forced; };

constexpr int MAX_PROBES = 96;
struct Result {
    int done;               // 0: child died without reporting, 1: reported
    int violated;           // 1: violation
    char cls[96];           // violation class
    char msg[4000];         // details
    u64 hash;               // hash over the whole execution (decisions, faults, events)
    u64 ihash;              // hash over the order of synchronisation operations
    u64 points, switches, sync_ops, threads;
    u64 sim_ns;             // simulated time covered
    u64 checks;             // oracle evaluations made
    u64 faults[F_COUNT];    // fired
    u64 offered[F_COUNT];   // opportunities
    int nprobes; char probe_name[MAX_PROBES][40]; u64 probe_n[MAX_PROBES];
    int nops; int nontrivial;
    char desc[1200];        // workload description (samples)
    u32 nsw; u32 nfl; u32 trace_overflow;
};
constexpr u32 MAX_SW = 400000, MAX_FL = 20000;
struct Shared { Result r; SwitchRec sw[MAX_SW]; FaultRec fl[MAX_FL]; };

struct RunSpec {
    std::string scenario;
    u64 seed = 1;                     // workload
    u64 sseed = 1;                    // schedule and faults
    bool replay = false;              // explicit trace instead of random decisions
    std::vector<SwitchRec> sw;
    std::vector<FaultRec> fl;
    std::vector<u32> dropped_ops;     // workload steps removed by the minimiser
    bool race = false, mem = true;
    std::string scratch;              // private scratch directory
    bool thorough = false;
};
extern RunSpec spec;
extern Shared* shm;
extern bool active;

// --- run control
void start_run();                                   // in the (forked) child, before the scenario
[[noreturn]] void finish_run();                     // normal end
[[noreturn]] void violate(const std::string& cls, const std::string& msg);
void describe(const std::string& s);                // workload description, appended
void probe(const char* name, u64 n = 1);
void event(u64 a, u64 b = 0, u64 c = 0);            // history event (hashed)
void checked(u64 n = 1);                            // count oracle evaluations
void nontrivial();
void phase(const std::string& s);                   // shown when the run crashes
extern u64 step_budget;
extern long omp_skip_lo[4], omp_skip_hi[4];         // fast-forward: a worksharing loop that goes beyond hi continues there when it reaches lo

// --- simulated processes: f runs in a process of its own (its memory is lost when it ends)
int  in_process(const std::function<void()>& f);    // returns the exit code, 137 if it was killed
[[noreturn]] void exit_process(int code);
// --- workload
Rng& W();                                           // workload stream
bool op_enabled(u32 i);                             // false if the minimiser dropped step i

// --- scheduling
struct SchedCfg { int strategy = 0; double p_sync = .3; u64 mean_access = 0; int pct_depth = 3; u64 pct_len = 10000; u64 tick_ns = 50; double p_stall = 0; };
extern SchedCfg sched;
void randomize_sched(u64 len_hint);
void point();                                       // scheduling point in harness code
int  spawn(std::function<void()> f);
void join(int tid);
int  self_tid();
u64  seq();                                         // global event sequence number
void yield_now();
void hold(u64 max_points);                          // no voluntary preemption of this thread until its next loop claim
bool holding(int tid);

// --- time
u64 now_ns(); u64 wall_ns(); void advance_ns(u64 ns);
extern u64 wall_offset;                              // may be changed by the scenario

// --- faults
bool fault(Fault f, u64* param = nullptr);           // asks whether to fire here
void enable(Fault f, double rate, u64 max_fires = ~0ull);
void disable_all();
bool replaying();

// --- instrumentation control: harness code is quiet, library code is not
void quiet_inc(); void quiet_dec();
int  quiet_get(); void quiet_set(int v);
struct Quiet { int v; Quiet() { v = quiet_get(); quiet_set(1); } ~Quiet() { quiet_set(v); } };
struct Lib   { int v; Lib() { v = quiet_get(); quiet_set(0); } ~Lib() { quiet_set(v); } };
bool rt_enter(); void rt_leave(bool);
struct Rt { bool o; Rt() { o = rt_enter(); } ~Rt() { rt_leave(o); } };        // inside the simulator runtime
template <class F> auto lib(F&& f) { Lib l; return f(); }

extern int hw_threads;
// --- file system seam
void fs_root(const std::string& dir);
extern u64 fs_capacity;                              // bytes until ENOSPC (~0: unlimited)
void fs_reset_stats();
extern u64 fs_writes, fs_reads, fs_opens, fs_bytes_written;
extern bool fs_kill_enabled; extern u64 fs_kill_at;  // kill process at this write ordinal
extern bool fs_faults_on;
int  fs_open_count();                                // files still open
bool fs_error_seen();                                // a (non-retryable) error was delivered since last reset
void fs_error_reset();
std::string fs_error_text(); std::string fs_open_paths();
// --- dl seam
extern bool dl_faults_on;
// --- stdout capture
void capture_stdout(); std::string captured(); void release_stdout(); u64 unflushed_output();
// --- allocation faults
extern bool alloc_faults_on;
// live heap statistics
std::string fmtv(const char* f, ...) __attribute__((format(printf, 1, 2)));
u64 race_count();
}
