// Deterministic simulation runtime: scheduler, instrumentation runtime, OpenMP runtime, pthread seam, clocks, heap.
#include "rt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <random>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <unordered_map>

extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }

extern "C" { void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
// the runtime itself uses the unwrapped memory functions
#define memcpy __real_memcpy
#define memmove __real_memmove
#define memset __real_memset

namespace sim {
const char* const fault_names[F_COUNT] = {
    "spurious_cas_failure", "spurious_wakeup", "thread_create_failure", "wall_clock_jump", "thread_stall", "smaller_team",
    "open_error", "write_error", "short_write", "write_eintr", "disk_full", "close_error",
    "read_error", "short_read", "read_eintr", "mkdir_error", "stat_error", "rename_error", "dlopen_failure", "dlclose_failure",
    "allocation_failure", "callback_throw", "construct_throw", "process_kill", "truncated_file", "fsync_error", "seek_error", "unknown_hw_concurrency" };

RunSpec spec; Shared* shm; bool active = false; u64 step_budget = 60'000'000; long omp_skip_lo[4], omp_skip_hi[4];
SchedCfg sched; u64 wall_offset = 0; int hw_threads = 4;
bool alloc_faults_on = false;

constexpr int MAXT = 96;
enum St { RUNNABLE, BLOCKED, DONE };
struct Team;
struct WS;
struct T {
    int id = 0; St st = RUNNABLE; int quiet = 1;
    std::atomic<int> go{0};
    pthread_t real{}; bool has_real = false;
    u32 vc[MAXT] = {};
    u64 prio = 0;
    u64 wake = ~0ull; bool timedout = false;          // timed wait
    const void* wait_obj = nullptr; const char* wait_why = "";
    u64 ran_since = 0;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; bool detached = false;
    std::function<void()> body;
    std::vector<std::pair<void (*)(void*), void*>> tls_dtors;
    bool fenced = false;
    // OpenMP
    Team* team = nullptr; int team_tid = 0; u64 ws_idx = 0; WS* ws = nullptr; u64 single_idx = 0; bool pool = false; int nth = 0;   // nth: this thread's nthreads ICV (0: the default, one per hardware thread)
    std::vector<struct PoolSlot*> workers;            // the pool of workers this thread is master of
    bool joined = false;
    bool in_rt = false; u64 hold = 0;
};
static __thread T* self = nullptr;
static T* threads[MAXT]; static int nthreads = 0; static int nalive = 0;
static Rng rW, rS, rF;
static u64 g_points = 0, g_now = 1'000'000'000ull, g_seq = 0;
static u64 next_pre = ~0ull;
static std::vector<u64> pct_points; static size_t pct_i = 0; static u64 pct_low = 1u << 20;
static size_t rp_i = 0;   // replay index
static u64 f_ord[F_COUNT]; static double f_rate[F_COUNT]; static u64 f_left[F_COUNT];
static std::map<std::pair<u32, u32>, u64> rp_faults;
static std::unordered_map<const void*, u32>* obj_ids;
static std::vector<char> dropped;
static char phase_buf[512];
static void arm_again();

std::string fmtv(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) { long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); return r; }
static long futex(std::atomic<int>* a, int op, int v) { return raw_syscall(SYS_futex, (long)a, op, v, 0, 0, 0); }

static void hashin(u64 a, u64 b = 0, u64 c = 0) { u64 h = shm->r.hash; h = mix(h, a); h = mix(h, b); h = mix(h, c); shm->r.hash = h; }
static u32 obj_id(const void* p) { auto it = obj_ids->find(p); if (it != obj_ids->end()) return it->second; u32 i = (u32)obj_ids->size() + 1; (*obj_ids)[p] = i; return i; }
static void sync_hash(int op, const void* p) { shm->r.sync_ops++; u64 h = shm->r.ihash; h = mix(h, self->id * 16 + op); h = mix(h, obj_id(p)); shm->r.ihash = h; }

struct RtGuard { T* t; bool o; RtGuard() { t = self; if (t) { o = t->in_rt; t->in_rt = true; } } ~RtGuard() { if (t) t->in_rt = o; } };
static inline bool on() { T* t = self; return active && t; }

// ---------------------------------------------------------------------------------------------- verdicts
[[noreturn]] static void leave() {
    shm->r.points = g_points; shm->r.threads = nthreads; shm->r.sim_ns = g_now - 1'000'000'000ull;
    for (int i = 0; i < F_COUNT; i++) shm->r.offered[i] = f_ord[i];
    shm->r.done = 1;
    syscall(SYS_exit_group, shm->r.violated ? 77 : 0); __builtin_unreachable();
}
void finish_run() { hashin(0xE0D, g_points, g_now); leave(); }
void violate(const std::string& cls, const std::string& msg) {
    if (self) self->in_rt = true;
    active = false;
    shm->r.violated = 1;
    snprintf(shm->r.cls, sizeof shm->r.cls, "%s", cls.c_str());
    snprintf(shm->r.msg, sizeof shm->r.msg, "%s%s%s", msg.c_str(), phase_buf[0] ? " | phase: " : "", phase_buf);
    hashin(0xBAD, g_points, g_now);
    for (char c : cls) hashin(c);
    leave();
}
// ---------------------------------------------------------------------------------------------- simulated processes
struct Carry { Rng w, s, f; u64 points, now, seq; u64 ord[F_COUNT]; u64 left[F_COUNT]; u64 woff; u64 rp; int code; };
static Carry* carry; static int proc_depth = 0;
[[noreturn]] void exit_process(int code) {
    active = false;
    Carry& c = *carry; c.w = rW; c.s = rS; c.f = rF; c.points = g_points; c.now = g_now; c.seq = g_seq; c.woff = wall_offset; c.rp = rp_i; c.code = code;
    memcpy(c.ord, f_ord, sizeof f_ord); memcpy(c.left, f_left, sizeof f_left);
    hashin(0xEE, code); syscall(SYS_exit_group, 0); __builtin_unreachable();
}
int in_process(const std::function<void()>& f) {
    if (proc_depth || nalive > 1) { fprintf(stderr, "in_process: not allowed here\n"); abort(); }
    if (!carry) carry = (Carry*)mmap(nullptr, sizeof(Carry), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    carry->code = -1;
    pid_t pid = fork();
    if (pid == 0) { proc_depth = 1; f(); exit_process(0); }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (shm->r.violated || carry->code < 0) { active = false; if (!shm->r.violated) { if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) syscall(SYS_exit_group, 79); shm->r.violated = 1; snprintf(shm->r.cls, sizeof shm->r.cls, "process-died"); snprintf(shm->r.msg, sizeof shm->r.msg, "simulated process ended unexpectedly (status %d)", st); } shm->r.done = 1; syscall(SYS_exit_group, 77); }
    Carry& c = *carry; rW = c.w; rS = c.s; rF = c.f; g_points = c.points; g_now = c.now; g_seq = c.seq; wall_offset = c.woff; rp_i = c.rp;
    memcpy(f_ord, c.ord, sizeof f_ord); memcpy(f_left, c.left, sizeof f_left); arm_again();
    return c.code;
}
void describe(const std::string& s) { size_t n = strlen(shm->r.desc); snprintf(shm->r.desc + n, sizeof shm->r.desc - n, "%s%s", n ? "; " : "", s.c_str()); }
void probe(const char* name, u64 n) {
    auto& r = shm->r;
    for (int i = 0; i < r.nprobes; i++) if (!strcmp(r.probe_name[i], name)) { r.probe_n[i] += n; return; }
    if (r.nprobes < MAX_PROBES) { snprintf(r.probe_name[r.nprobes], 40, "%s", name); r.probe_n[r.nprobes++] = n; }
}
void event(u64 a, u64 b, u64 c) { g_seq++; hashin(a, b, c); }
void checked(u64 n) { shm->r.checks += n; }
void nontrivial() { shm->r.nontrivial = 1; }
void phase(const std::string& s) { snprintf(phase_buf, sizeof phase_buf, "%s", s.c_str()); }
Rng& W() { return rW; }
bool op_enabled(u32 i) { if ((int)i + 1 > shm->r.nops) shm->r.nops = i + 1; return i >= dropped.size() || !dropped[i]; }
u64 seq() { return ++g_seq; }
u64 now_ns() { return g_now; } u64 wall_ns() { return 1'700'000'000'000'000'000ull + g_now + wall_offset; }
void advance_ns(u64 ns) { g_now += ns; }
bool replaying() { return spec.replay; }

bool fault(Fault f, u64* param) {
    if (!shm) return false;
    u64 ord = f_ord[f]++;
    u64 pv = 0; bool fire = false;
    if (spec.replay) {
        auto it = rp_faults.find({ (u32)f, (u32)ord });
        if (it != rp_faults.end()) { fire = true; pv = it->second; }
    } else if (f_rate[f] > 0 && f_left[f] > 0) {
        fire = rF.chance(f_rate[f]);
        if (fire) { pv = rF.next() >> 1; f_left[f]--; }
    }
    if (!fire) return false;
    if (param) *param = pv;
    shm->r.faults[f]++; hashin(0xFA + f, ord, pv);
    if (shm->r.nfl < MAX_FL) shm->fl[shm->r.nfl++] = { (u32)f, (u32)ord, pv }; else shm->r.trace_overflow = 1;
    return true;
}
void enable(Fault f, double rate, u64 mx) { f_rate[f] = rate; f_left[f] = mx; }
void disable_all() { for (auto& r : f_rate) r = 0; }

bool rt_enter() { T* t = self; if (!t) return false; bool o = t->in_rt; t->in_rt = true; return o; }
void rt_leave(bool o) { if (self) self->in_rt = o; }
int quiet_get() { return self ? self->quiet : 1; }
void quiet_set(int v) { if (self) self->quiet = v; }
void quiet_inc() { if (self) self->quiet++; } void quiet_dec() { if (self) self->quiet--; }
int self_tid() { return self ? self->id : -1; }

// ---------------------------------------------------------------------------------------------- scheduler
static u64 geo(u64 mean) { if (mean <= 1) return 1; double u = rS.unit(); if (u <= 0) u = 1e-12; double k = std::log(u) / std::log(1.0 - 1.0 / (double)mean); return 1 + (u64)std::min(k, 1e12); }
static void arm() { next_pre = (!spec.replay && sched.mean_access) ? g_points + geo(sched.mean_access) : ~0ull;
    if (!spec.replay && sched.strategy == 1 && pct_i < pct_points.size()) next_pre = std::min(next_pre, std::max(pct_points[pct_i], g_points + 1));
    if (spec.replay) next_pre = rp_i < spec.sw.size() ? spec.sw[rp_i].point : ~0ull; }

void randomize_sched(u64 len) {
    // swarm: pick a strategy for this run
    sched = SchedCfg();
    int k = (int)rS.below(100);
    static const double ps[] = { .05, .15, .3, .5, .8 };
    sched.p_sync = ps[rS.below(5)];
    static const u64 ticks[] = { 5, 20, 100, 1000, 20000 };
    sched.tick_ns = ticks[rS.below(5)];
    if (k < 35) { sched.strategy = 0; double lo = std::log(2.0), hi = std::log((double)std::max<u64>(len, 8)); sched.mean_access = (u64)std::exp(lo + (hi - lo) * rS.unit()); }
    else if (k < 60) { sched.strategy = 1; sched.pct_depth = 1 + (int)rS.below(6); double lo = std::log(50.0), hi = std::log((double)std::max<u64>(len * 4, 100)); sched.pct_len = (u64)std::exp(lo + (hi - lo) * rS.unit()); }
    else if (k < 85) { sched.strategy = 2; sched.p_sync = .2 + .7 * rS.unit(); }
    else if (k < 95) { sched.strategy = 3; sched.p_sync = .02; sched.mean_access = len; }
    else { sched.strategy = 4; sched.p_sync = 0; }
    pct_points.clear(); pct_i = 0;
    if (sched.strategy == 1) { for (int i = 0; i < sched.pct_depth; i++) pct_points.push_back(g_points + 1 + rS.below(sched.pct_len)); std::sort(pct_points.begin(), pct_points.end()); }
    arm();
    probe(sched.strategy == 0 ? "strategy.random_walk" : sched.strategy == 1 ? "strategy.pct" : sched.strategy == 2 ? "strategy.sync_points" : sched.strategy == 3 ? "strategy.long_bursts" : "strategy.serial");
}

static void arm_again() { arm(); }
static void check_timers() { for (int i = 0; i < nthreads; i++) { T* t = threads[i]; if (t->st == BLOCKED && t->wake <= g_now) { t->st = RUNNABLE; t->wake = ~0ull; t->timedout = true; } } }

static void park(T* me) { while (!me->go.load(std::memory_order_acquire)) futex(&me->go, FUTEX_WAIT_PRIVATE, 0); me->go.store(0, std::memory_order_relaxed); }
static void hand(T* to) { to->go.store(1, std::memory_order_release); futex(&to->go, FUTEX_WAKE_PRIVATE, 1); }

static T* choose(bool forced) {
    T* run[MAXT]; int n = 0;
    for (;;) {
        check_timers();
        n = 0; for (int i = 0; i < nthreads; i++) if (threads[i]->st == RUNNABLE) run[n++] = threads[i];
        if (n) break;
        u64 w = ~0ull; for (int i = 0; i < nthreads; i++) if (threads[i]->st == BLOCKED) w = std::min(w, threads[i]->wake);
        if (w == ~0ull) {
            std::string m = "no thread can run:";
            for (int i = 0; i < nthreads; i++) if (threads[i]->st == BLOCKED && !threads[i]->pool) m += fmtv(" T%d waits for %s;", i, threads[i]->wait_why);
            violate("deadlock", m);
        }
        g_now = std::max(g_now, w);
    }
    T* pick = nullptr;
    if (spec.replay) {
        while (rp_i < spec.sw.size() && spec.sw[rp_i].point < g_points) rp_i++;
        if (rp_i < spec.sw.size() && spec.sw[rp_i].point == g_points && spec.sw[rp_i].forced == (forced ? 1u : 0u)) {
            u32 tid = spec.sw[rp_i].tid; rp_i++;
            if ((int)tid < nthreads && threads[tid]->st == RUNNABLE) pick = threads[tid];
        }
        if (!pick) { if (!forced) return self; int b = self->id; for (int i = 1; i <= nthreads; i++) { T* t = threads[(b + i) % nthreads]; if (t->st == RUNNABLE) { pick = t; break; } } }
    }
    else if (sched.strategy == 1) { for (int i = 0; i < n; i++) if (!pick || run[i]->prio > pick->prio) pick = run[i]; }
    else {
        // on a voluntary preemption prefer another thread
        if (!forced && n > 1) { int k = (int)rS.below(n - 1); for (int i = 0; i < n; i++) { if (run[i] == self) continue; if (k-- == 0) { pick = run[i]; break; } } }
        else pick = run[rS.below(n)];
    }
    return pick;
}

static void switch_to(T* to, bool forced) {
    T* me = self;
    if (forced || to != me) {
        if (shm->r.nsw < MAX_SW) shm->sw[shm->r.nsw++] = { g_points, (u32)to->id, forced ? 1u : 0u }; else shm->r.trace_overflow = 1;
        hashin(0x5c, g_points * 2 + forced, to->id);
    }
    if (to == me) return;
    shm->r.switches++;
    u64 o; if (fault(F_STALL, &o)) { static const u64 st[] = { 1000000ull, 20000000ull, 500000000ull, 3000000000ull, 60000000000ull }; g_now += st[o % 5]; }
    to->ran_since = g_points;
    T* keep = me;
    hand(to);
    park(keep);
}

static void resched(bool forced) {
    T* t = choose(forced);
    arm();
    switch_to(t, forced);
}

// out of line part of a scheduling point
static void slow_point(bool sync) {
    T* me = self; RtGuard g;
    if (g_points > step_budget) violate("no-progress", fmtv("step budget of %llu scheduling points exceeded", (unsigned long long)step_budget));
    if (nalive <= 1) { if (g_points >= next_pre) { if (spec.replay) { while (rp_i < spec.sw.size() && spec.sw[rp_i].point <= g_points) rp_i++; } arm(); } return; }
    if (me->hold > g_points) { if (g_points >= next_pre) { if (spec.replay) { while (rp_i < spec.sw.size() && spec.sw[rp_i].point <= g_points) rp_i++; } arm(); } return; }
    bool pre = false;
    if (spec.replay) {
        while (rp_i < spec.sw.size() && spec.sw[rp_i].point < g_points) rp_i++;
        if (rp_i < spec.sw.size() && spec.sw[rp_i].point == g_points && !spec.sw[rp_i].forced) pre = true;
        else { next_pre = rp_i < spec.sw.size() ? std::max(spec.sw[rp_i].point, g_points + 1) : ~0ull; }
        if (!pre) { if (g_points - me->ran_since > 3'000'000) { me->ran_since = g_points; } }
    } else {
        if (g_points >= next_pre) {
            if (sched.strategy == 1) { while (pct_i < pct_points.size() && pct_points[pct_i] <= g_points) { pct_i++; me->prio = --pct_low; pre = true; } arm(); }
            else pre = true;
        }
        if (sync && sched.strategy != 1 && rS.chance(sched.p_sync)) pre = true;
        if (g_points - me->ran_since > 3'000'000) { me->ran_since = g_points; if (sched.strategy == 1) me->prio = --pct_low; pre = true; }
    }
    if (pre) resched(false);
}
static inline void pt_access() { g_points++; g_now += 1; if (g_points >= next_pre || (g_points & 0xfffff) == 0) slow_point(false); }
static void pt_sync(int op, const void* obj) {
    T* t = self; if (t->quiet) return;
    g_points++; g_now += sched.tick_ns;
    { RtGuard g; sync_hash(op, obj); }
    slow_point(true);
}
void point() { if (!on()) return; g_points++; g_now += sched.tick_ns; slow_point(true); }
void yield_now() { if (!on()) return; RtGuard g; g_points++; g_now += sched.tick_ns; if (g_points > step_budget) slow_point(true); if (nalive > 1) { if (sched.strategy == 1) self->prio = --pct_low; if (spec.replay) slow_point(true); else resched(false); } }

void hold(u64 n) { if (self) self->hold = g_points + n; }
bool holding(int tid) { return tid >= 0 && tid < nthreads && threads[tid]->st != DONE && threads[tid]->hold > g_points; }
static void block(const char* why, const void* obj, u64 wake = ~0ull) {
    T* me = self; me->st = BLOCKED; me->wait_why = why; me->wait_obj = obj; me->wake = wake; me->timedout = false;
    g_points++;
    if (g_points > step_budget) violate("no-progress", "step budget exceeded");
    resched(true);
    me->wake = ~0ull; me->wait_obj = nullptr;
}
static void wake_thread(T* t) { t->st = RUNNABLE; t->wake = ~0ull; t->timedout = false; }

// ---------------------------------------------------------------------------------------------- vector clocks
struct Sync { u32 vc[MAXT] = {}; };
static std::unordered_map<const void*, Sync*>* syncs;
static Sync* sync_of(const void* p) { auto& s = (*syncs)[p]; if (!s) s = new Sync; return s; }
static void vmax(u32* a, const u32* b) { for (int i = 0; i < nthreads; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acq(const void* p) { if (!spec.race) return; auto it = syncs->find(p); if (it != syncs->end()) vmax(self->vc, it->second->vc); }
static void rel(const void* p) { if (!spec.race) return; vmax(sync_of(p)->vc, self->vc); self->vc[self->id]++; }
static void rel_store(const void* p) { if (!spec.race) return; Sync* s = sync_of(p); memcpy(s->vc, self->vc, sizeof s->vc); self->vc[self->id]++; }
static void hb(T* from, T* to) { if (!spec.race) return; vmax(to->vc, from->vc); from->vc[from->id]++; }

// ---------------------------------------------------------------------------------------------- shadow memory
struct Leaf { u8 st[512]; u64* cells; };
static Leaf*** top;  // 2^18 x 2^18
static void* arena_alloc(size_t n) {
    static char* cur = nullptr; static size_t left = 0;
    n = (n + 63) & ~size_t(63);
    if (left < n) { size_t m = std::max<size_t>(n, 8 << 20); cur = (char*)mmap(nullptr, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); left = m; }
    void* p = cur; cur += n; left -= n; return p;
}
static Leaf* leaf(uintptr_t a, bool make) {
    if (!top) { if (!make) return nullptr; top = (Leaf***)mmap(nullptr, sizeof(void*) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    uintptr_t i = (a >> 30) & 0x3ffff, j = (a >> 12) & 0x3ffff;
    Leaf** l2 = top[i];
    if (!l2) { if (!make) return nullptr; l2 = top[i] = (Leaf**)mmap(nullptr, sizeof(void*) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    Leaf* l = l2[j];
    if (!l && make) l = l2[j] = (Leaf*)arena_alloc(sizeof(Leaf));
    return l;
}
enum { ST_OK = 0, ST_FREED = 0xFD, ST_RZ = 0xFA };
static void set_state(uintptr_t a, size_t n, u8 v) { for (uintptr_t g = a >> 3; g < (a + n + 7) >> 3; g++) { Leaf* l = leaf(g << 3, true); l->st[g & 511] = v; if (v == ST_OK && l->cells) memset(l->cells + (g & 511) * 4, 0, 32); } }

static std::string symbol(const void* pc) {
    Dl_info i; if (dladdr(pc, &i) && i.dli_sname) return fmtv("%s+0x%lx", i.dli_sname, (long)((char*)pc - (char*)i.dli_saddr));
    return fmtv("%p", pc);
}
static u64 nraces = 0; u64 race_count() { return nraces; }
// source-level names of shadowed accesses are resolved with the pc recorded in a side table
struct PcRec { u64 key; const void* pc; };
static PcRec pcs[1 << 16];

static void mem_error(uintptr_t a, size_t sz, bool w, u8 st, const void* pc) {
    violate(st == ST_FREED ? "use-after-free" : "heap-out-of-bounds",
        fmtv("%s of %zu bytes at %s memory in %s", w ? "write" : "read", sz, st == ST_FREED ? "freed" : "out-of-bounds heap", symbol(pc).c_str()));
}
static u64 slot_rr = 0;
static void shadow(uintptr_t a, size_t sz, bool w, bool atomic, const void* pc) {
    uintptr_t end = a + sz;
    while (a < end) {
        uintptr_t g = a >> 3; unsigned off = a & 7; unsigned n = (unsigned)std::min<uintptr_t>(8 - off, end - a);
        Leaf* l = leaf(a, spec.race);
        if (l) {
            if (spec.mem) {
                u8 st = l->st[g & 511];
                if (st && (st >= 8 || off + n > st)) { RtGuard rg; mem_error(a, sz, w, st >= 8 ? st : (u8)ST_RZ, pc); }
            }
            if (spec.race) {
                if (!l->cells) l->cells = (u64*)arena_alloc(512 * 32);
                u64* c = l->cells + (g & 511) * 4;
                T* me = self; unsigned mask = ((1u << n) - 1) << off;
                u64 mine = (u64)me->id | (u64)mask << 8 | (u64)w << 16 | (u64)atomic << 17 | (u64)me->vc[me->id] << 20;
                int rep = -1;
                for (int i = 0; i < 4; i++) {
                    u64 s = c[i]; if (!s) { if (rep < 0 || rep >= 8) rep = i; continue; }
                    int stid = s & 0xff; unsigned sm = (s >> 8) & 0xff; bool sw = (s >> 16) & 1, sa = (s >> 17) & 1; u32 sc = (u32)(s >> 20);
                    if (stid == me->id) { if (sm == mask && sw == w && sa == atomic) rep = i; else if ((sm & ~mask) == 0 && (w || !sw) && (!atomic || sa)) rep = i; continue; }
                    bool ordered = sc <= me->vc[stid];
                    if ((sm & mask) && (w || sw) && !(atomic && sa) && !ordered) {
                        RtGuard rg;
                        const void* other = nullptr; PcRec& pr = pcs[mix(a >> 3, stid) & 0xffff]; if (pr.key == (a >> 3)) other = pr.pc;
                        nraces++;
                        violate("data-race", fmtv("%s%s of %zu bytes by T%d in %s races with %s%s by T%d in %s", atomic ? "atomic " : "", w ? "write" : "read", sz, me->id, symbol(pc).c_str(), sa ? "atomic " : "", sw ? "write" : "read", stid, other ? symbol(other).c_str() : "?"));
                    }
                    if (ordered && rep < 0) rep = i + 8;
                }
                if (rep < 0) rep = (int)(slot_rr++ & 3); else rep &= 7;
                c[rep & 3] = mine;
                PcRec& pr = pcs[mix(a >> 3, me->id) & 0xffff]; pr.key = a >> 3; pr.pc = pc;
            }
        }
        a += n;
    }
}
static inline void acc(const void* p, size_t sz, bool w, const void* pc) {
    T* t = self; if (!active || !t || t->quiet || t->in_rt) return;
    pt_access();
    if (spec.race || spec.mem) shadow((uintptr_t)p, sz, w, false, pc);
}

// ---------------------------------------------------------------------------------------------- threads
static T* new_thread() {
    if (nthreads >= MAXT) violate("harness-limit", "too many threads");
    T* t = new T; t->id = nthreads; threads[nthreads++] = t; nalive++;
    t->prio = (1u << 24) + rS.below(1u << 24); t->vc[t->id] = 1;
    return t;
}
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
template <class F> static void rsym(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); }
static void run_tls_dtors(T* t) { while (!t->tls_dtors.empty()) { auto d = t->tls_dtors.back(); t->tls_dtors.pop_back(); d.first(d.second); } }
static void thread_done(T* me) {
    me->in_rt = true; me->st = DONE; nalive--;
    for (int i = 0; i < nthreads; i++) { T* t = threads[i]; if (t->st == BLOCKED && t->wait_obj == me) wake_thread(t); }
    g_points++;
    T* to = choose(true); arm();
    if (shm->r.nsw < MAX_SW) shm->sw[shm->r.nsw++] = { g_points, (u32)to->id, 1u };
    hashin(0x5d, g_points, to->id);
    self = nullptr;
    to->ran_since = g_points;
    hand(to);
}
static void* tramp(void* a) {
    T* t = (T*)a; self = t; park(t);
    t->in_rt = false;
    if (t->body) { t->quiet = 1; t->body(); }
    else { t->quiet = 0; t->ret = t->fn(t->arg); }
    run_tls_dtors(t);
    thread_done(t);
    return t->ret;
}
static int start_real(T* t) {
    rsym(real_create, "pthread_create");
    // a fresh stack per thread: no shadow state is inherited from an earlier thread
    size_t sz = 4 << 20; void* stk = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stk, sz);
    int r = real_create(&t->real, &at, tramp, t); t->has_real = true; pthread_attr_destroy(&at); return r;
}
int spawn(std::function<void()> f) {
    RtGuard g; T* t = new_thread(); t->body = std::move(f); hb(self, t);
    if (start_real(t)) violate("harness-limit", "cannot create thread"); return t->id;
}
void join(int tid) { RtGuard g; T* t = threads[tid]; while (t->st != DONE) block("thread end", t); hb(t, self); g_points++; g_now += sched.tick_ns; }

// ---------------------------------------------------------------------------------------------- mutex / cond
struct Mtx { T* owner = nullptr; int count = 0; int readers = 0; };
static std::unordered_map<const void*, Mtx*>* mtxs;
static Mtx* mtx(const void* p) { auto& m = (*mtxs)[p]; if (!m) m = new Mtx; return m; }
static void wake_all(const void* obj, const char* why) { for (int i = 0; i < nthreads; i++) { T* t = threads[i]; if (t->st == BLOCKED && t->wait_obj == obj && t->wait_why == why) wake_thread(t); } }
static const char* const WHY_MTX = "mutex"; static const char* const WHY_CV = "condition variable"; static const char* const WHY_RW = "rwlock";
static int m_lock(pthread_mutex_t* p, bool tryl, u64 deadline = ~0ull) {
    pt_sync(1, p);
    RtGuard g; Mtx* m = mtx(p); T* me = self;
    if (m->owner == me && m->count > 0) {
        if ((p->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { m->count++; return 0; }
        if (tryl) return EBUSY;
        if ((p->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        violate("deadlock", "thread relocks a non-recursive mutex it holds");
    }
    while (m->owner) { if (tryl) return EBUSY; block(WHY_MTX, p, deadline); if (me->timedout) return ETIMEDOUT; }
    m->owner = me; m->count = 1; acq(p); return 0;
}
static int m_unlock(pthread_mutex_t* p) {
    RtGuard g; Mtx* m = mtx(p); T* me = self;
    if (m->owner != me) { if (!m->owner) violate("mutex-misuse", "unlock of a mutex that is not locked"); violate("mutex-misuse", "unlock of a mutex owned by another thread"); }
    if (--m->count == 0) { m->owner = nullptr; rel(p); wake_all(p, WHY_MTX); }
    me->in_rt = g.o; pt_sync(2, p); me->in_rt = true;
    return 0;
}
static int c_wait(pthread_cond_t* c, pthread_mutex_t* p, u64 deadline) {
    pt_sync(3, c);
    RtGuard g; Mtx* m = mtx(p); T* me = self;
    int cnt = m->count; if (m->owner != me) violate("mutex-misuse", "condition wait without holding the mutex");
    u64 wake = deadline; bool spurious = false;
    u64 pv; if (fault(F_SPURIOUS_WAKE, &pv)) { u64 w = g_now + 1 + pv % 100000; if (w < wake) { wake = w; spurious = true; } }
    m->owner = nullptr; m->count = 0; rel(p); wake_all(p, WHY_MTX);
    block(WHY_CV, c, wake);
    bool to = me->timedout && !spurious;
    while (m->owner) block(WHY_MTX, p);
    m->owner = me; m->count = cnt; acq(p);
    return to ? ETIMEDOUT : 0;
}
static void c_signal(pthread_cond_t* c, bool all) {
    pt_sync(4, c);
    RtGuard g; T* w[MAXT]; int n = 0;
    for (int i = 0; i < nthreads; i++) { T* t = threads[i]; if (t->st == BLOCKED && t->wait_obj == c && t->wait_why == WHY_CV) w[n++] = t; }
    if (!n) return;
    if (all) { for (int i = 0; i < n; i++) wake_thread(w[i]); return; }
    // which waiter is woken is a scheduling choice derived from the point counter so that replay needs no record
    wake_thread(w[mix(spec.seed, g_points) % n]);
}

// ---------------------------------------------------------------------------------------------- OpenMP
struct WS { bool init = false; long start, end, incr, chunk, next; bool up = true; bool ull = false; bool stat = false; std::map<int, long> done_static; };
struct Team { int nth = 0; int n; void (*fn)(void*); void* data; int left; std::deque<WS> ws; std::vector<char> single; int bar = 0; u64 bar_gen = 0; Team* parent; std::vector<void*> copyprv; void* copy = nullptr; };
struct PoolSlot { T* t = nullptr; Team* job = nullptr; int idx = 0; };
static int omp_dyn = 0; static int omp_nested = 1;
static const char* const WHY_POOL = "work (pool)"; static const char* const WHY_TEAM = "team end"; static const char* const WHY_BAR = "barrier";
static void team_finish(Team* tm) { RtGuard g; self->hold = 0; if (--tm->left == 0) for (int i = 0; i < nthreads; i++) { T* t = threads[i]; if (t->st == BLOCKED && t->wait_obj == tm && t->wait_why == WHY_TEAM) wake_thread(t); } rel(tm); }
static void pool_main(PoolSlot* sl) {
    T* me = self; me->pool = true;
    for (;;) {
        { RtGuard g; while (!sl->job) { nalive--; block(WHY_POOL, sl); nalive++; } }
        Team* tm = sl->job; sl->job = nullptr;
        acq(tm);
        me->team = tm; me->team_tid = sl->idx; me->nth = tm->nth; me->ws_idx = 0; me->ws = nullptr; me->single_idx = 0;
        { me->in_rt = false; me->quiet = 0; pt_sync(5, tm); tm->fn(tm->data); me->quiet = 1; }
        team_finish(tm); me->team = nullptr; me->team_tid = 0;
    }
}
static void omp_parallel(void (*fn)(void*), void* data, unsigned nreq, WS* pre) {
    T* me = self;
    if (!active || !me) { fn(data); return; }
    int n;
    { RtGuard g;
      bool nested = me->team && me->team->n > 1;
      n = nreq ? (int)nreq : (me->nth > 0 ? me->nth : hw_threads > 0 ? hw_threads : 1);
      if (nested && omp_nested <= 1) n = 1;
      if (n > 40) n = 40;
      n = std::max(1, std::min(n, std::max((int)me->workers.size(), 1) + MAXT - 16 - nthreads));      // a smaller team when threads run out
      u64 pv; if (n > 1 && fault(F_TEAM_SIZE, &pv)) n = 1 + (int)(pv % n);
    }
    Team* tm; { RtGuard g; tm = new Team; }
    tm->n = n; tm->fn = fn; tm->data = data; tm->left = n; tm->parent = me->team; tm->nth = me->nth;
    if (pre) tm->ws.push_back(*pre);
    Team* ot = me->team; int ott = me->team_tid; u64 owi = me->ws_idx, osi = me->single_idx; WS* ow = me->ws;
    me->team = tm; me->team_tid = 0; me->ws_idx = 0; me->ws = nullptr; me->single_idx = 0;
    if (n > 1) {
        RtGuard g;
        rel_store(tm);
        // libgomp keeps one pool per master thread
        while ((int)me->workers.size() < n) { auto* sl = new PoolSlot; sl->idx = (int)me->workers.size(); me->workers.push_back(sl); }
        for (int i = 1; i < n; i++) {
            PoolSlot* sl = me->workers[i]; sl->job = tm;
            if (!sl->t) { T* t = new_thread(); sl->t = t; t->body = [sl] { pool_main(sl); }; hb(me, t); if (start_real(t)) violate("harness-limit", "cannot create worker"); }
            else wake_thread(sl->t);
        }
    }
    pt_sync(5, tm);
    { int q = me->quiet; me->quiet = 0; fn(data); me->quiet = q; }
    me->hold = 0;
    { RtGuard g; tm->left--; while (tm->left > 0) block(WHY_TEAM, tm); acq(tm); }
    me->team = ot; me->team_tid = ott; me->ws_idx = owi; me->single_idx = osi; me->ws = ow;
    pt_sync(5, tm);
}
static WS* ws_enter(bool& first) {
    T* me = self; Team* tm = me->team; if (!tm) { RtGuard g; tm = new Team; tm->n = 1; tm->left = 1; tm->parent = nullptr; me->team = tm; me->ws_idx = 0; }
    while (tm->ws.size() <= me->ws_idx) tm->ws.emplace_back();
    WS* w = &tm->ws[me->ws_idx++]; me->ws = w; first = !w->init; return w;
}
static bool ws_next(long* is, long* ie) {
    T* me = self; WS* w = me->ws;
    if (w->stat) {
        long iters = w->up ? (w->end - w->start + w->incr - 1) / w->incr : (w->start - w->end - w->incr - 1) / -w->incr; if (iters < 0) iters = 0;
        int n = me->team ? me->team->n : 1; long k = w->done_static[me->team_tid]++;
        long lo, hi; if (w->chunk <= 0) { if (k) return false; lo = iters * me->team_tid / n; hi = iters * (me->team_tid + 1) / n; } else { lo = (k * n + me->team_tid) * w->chunk; hi = std::min(lo + w->chunk, iters); }
        if (lo >= hi || lo >= iters) return false; *is = w->start + lo * w->incr; *ie = w->start + hi * w->incr; return true;
    }
    me->hold = 0;
    pt_sync(6, w);
    long c = (w->chunk > 0 ? w->chunk : 1) * w->incr;
    for (int k = 0; k < 4; k++) if (omp_skip_hi[k] > omp_skip_lo[k] && w->incr == 1 && w->next >= omp_skip_lo[k] && w->next < omp_skip_hi[k] && w->end > omp_skip_hi[k]) w->next = omp_skip_hi[k];
    if (w->up ? w->next >= w->end : w->next <= w->end) return false;
    *is = w->next; long e = w->next + c; if (w->up ? e > w->end : e < w->end) e = w->end; *ie = e; w->next = e; return true;
}
static bool ws_start(long s, long e, long inc, long ch, long* is, long* ie, bool stat) {
    bool first; WS* w = ws_enter(first);
    if (first) { w->init = true; w->start = w->next = s; w->end = e; w->incr = inc; w->chunk = ch; w->up = inc > 0; w->stat = stat; }
    return is ? ws_next(is, ie) : true;
}
static void omp_barrier() {
    T* me = self; if (!active || !me || !me->team || me->team->n <= 1) return;
    pt_sync(7, me->team);
    RtGuard g; Team* tm = me->team; rel(&tm->bar);
    u64 gen = tm->bar_gen;
    if (++tm->bar == tm->n) { tm->bar = 0; tm->bar_gen++; wake_all(tm, WHY_BAR); }
    else while (tm->bar_gen == gen) block(WHY_BAR, tm);
    acq(&tm->bar);
}

// ---------------------------------------------------------------------------------------------- run start
static char altstack[1 << 16];
static void on_signal(int s, siginfo_t* si, void*) {
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGBUS ? "SIGBUS" : s == SIGILL ? "SIGILL" : "SIGNAL";
    active = false; shm->r.violated = 1; snprintf(shm->r.cls, sizeof shm->r.cls, "crash-%s", n); snprintf(shm->r.msg, sizeof shm->r.msg, "library code crashed with %s | phase: %s", n, phase_buf);
    hashin(0xC0, s, g_points); leave();
}
static void on_terminate() {
    std::string w = "terminate called";
    try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (std::exception& e) { w += std::string(" with: ") + e.what(); } catch (...) { w += " with unknown exception"; }
    violate("terminate", w);
}
void start_run() {
    memset(&shm->r, 0, sizeof shm->r);
    obj_ids = new std::unordered_map<const void*, u32>; syncs = new std::unordered_map<const void*, Sync*>; mtxs = new std::unordered_map<const void*, Mtx*>;
    rW.seed(mix(spec.seed, 0x11)); rS.seed(mix(spec.sseed, 0x22)); rF.seed(mix(spec.sseed, 0x33));
    for (auto& f : spec.fl) rp_faults[{ f.cat, f.ord }] = f.param;
    for (u32 d : spec.dropped_ops) { if (dropped.size() <= d) dropped.resize(d + 1); dropped[d] = 1; }
    T* t = new_thread(); self = t; t->quiet = 1; t->real = pthread_self(); t->has_real = true;
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL }) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    active = true; arm();
}
} // namespace sim
using namespace sim;

// ================================================================================================ C interface
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { acc(a, n, false, PC); } void __tsan_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { acc(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { acc(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { acc(a, n, true, PC); } \
  void __tsan_read##n##_pc(void* a, void* p) { acc(a, n, false, p); } void __tsan_write##n##_pc(void* a, void* p) { acc(a, n, true, p); } \
  void __tsan_read_write##n(void* a) { acc(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (n) acc(a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { if (n) acc(a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) acc(a, 8, true, PC); else acc(a, 8, false, PC); }
void __tsan_vptr_read(void** a) { acc(a, 8, false, PC); }

static inline bool acqo(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool relo(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool at_begin(const volatile void* a, size_t n, bool w, const void* pc) {
    T* t = self; if (!active || !t || t->quiet || t->in_rt) return false;
    pt_sync(w ? 9 : 8, (const void*)a); if (spec.race || spec.mem) shadow((uintptr_t)a, n, w, true, pc); return true;
}
static void at_hb(const volatile void* a, bool ld, bool st, int mo) {
    T* t = self; RtGuard g;
    if (t->fenced) mo = __ATOMIC_SEQ_CST;
    if (ld && acqo(mo)) acq((const void*)a);
    if (st && relo(mo)) { if (ld) rel((const void*)a); else rel_store((const void*)a); }
    else if (st && !ld && spec.race) { /* relaxed plain store breaks the release sequence */ auto it = syncs->find((const void*)a); if (it != syncs->end()) memset(it->second->vc, 0, sizeof it->second->vc); }
}
#define MO(m) ((m) & 0xff)
#define ATOMIC(bits, ty) \
ty __tsan_atomic##bits##_load(const volatile ty* a, int m) { bool o = at_begin(a, sizeof(ty), false, PC); ty v; v = *a; if (o) at_hb(a, true, false, MO(m)); return v; } \
void __tsan_atomic##bits##_store(volatile ty* a, ty v, int m) { bool o = at_begin(a, sizeof(ty), true, PC); *a = v; if (o) at_hb(a, false, true, MO(m)); } \
ty __tsan_atomic##bits##_exchange(volatile ty* a, ty v, int m) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; *a = v; if (o) at_hb(a, true, true, MO(m)); return r; } \
ty __tsan_atomic##bits##_fetch_add(volatile ty* a, ty v, int m) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; *a = r + v; if (o) at_hb(a, true, true, MO(m)); return r; } \
ty __tsan_atomic##bits##_fetch_sub(volatile ty* a, ty v, int m) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; *a = r - v; if (o) at_hb(a, true, true, MO(m)); return r; } \
ty __tsan_atomic##bits##_fetch_and(volatile ty* a, ty v, int m) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; *a = r & v; if (o) at_hb(a, true, true, MO(m)); return r; } \
ty __tsan_atomic##bits##_fetch_or(volatile ty* a, ty v, int m) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; *a = r | v; if (o) at_hb(a, true, true, MO(m)); return r; } \
ty __tsan_atomic##bits##_fetch_xor(volatile ty* a, ty v, int m) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; *a = r ^ v; if (o) at_hb(a, true, true, MO(m)); return r; } \
ty __tsan_atomic##bits##_fetch_nand(volatile ty* a, ty v, int m) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; *a = ~(r & v); if (o) at_hb(a, true, true, MO(m)); return r; } \
bool __tsan_atomic##bits##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int m, int fm) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; if (r == *c) { *a = v; if (o) at_hb(a, true, true, MO(m)); return true; } *c = r; if (o) at_hb(a, true, false, MO(fm)); return false; } \
bool __tsan_atomic##bits##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int m, int fm) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; bool sp = false; if (o && r == *c) { RtGuard g; sp = fault(F_SPURIOUS_CAS); } if (r == *c && !sp) { *a = v; if (o) at_hb(a, true, true, MO(m)); return true; } *c = r; if (o) at_hb(a, true, false, MO(fm)); return false; } \
ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* a, ty c, ty v, int m, int fm) { bool o = at_begin(a, sizeof(ty), true, PC); ty r = *a; if (r == c) { *a = v; if (o) at_hb(a, true, true, MO(m)); } else if (o) at_hb(a, true, false, MO(fm)); return r; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long) ATOMIC(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { if (!on() || self->quiet) return; pt_sync(10, (void*)1); self->fenced = true; RtGuard g; static int fence; acq(&fence); rel(&fence); }
void __tsan_atomic_signal_fence(int) {}

// Generic (libatomic) operations on larger objects, e.g. pixel values
void sim_atomic_load(size_t n, const volatile void* a, void* r, int m) __asm__("__atomic_load");
void sim_atomic_store(size_t n, volatile void* a, const void* v, int m) __asm__("__atomic_store");
void sim_atomic_exchange(size_t n, volatile void* a, const void* v, void* r, int m) __asm__("__atomic_exchange");
bool sim_atomic_cas(size_t n, volatile void* a, void* e, const void* d, int sm, int fm) __asm__("__atomic_compare_exchange");
void sim_atomic_load(size_t n, const volatile void* a, void* r, int m) { bool o = at_begin(a, n, false, PC); memcpy(r, (const void*)a, n); if (o) at_hb(a, true, false, MO(m)); }
void sim_atomic_store(size_t n, volatile void* a, const void* v, int m) { bool o = at_begin(a, n, true, PC); memcpy((void*)a, v, n); if (o) at_hb(a, false, true, MO(m)); }
void sim_atomic_exchange(size_t n, volatile void* a, const void* v, void* r, int m) { bool o = at_begin(a, n, true, PC); char t[256]; memcpy(t, v, n); memcpy(r, (void*)a, n); memcpy((void*)a, t, n); if (o) at_hb(a, true, true, MO(m)); }
bool sim_atomic_cas(size_t n, volatile void* a, void* e, const void* d, int sm, int fm) {
    bool o = at_begin(a, n, true, PC);
    bool eq = !memcmp((void*)a, e, n);
    if (o && eq) { RtGuard g; if (fault(F_SPURIOUS_CAS)) eq = false; } // libatomic callers of the weak form must retry
    if (eq) { memcpy((void*)a, d, n); if (o) at_hb(a, true, true, MO(sm)); return true; }
    memcpy(e, (void*)a, n); if (o) at_hb(a, true, false, MO(fm)); return false;
}
bool sim_atomic_lf(size_t n, const volatile void*) __asm__("__atomic_is_lock_free");
bool sim_atomic_lf(size_t n, const volatile void*) { return n <= 8; }

// memory functions called by library objects (linker --wrap)
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (active && self && !self->quiet && !self->in_rt && n) { acc(s, n, false, PC); acc(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (active && self && !self->quiet && !self->in_rt && n) { acc(s, n, false, PC); acc(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (active && self && !self->quiet && !self->in_rt && n) acc(d, n, true, PC); return __real_memset(d, c, n); }

// ---- guards of function-local statics
int __cxa_guard_acquire(long long* g) {
    unsigned char* b = (unsigned char*)g;
    if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
    if (b[0]) { RtGuard r; acq(g); return 0; }
    pt_sync(11, g);
    RtGuard r;
    while (b[1] && !b[0]) block("static initialisation", g);
    if (b[0]) { acq(g); return 0; }
    b[1] = 1; return 1;
}
void __cxa_guard_release(long long* g) { unsigned char* b = (unsigned char*)g; b[0] = 1; b[1] = 0; if (on()) { RtGuard r; rel(g); for (int i = 0; i < nthreads; i++) if (threads[i]->st == BLOCKED && threads[i]->wait_obj == g) wake_thread(threads[i]); } }
void __cxa_guard_abort(long long* g) { unsigned char* b = (unsigned char*)g; b[1] = 0; if (on()) { RtGuard r; rel(g); for (int i = 0; i < nthreads; i++) if (threads[i]->st == BLOCKED && threads[i]->wait_obj == g) wake_thread(threads[i]); } }
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
int __cxa_thread_atexit(void (*d)(void*), void* o, void* h) { if (on()) { RtGuard g; self->tls_dtors.push_back({ d, o }); return 0; } return __cxa_thread_atexit_impl(d, o, h); }

// ---- pthread
#define REAL(ret, name, ...) static ret (*r)(__VA_ARGS__); rsym(r, #name)
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!on()) { rsym(real_create, "pthread_create"); return real_create(t, at, fn, arg); }
    pt_sync(12, (void*)2);
    RtGuard g; if (fault(F_THREAD_CREATE)) return EAGAIN;
    T* n = new_thread(); n->fn = fn; n->arg = arg; hb(self, n);
    if (start_real(n)) violate("harness-limit", "cannot create thread");
    *t = n->real; return 0;
}
static T* by_real(pthread_t p) { for (int i = 0; i < nthreads; i++) if (threads[i]->has_real && !threads[i]->joined && pthread_equal(threads[i]->real, p)) return threads[i]; return nullptr; }
int pthread_join(pthread_t p, void** ret) {
    REAL(int, pthread_join, pthread_t, void**);
    if (!on()) return r(p, ret);
    pt_sync(13, (void*)3);
    RtGuard g; T* t = by_real(p); if (!t) return ESRCH;
    while (t->st != DONE) block("thread end", t);
    t->joined = true; hb(t, self); return r(p, ret);
}
int pthread_detach(pthread_t p) { REAL(int, pthread_detach, pthread_t); if (on()) { RtGuard g; T* t = by_real(p); if (t) t->detached = true; } return r(p); }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!on() || self->in_rt) { REAL(int, pthread_mutex_lock, pthread_mutex_t*); return r(m); } return m_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!on() || self->in_rt) { REAL(int, pthread_mutex_trylock, pthread_mutex_t*); return r(m); } return m_lock(m, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!on() || self->in_rt) { REAL(int, pthread_mutex_unlock, pthread_mutex_t*); return r(m); } return m_unlock(m); }
static u64 to_deadline(const struct timespec* ts, clockid_t c) { u64 v = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; u64 base = c == CLOCK_REALTIME ? wall_ns() : now_ns(); return v <= base ? g_now : g_now + (v - base); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!on()) { REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*); return r(m, ts); } return m_lock(m, false, to_deadline(ts, CLOCK_REALTIME)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (!on()) { REAL(int, pthread_mutex_clocklock, pthread_mutex_t*, clockid_t, const struct timespec*); return r(m, c, ts); } return m_lock(m, false, to_deadline(ts, c)); }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (!on()) { REAL(int, pthread_mutex_destroy, pthread_mutex_t*); return r(m); } RtGuard g; auto it = mtxs->find(m); if (it != mtxs->end()) { if (it->second->owner) violate("mutex-misuse", "destroying a locked mutex"); mtxs->erase(it); } return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) { REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*); return r(c, m); } return c_wait(c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!on()) { REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*); return r(c, m, ts); } return c_wait(c, m, to_deadline(ts, CLOCK_REALTIME)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!on()) { REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*); return r(c, m, k, ts); } return c_wait(c, m, to_deadline(ts, k)); }
int pthread_cond_signal(pthread_cond_t* c) { if (!on()) { REAL(int, pthread_cond_signal, pthread_cond_t*); return r(c); } c_signal(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!on()) { REAL(int, pthread_cond_broadcast, pthread_cond_t*); return r(c); } c_signal(c, true); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (!on()) { REAL(int, pthread_cond_destroy, pthread_cond_t*); return r(c); } return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) {
    if (!on()) { REAL(int, pthread_once, pthread_once_t*, void (*)()); return r(o, f); }
    pt_sync(14, o); int* st = (int*)o;
    { RtGuard g; while (*st == 0x51) block("once", o); if (*st == 2) { acq(o); return 0; } *st = 0x51; }
    try { f(); } catch (...) { RtGuard g; *st = 0; for (int i = 0; i < nthreads; i++) if (threads[i]->st == BLOCKED && threads[i]->wait_obj == o) wake_thread(threads[i]); throw; }
    RtGuard g; *st = 2; rel(o); for (int i = 0; i < nthreads; i++) if (threads[i]->st == BLOCKED && threads[i]->wait_obj == o) wake_thread(threads[i]); return 0;
}
// rwlocks
static int rw_lock(pthread_rwlock_t* p, bool w, bool tryl) {
    pt_sync(15, p); RtGuard g; Mtx* m = mtx(p);
    while (w ? (m->owner || m->readers) : m->owner != nullptr) { if (tryl) return EBUSY; block(WHY_RW, p); }
    if (w) m->owner = self; else m->readers++;
    acq(p); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* p) { if (!on()) { REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*); return r(p); } return rw_lock(p, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* p) { if (!on()) { REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*); return r(p); } return rw_lock(p, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) { if (!on()) { REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*); return r(p); } return rw_lock(p, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) { if (!on()) { REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*); return r(p); } return rw_lock(p, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* p) { if (!on()) { REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*); return r(p); } { RtGuard g; Mtx* m = mtx(p); if (m->owner == self) m->owner = nullptr; else if (m->readers > 0) m->readers--; rel(p); wake_all(p, WHY_RW); } pt_sync(15, p); return 0; }
// spin locks and semaphores
int pthread_spin_lock(pthread_spinlock_t* p) { if (!on()) { REAL(int, pthread_spin_lock, pthread_spinlock_t*); return r(p); } return rw_lock((pthread_rwlock_t*)p, true, false); }
int pthread_spin_unlock(pthread_spinlock_t* p) { if (!on()) { REAL(int, pthread_spin_unlock, pthread_spinlock_t*); return r(p); } return pthread_rwlock_unlock((pthread_rwlock_t*)p); }
int sem_wait(sem_t* s) { if (!on()) { REAL(int, sem_wait, sem_t*); return r(s); } pt_sync(16, s); RtGuard g; unsigned* v = (unsigned*)s; while (*v == 0) block("semaphore", s); (*v)--; acq(s); return 0; }
int sem_post(sem_t* s) { if (!on()) { REAL(int, sem_post, sem_t*); return r(s); } { RtGuard g; (*(unsigned*)s)++; rel(s); for (int i = 0; i < nthreads; i++) if (threads[i]->st == BLOCKED && threads[i]->wait_obj == s) wake_thread(threads[i]); } pt_sync(16, s); return 0; }
// futexes of libstdc++ (futures, atomic waits)
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && on()) {
        int* w = (int*)a[0]; int op = (int)a[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            pt_sync(17, w); RtGuard g; if (*(volatile int*)w != (int)a[2]) { errno = EAGAIN; return -1; }
            u64 dl = ~0ull; if (a[3]) { auto* ts = (const struct timespec*)a[3]; dl = op == FUTEX_WAIT ? g_now + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec : to_deadline(ts, (a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC); }
            block("futex", w, dl); acq(w); if (self->timedout) { errno = ETIMEDOUT; return -1; } return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long k = 0; { RtGuard g; rel(w); for (int i = 0; i < nthreads && k < (int)a[2]; i++) if (threads[i]->st == BLOCKED && threads[i]->wait_obj == w) { wake_thread(threads[i]); k++; } }
            pt_sync(17, w); return k;
        }
    }
    long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r;
}
int sched_yield() { if (!on()) return (int)syscall(SYS_sched_yield); yield_now(); return 0; }
static void sim_sleep(u64 ns) { RtGuard g; static int o; block("sleep", &o, g_now + ns); }
int nanosleep(const struct timespec* ts, struct timespec*) { if (!on()) return (int)syscall(SYS_nanosleep, ts, nullptr); sim_sleep((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec* rem) { if (!on()) return (int)syscall(SYS_clock_nanosleep, c, fl, ts, rem); if (fl & TIMER_ABSTIME) { u64 d = to_deadline(ts, c); sim_sleep(d - g_now); } else sim_sleep((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec); return 0; }
int usleep(useconds_t us) { if (!on()) { struct timespec ts{ (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return (int)syscall(SYS_nanosleep, &ts, nullptr); } sim_sleep((u64)us * 1000); return 0; }

// ---- clocks
static void clock_touch() { T* t = self; if (!t) return; g_now += sched.tick_ns + 7; u64 p; if (!t->quiet) { RtGuard g; if (fault(F_CLOCK_JUMP, &p)) { static const long j[] = { 1000, -1000, 60000, -60000, 7200000, -7200000, 500, -500, 86400000, -86400000 }; wall_offset += (u64)(j[p % 10] * 1000000ll); } } }
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!on()) return (int)syscall(SYS_clock_gettime, c, ts);
    clock_touch();
    u64 v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) ? wall_ns() : now_ns();
    ts->tv_sec = v / 1000000000ull; ts->tv_nsec = v % 1000000000ull; return 0;
}
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; if (!on()) { syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); } else { clock_touch(); u64 v = wall_ns(); ts.tv_sec = v / 1000000000ull; ts.tv_nsec = v % 1000000000ull; } if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
time_t time(time_t* t) { struct timespec ts; if (!on()) syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); else { clock_touch(); ts.tv_sec = wall_ns() / 1000000000ull; } if (t) *t = ts.tv_sec; return ts.tv_sec; }
clock_t clock() { if (!on()) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; } clock_touch(); return (clock_t)(now_ns() / 1000); }
double omp_get_wtime() { if (!on()) return 0; clock_touch(); return now_ns() * 1e-9; }
double omp_get_wtick() { return 1e-9; }
int get_nprocs() { return hw_threads; }

// ---- OpenMP entry points
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { omp_parallel(fn, d, n, nullptr); }
#define PLOOP(name, st) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, long ch, unsigned) { WS w; w.init = true; w.start = w.next = s; w.end = e; w.incr = inc; w.chunk = ch; w.up = inc > 0; w.stat = st; omp_parallel_pre(fn, d, n, &w); }
static void omp_parallel_pre(void (*fn)(void*), void* d, unsigned n, WS* w) {
    struct Ctx { void (*fn)(void*); void* d; } c{ fn, d };
    omp_parallel([](void* p) { Ctx* c = (Ctx*)p; self->ws = &self->team->ws[0]; self->ws_idx = 1; c->fn(c->d); }, &c, n, w);
}
PLOOP(static, true) PLOOP(dynamic, false) PLOOP(guided, false) PLOOP(nonmonotonic_dynamic, false) PLOOP(nonmonotonic_guided, false)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned) { WS w; w.init = true; w.start = w.next = s; w.end = e; w.incr = inc; w.chunk = 1; w.up = inc > 0; omp_parallel_pre(fn, d, n, &w); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned f) { GOMP_parallel_loop_runtime(fn, d, n, s, e, inc, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc, unsigned f) { GOMP_parallel_loop_runtime(fn, d, n, s, e, inc, f); }
#define LOOP(name, st) bool GOMP_loop_##name##_start(long s, long e, long inc, long ch, long* is, long* ie) { return ws_start(s, e, inc, ch, is, ie, st); } bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next(is, ie); }
LOOP(static, true) LOOP(dynamic, false) LOOP(guided, false) LOOP(nonmonotonic_dynamic, false) LOOP(nonmonotonic_guided, false)
bool GOMP_loop_runtime_start(long s, long e, long inc, long* is, long* ie) { return ws_start(s, e, inc, 1, is, ie, false); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return ws_next(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long inc, long* is, long* ie) { return ws_start(s, e, inc, 1, is, ie, false); }
bool GOMP_loop_nonmonotonic_runtime_next(long* is, long* ie) { return ws_next(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long inc, long* is, long* ie) { return ws_start(s, e, inc, 1, is, ie, false); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return ws_next(is, ie); }
bool GOMP_loop_start(long s, long e, long inc, long sc, long ch, long* is, long* ie, uintptr_t*, void**) { return ws_start(s, e, inc, ch, is, ie, (sc & 0x7fffffff) == 1); }
#define ULOOP(name, st) bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long ch, unsigned long long* is, unsigned long long* ie) { return ws_start((long)s, (long)e, (long)inc, (long)ch, (long*)is, (long*)ie, st); } bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return ws_next((long*)is, (long*)ie); }
ULOOP(static, true) ULOOP(dynamic, false) ULOOP(guided, false) ULOOP(nonmonotonic_dynamic, false) ULOOP(nonmonotonic_guided, false)
bool GOMP_loop_ull_runtime_start(bool, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long* is, unsigned long long* ie) { return ws_start((long)s, (long)e, (long)inc, 1, (long*)is, (long*)ie, false); }
bool GOMP_loop_ull_runtime_next(unsigned long long* is, unsigned long long* ie) { return ws_next((long*)is, (long*)ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool u, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long* is, unsigned long long* ie) { return GOMP_loop_ull_runtime_start(u, s, e, inc, is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long long* is, unsigned long long* ie) { return ws_next((long*)is, (long*)ie); }
void GOMP_loop_end() { omp_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { omp_barrier(); return false; }
void GOMP_barrier() { omp_barrier(); }
bool GOMP_barrier_cancel() { omp_barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
static pthread_mutex_t omp_crit = PTHREAD_MUTEX_INITIALIZER, omp_atom = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start() { if (on()) pthread_mutex_lock(&omp_crit); }
void GOMP_critical_end() { if (on()) pthread_mutex_unlock(&omp_crit); }
void GOMP_critical_name_start(void** p) { if (on()) pthread_mutex_lock((pthread_mutex_t*)p); }
void GOMP_critical_name_end(void** p) { if (on()) pthread_mutex_unlock((pthread_mutex_t*)p); }
void GOMP_atomic_start() { if (on()) pthread_mutex_lock(&omp_atom); }
void GOMP_atomic_end() { if (on()) pthread_mutex_unlock(&omp_atom); }
bool GOMP_single_start() { T* t = self; if (!on() || !t->team || t->team->n <= 1) return true; pt_sync(17, t->team); RtGuard g; u64 i = t->single_idx++; if (t->team->single.size() <= i) t->team->single.resize(i + 1); if (t->team->single[i]) return false; t->team->single[i] = 1; return true; }
void GOMP_ordered_start() {} void GOMP_ordered_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) { if (cpy) { std::vector<char> b(sz + al); char* p = (char*)(((uintptr_t)b.data() + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, data); fn(p); } else fn(data); }
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
unsigned GOMP_sections_start(unsigned n) { long a, b; if (!ws_start(1, (long)n + 1, 1, 1, &a, &b, false)) return 0; return (unsigned)a; }
unsigned GOMP_sections_next() { long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { omp_barrier(); } void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { WS w; w.init = true; w.start = w.next = 1; w.end = (long)cnt + 1; w.incr = 1; w.chunk = 1; omp_parallel_pre(fn, d, n, &w); }
int omp_get_thread_num() { return on() && self->team ? self->team_tid : 0; }
int omp_get_num_threads() { return on() && self->team ? self->team->n : 1; }
int omp_get_max_threads() { return on() && self->nth > 0 ? self->nth : std::max(1, hw_threads); }
void omp_set_num_threads(int n) { if (n > 0 && active && self) self->nth = n; }
int omp_in_parallel() { return on() && self->team && self->team->n > 1; }
int omp_get_num_procs() { return std::max(1, hw_threads); }
void omp_set_dynamic(int d) { omp_dyn = d; } int omp_get_dynamic() { return omp_dyn; }
void omp_set_nested(int n) { omp_nested = n ? 8 : 1; } int omp_get_nested() { return omp_nested > 1; }
void omp_set_max_active_levels(int n) { omp_nested = n; } int omp_get_max_active_levels() { return omp_nested; }
int omp_get_level() { int n = 0; if (on()) for (Team* t = self->team; t; t = t->parent) n++; return n; }
int omp_get_active_level() { int n = 0; if (on()) for (Team* t = self->team; t; t = t->parent) n += t->n > 1; return n; }
int omp_get_thread_limit() { return 1 << 20; }
void omp_init_lock(void* l) { memset(l, 0, 4); } void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { if (on()) rw_lock((pthread_rwlock_t*)l, true, false); }
void omp_unset_lock(void* l) { if (on()) pthread_rwlock_unlock((pthread_rwlock_t*)l); }
int omp_test_lock(void* l) { return on() ? rw_lock((pthread_rwlock_t*)l, true, true) == 0 : 1; }

// ---- heap
struct Hdr { u64 magic_size; void* base; };
static const u64 MAGIC = 0x51CAull << 48;
static size_t live_q = 0; static std::deque<std::pair<void*, size_t>>* quarantine;
static char *heap_at = nullptr, *heap_end = nullptr; static int heap_fill = 0;
static char* run_heap(size_t n) {
    if (!heap_at) { void* m = mmap((void*)0x280000000000ull, 3ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (m == MAP_FAILED) { heap_at = heap_end = (char*)16; return nullptr; } heap_at = (char*)m; heap_end = heap_at + (3ull << 30); heap_fill = mix(spec.seed, 0xF111) & 1 ? 0xCB : 0; }
    n = (n + 15) & ~(size_t)15; if (n > (size_t)(heap_end - heap_at)) return nullptr; char* p = heap_at; heap_at += n; return p;
}
static void* h_alloc(size_t n, size_t al) {
    if (al < 16) al = 16;
    T* t = self;
    // a run's memory lies at addresses of its own, so that neither addresses nor what fresh memory contains depend on what the process did before
    char* base = active && t ? run_heap(n + al + 16 + 32) : nullptr; bool own = base;
    if (!base) base = (char*)__libc_malloc(n + al + 16 + 32);
    if (!base) return nullptr;
    char* p = (char*)(((uintptr_t)base + sizeof(Hdr) + al - 1) & ~(uintptr_t)(al - 1));
    Hdr* h = (Hdr*)p - 1; h->magic_size = MAGIC | n; h->base = own ? nullptr : base;
    if (own && heap_fill && n <= 65536) memset(p, heap_fill, n);
    if (active && t && (spec.mem || spec.race)) {
        set_state((uintptr_t)p, n, ST_OK);
        if (spec.mem) {
            uintptr_t e = (uintptr_t)p + n;
            if (e & 7) { leaf(e, true)->st[(e >> 3) & 511] = (u8)(e & 7); e = (e + 8) & ~(uintptr_t)7; }
            set_state(e, 16, ST_RZ); set_state((uintptr_t)h, 16, ST_RZ);
        }
    }
    return p;
}
static void h_free(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
    if ((h->magic_size >> 48) != 0x51CA) {
        if (active && self && (h->magic_size >> 48) == 0xDEAD) violate("double-free", "memory freed twice");
        __libc_free(p); return;
    }
    size_t n = h->magic_size & 0xffffffffffffull;
    if (active && self && (spec.mem || spec.race)) {
        h->magic_size = (0xDEADull << 48) | n;
        set_state((uintptr_t)p, n, ST_FREED);
        if (n <= 65536) memset(p, 0xDD, n);
        live_q += n;
        // freed blocks stay poisoned for the rest of the run; very large runs recycle the oldest ones
        if (h->base && live_q > (size_t)1500 << 20) { /* stop quarantining */ set_state((uintptr_t)p, n, ST_OK); void* b = h->base; __libc_free(b); live_q -= n; }
        return;
    }
    void* b = h->base; h->magic_size = 0; if (b) __libc_free(b);
}
static size_t h_size(void* p) { Hdr* h = (Hdr*)p - 1; return (h->magic_size >> 48) == 0x51CA ? h->magic_size & 0xffffffffffffull : 0; }
void* malloc(size_t n) { return h_alloc(n, 16); }
void free(void* p) { h_free(p); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = h_alloc(n, 16); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!n) { free(p); return nullptr; } size_t o = h_size(p); void* q = malloc(n); if (!q) return nullptr; memcpy(q, p, std::min(o, n)); free(p); return q; }
void* memalign(size_t a, size_t n) { return h_alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) { return h_alloc(n, a); }
int posix_memalign(void** r, size_t a, size_t n) { *r = h_alloc(n, a); return *r ? 0 : ENOMEM; }
void* valloc(size_t n) { return h_alloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? h_size(p) : 0; }
} // extern "C"

void* operator new(size_t n) {
    if (alloc_faults_on && active && self && !self->quiet && !self->in_rt) { RtGuard g; if (fault(F_ALLOC)) throw std::bad_alloc(); }
    if (n > (size_t)8 << 30) throw std::bad_alloc();
    void* p = h_alloc(n ? n : 1, 16); if (!p) throw std::bad_alloc(); return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return h_alloc(n ? n : 1, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return h_alloc(n ? n : 1, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = h_alloc(n ? n : 1, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { h_free(p); }
void operator delete[](void* p) noexcept { h_free(p); }
void operator delete(void* p, size_t) noexcept { h_free(p); }
void operator delete[](void* p, size_t) noexcept { h_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { h_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { h_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { h_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { h_free(p); }

// ---- C++ library seams
unsigned int std::thread::hardware_concurrency() noexcept { if (active && self) { sim::RtGuard g; if (fault(F_HWC_ZERO)) return 0; } return (unsigned)hw_threads; }
std::random_device::result_type std::random_device::_M_getval() {
    static sim::Rng r; static bool init = false; if (!init) { r.seed(mix(spec.seed, 0x44)); init = true; } return (result_type)(r.next() >> 32);
}
