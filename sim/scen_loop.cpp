// P01-P05: parallel loops, failures, progress reports, schedulers, time limits.
#include "scen.h"
#include <lm/lm.h>
#include <lm/progresscontext.h>
#include <lm/scheduler.h>
#include <lm/timer.h>
using namespace sim;
using lm::Json;

namespace {
struct BodyError { int id; };
struct Err1 : std::runtime_error { int id; Err1(int i) : std::runtime_error("body failure " + std::to_string(i)), id(i) {} };

// What a loop's callbacks have been seen doing
struct Loop {
    long long n = 0; int workers = 0; std::string what;
    std::vector<int> cnt; std::vector<char> busy; std::vector<int> tid_of; int active = 0; long long started = 0, completed = 0; bool returned = false;
    long long last_prog = 0; bool in_prog = false; u64 prog_calls = 0; bool check_prog = false, prog_given = false;
    bool failing = false; std::set<int> thrown; int hold_tid = -1; std::vector<int> after; int next_err = 0; u64 held = 0;
    int pick_type = 0; int cost = 2; u64 adv = 0;
    bool nested = false; int w0_tid = -1; long long w0_done = 0, w0_completed = 0, interval = 0; u64 w0_end = 0, first = 0;
    Loop(long long n_, int w) : n(n_), workers(w), cnt((size_t)std::max<long long>(n_, 0)), busy(w), tid_of(w, -1), after(w) {}
    [[noreturn]] void fail(int type) {
        int id = next_err++; thrown.insert(id);
        event(0x7A0, id, type);
        if (hold_tid < 0) { hold_tid = self_tid(); hold(600); held++; }
        switch (type) { case 0: throw Err1(id); case 1: throw BodyError{ id }; case 2: throw std::string("string error " + std::to_string(id)); case 3: throw 1000 + id; default: throw lm::Exception(lm::Error::IOError, "file" + std::to_string(id), id, "lm failure"); }
    }
    void body(long long i, int w) {
        Quiet q;
        CHECK(!returned, "late-invocation", "%s: iteration %lld invoked after the loop returned", what.c_str(), i);
        CHECK(i >= 0 && i < n, "bad-index", "%s: iteration %lld outside 0..%lld", what.c_str(), i, n - 1);
        CHECK(w >= 0 && w < workers, "bad-worker-id", "%s: worker id %d with %d workers", what.c_str(), w, workers);
        CHECK(!busy[w], "shared-worker-id", "%s: worker id %d used by two overlapping invocations", what.c_str(), w);
        CHECK(++cnt[i] == 1, "duplicate-iteration", "%s: iteration %lld run twice", what.c_str(), i);
        if (hold_tid >= 0 && !holding(hold_tid)) CHECK(++after[w] <= 1, "runs-after-failure", "%s: worker %d started %d iterations after the failure was recorded", what.c_str(), w, after[w]);
        bool mt = lib([&] { return lm::parallel::main_thread(); });
        if (!nested) CHECK(mt == (w == 0), "main-thread", "%s: main_thread()=%d inside worker %d", what.c_str(), mt, w);
        busy[w] = 1; active++; if (!started++) first = now_ns(); event(0xB0, i, w);
        struct End { Loop& l; int w; ~End() { l.busy[w] = 0; l.active--; event(0xB1, w); } } e{ *this, w };
        u64 pv; bool f = failing && fault(F_CB_THROW, &pv);
        int k = f ? (int)(pv >> 8) % (cost + 1) : cost;
        for (int j = 0; j < k; j++) point();
        if (adv) advance_ns(adv);
        if (f) fail((int)(pv % 5));
        completed++; if (w == 0) { w0_done++; w0_completed = completed; w0_end = now_ns(); }
    }
    void progress(long long v) {
        Quiet q;
        CHECK(!returned, "late-progress", "%s: progress reported after the loop returned", what.c_str());
        CHECK(!in_prog, "concurrent-progress", "%s: progress callback entered by two threads at once", what.c_str());
        in_prog = true; prog_calls++; event(0xC0, v);
        if (check_prog) {
            CHECK(v >= 0 && v <= n, "progress-range", "%s: progress %lld outside 0..%lld", what.c_str(), v, n);
            CHECK(v <= completed, "progress-ahead", "%s: progress %lld but only %lld iterations are complete", what.c_str(), v, completed);
            CHECK(v >= last_prog, "progress-decreases", "%s: progress %lld after %lld", what.c_str(), v, last_prog);
            // worker 0 reports after each of its iterations; each worker holds back at most one update interval
            CHECK((long long)prog_calls == w0_done, "progress-missing", "%s: %llu progress reports after %lld iterations of worker 0", what.c_str(), (unsigned long long)prog_calls, w0_done);
            if (interval) CHECK(v >= w0_completed - workers * interval, "progress-behind", "%s: progress %lld with %lld iterations complete (%d workers, interval %lld)", what.c_str(), v, w0_completed, workers, interval);
        }
        last_prog = v; point();
        struct End { Loop& l; ~End() { l.in_prog = false; } } e{ *this };
        u64 pv; if (failing && fault(F_CB_THROW, &pv)) fail((int)(pv % 5));
    }
    // runs f (which runs the loop) and checks the outcome; returns whether it failed
    template <class F> bool drive(F&& f) {
        int got = -1; bool threw = false; std::string txt;
        try { lib(f); }
        catch (Err1& e) { threw = true; got = e.id; txt = e.what(); CHECK(txt == "body failure " + std::to_string(got), "exception-altered", "%s: message '%s'", what.c_str(), txt.c_str()); }
        catch (BodyError& e) { threw = true; got = e.id; }
        catch (std::string& s) { threw = true; got = atoi(s.c_str() + 13); CHECK(s == "string error " + std::to_string(got), "exception-altered", "%s: message '%s'", what.c_str(), s.c_str()); }
        catch (int i) { threw = true; got = i - 1000; }
        catch (lm::Exception& e) { threw = true; txt = e.what(); auto p = txt.find("file"); got = p == std::string::npos ? -1 : atoi(txt.c_str() + p + 4); }
        catch (std::exception& e) { threw = true; txt = e.what(); }
        returned = true;
        CHECK(active == 0, "still-running", "%s: %d invocations still running when the loop %s", what.c_str(), active, threw ? "threw" : "returned");
        if (check_prog && !threw && prog_given) CHECK((long long)prog_calls == w0_done, "progress-missing", "%s: %llu progress reports after %lld iterations of worker 0", what.c_str(), (unsigned long long)prog_calls, w0_done);
        if (threw) CHECK(thrown.count(got), "foreign-exception", "%s: the loop threw something no invocation threw (id %d, %s)", what.c_str(), got, txt.c_str());
        else {
            CHECK(thrown.empty(), "exception-lost", "%s: %zu invocations threw but the loop returned normally", what.c_str(), thrown.size());
            for (long long i = 0; i < n; i++) CHECK(cnt[i] == 1, "missing-iteration", "%s: iteration %lld of %lld run %d times", what.c_str(), i, n, cnt[i]);
        }
        return threw;
    }
};

long long cur_interval = 0;
int init_parallel(Json* used = nullptr) {
    hw_threads = (int)W().range(1, 5);
    if (W().chance(.1)) enable(F_HWC_ZERO, 1.0);
    int hw = hw_threads;
    Json p = Json::object(); int req = 0; bool has = false;
    int k = (int)W().below(10);
    if (k < 7) { req = (int)W().range(1, 5); if (W().chance(.03)) req = (int)W().range(9, 36); has = true; } else if (k < 9) { req = -(int)W().range(0, 7); has = true; }
    if (has) p["num_threads"] = req;
    if (W().chance(.8)) p["progress_update_interval"] = (long long)W().pick(std::vector<long>{ 1, 1, 2, 3, 5, 10, 100 });
    u64 z0 = shm->r.faults[F_HWC_ZERO];
    lib([&] { lm::parallel::init("openmp", p); });
    bool zero = shm->r.faults[F_HWC_ZERO] > z0; if (zero) hw = 0;
    int expect = !has ? hw : req > 0 ? req : hw + req; if (expect < 1) expect = 1;
    int n = lib([&] { return lm::parallel::num_threads(); });
    describe(fmtv("workers=%d(%s,hw=%d)", n, p.dump().c_str(), hw));
    CHECK(n == expect, "worker-count", "num_threads()=%d, expected %d for %s on %d hardware threads", n, expect, p.dump().c_str(), hw);
    if (W().chance(.02)) {   // counts that are not run here
        int big = (int)W().range(60, 5000); lib([&] { lm::parallel::init("openmp", Json{ {"num_threads", big} }); }); int g = lib([&] { return lm::parallel::num_threads(); }); CHECK(g == big, "worker-count", "num_threads()=%d for %d requested workers", g, big); lib([&] { lm::parallel::init("openmp", p); }); n = lib([&] { return lm::parallel::num_threads(); }); probe("many_workers"); }
    if (used) *used = p;
    cur_interval = p.count("progress_update_interval") ? (long long)p["progress_update_interval"] : 0;
    return n;
}
long long pick_n() { switch (W().below(6)) { case 0: return 0; case 1: return 1; case 2: return W().range(2, 4); case 3: return W().range(2, 12); case 4: return W().range(5, 30); default: return W().range(20, 80); } }
void loop_faults() { if (W().chance(.25)) enable(F_TEAM_SIZE, .3); if (W().chance(.3)) enable(F_STALL, .05); if (W().chance(.3)) enable(F_SPURIOUS_WAKE, .2); }
}

// Counts beyond 32 bits. The simulated OpenMP runtime fast-forwards over the middle of the loop: its first and last
// few iterations are run. Loops that are not distributed by the OpenMP runtime cannot be judged this way.
namespace {
struct Long {
    long long n; int k; Long(long long n_, int k_) : n(n_), k(k_) { omp_skip_lo[0] = k; omp_skip_hi[0] = n - k; } void stop(long long at) { for (int i = 0; i < 3; i++) if (omp_skip_lo[i] + 2 * k < at && at < omp_skip_hi[i] - 2 * k) { omp_skip_hi[i + 1] = omp_skip_hi[i]; omp_skip_lo[i + 1] = at + k; omp_skip_hi[i] = at - k; stops++; return; } } ~Long() { for (int i = 0; i < 4; i++) omp_skip_lo[i] = omp_skip_hi[i] = 0; }
    int stops = 0;   // further places around which k iterations on both sides are run (in increasing order)
    int expected() const { return 2 * k * (1 + stops); }
    static long long size(u64 z, int a) { static const long long b[] = { 1ll << 31, 1ll << 32, 3ll << 31, 1ll << 33, 1ll << 40 }; return b[z % 5] + a; }
};
void long_loop(int w, int cost, bool prog) {
    int a = (int)W().below(30); long long n = Long::size(W().next(), a); Long l(n, 3 + (int)W().below(12)); std::map<long long, int> cnt; std::vector<char> busy(w); bool returned = false; describe(fmtv("n=%lld (fast-forwarded)", n)); probe("long_loops");
    lib([&] { auto body = [&](long long i, int t) { Quiet q; CHECK(!returned, "late-invocation", "iteration %lld invoked after the loop returned", i); CHECK(i >= 0 && i < n, "bad-index", "iteration %lld outside 0..%lld", i, n - 1); if (i >= l.k && i < n - l.k) { probe("long_loop_undecided"); finish_run(); } CHECK(t >= 0 && t < w && !busy[t], "bad-worker-id", "worker id %d with %d workers is invalid or shared", t, w); busy[t] = 1; CHECK(++cnt[i] == 1, "duplicate-iteration", "iteration %lld of %lld run twice", i, n); for (int j = 0; j < cost; j++) point(); busy[t] = 0; };
        if (prog) lm::parallel::foreach(n, body, [&](long long v) { Quiet q; CHECK(v >= 0 && v <= (long long)cnt.size(), "progress-ahead", "progress %lld after %zu iterations", v, cnt.size()); }); else lm::parallel::foreach(n, body); });
    returned = true; CHECK((int)cnt.size() == 2 * l.k, "missing-iteration", "a loop of %lld iterations ran %zu of its first and last %d", n, cnt.size(), l.k);
}
}
// ------------------------------------------------------------------------------------------------ P01
SCENARIO(P01, false) {
    randomize_sched(600); loop_faults();
    int w = init_parallel(); int nops = (int)W().range(1, 5); long long total = 0;
    for (int o = 0; o < nops; o++) {
        long long n = pick_n(); int hk = (int)W().below(10); if (w > 5 && hk == 9) hk = 0; bool re = W().chance(.2); int cost = (int)W().below(4); bool prog = W().chance(.5); int host = hk < 6 ? 0 : hk < 9 ? 1 : 2; bool nest = W().chance(.1);
        if (!op_enabled(o)) continue;
        if (re) { if (W().chance(.3)) lib([] { lm::parallel::shutdown(); }); w = init_parallel(); if (w > 5) host = std::min(host, 1); }
        if (W().chance(.05)) { long_loop(w, cost, prog); continue; }
        if (W().chance(.012)) { n = W().chance(.5) ? W().range(300, 3000) : W().range(3000, 12000); cost = 0; probe("large_loops"); }
        describe(fmtv("n=%lld host=%d%s", n, host, nest ? " nested" : ""));
        auto run = [&](int h) {
            Loop l(n, w); l.what = fmtv("loop %d.%d (n=%lld)", o, h, n); l.cost = cost;
            auto body = [&](long long i, int t) {
                l.body(i, t);
                if (nest && i == 0) { Quiet q; Loop in(3, w); in.what = "loop nested in " + l.what; in.cost = 1; in.nested = true; in.drive([&] { lm::parallel::foreach(3, [&](long long i, int t) { in.body(i, t); }); }); }
            };
            l.drive([&] { if (prog) lm::parallel::foreach(n, body, [&](long long v) { l.progress(v); }); else lm::parallel::foreach(n, body); });
        };
        // loops are issued by the initialising thread, by another host thread, or by several host threads at once
        if (host == 0) run(0);
        else { std::vector<int> tids; for (int h = 1; h <= host; h++) tids.push_back(spawn([&, h] { run(h); })); if (host > 1 && W().chance(.5)) run(0); for (int t : tids) join(t); probe(host == 1 ? "other_host_thread" : "concurrent_loops"); }
        total += n; if (n > 1 && w > 1) nontrivial();
        if (n < w) probe("fewer_samples_than_workers"); if (n == 0) probe("empty_loop");
    }
    probe("iterations", total);
}

// ------------------------------------------------------------------------------------------------ P02
SCENARIO(P02, false) {
    randomize_sched(600); loop_faults();
    int w = init_parallel(); int nops = (int)W().range(2, 5);
    for (int o = 0; o < nops; o++) {
        long long n = W().chance(.2) ? pick_n() : W().range(1, 60); int cost = (int)W().below(5); bool fl = W().chance(.7); bool re = W().chance(.1);
        static const double rates[] = { .02, .05, .1, .3, 1.0 }; double rate = rates[W().below(5)]; bool one = W().chance(.4); bool prog = W().chance(.5);
        if (!op_enabled(o)) continue;
        if (re) w = init_parallel();
        if (fl) enable(F_CB_THROW, rate, one ? 1 : ~0ull); else enable(F_CB_THROW, 0);
        bool other = W().chance(.25), beside = W().chance(.12), nest = W().chance(.12); long long bn = W().range(1, 25); u64 nmask = W().next();
        if (w > 5) beside = nest = false;
        Loop l(n, w); l.what = fmtv("loop %d (n=%lld)", o, n); l.cost = cost; l.failing = fl; l.check_prog = true; describe(fmtv("n=%lld throw=%.2f%s", n, fl ? rate : 0., other ? " on another thread" : ""));
        // iterations may run loops of their own, whose failures they handle themselves
        auto body = [&](long long i, int t) {
            if (nest && nmask >> (i & 63) & 1) { Quiet q; Loop in(1 + i % 3, w); in.what = "loop nested in " + l.what; in.cost = 1; in.nested = true; in.failing = fl && (nmask >> 7 & 1); probe("nested_loops"); in.drive([&] { lm::parallel::foreach(in.n, [&](long long i, int t) { in.body(i, t); }); }); if (in.hold_tid >= 0) probe("nested_failures"); }
            l.body(i, t);
        };
        bool t = false; auto go = [&] { t = l.drive([&] { if (prog) lm::parallel::foreach(n, body, [&](long long v) { l.progress(v); }); else lm::parallel::foreach(n, body); }); };
        // a loop issued by another thread at the same time is not affected by the failure
        int bt = -1; if (beside) { bt = spawn([&] { Loop b(bn, w); b.what = fmtv("loop beside %s", l.what.c_str()); b.cost = 2; bool th = b.drive([&] { lm::parallel::foreach(bn, [&](long long i, int t) { b.body(i, t); }); }); CHECK(!th, "foreign-exception", "%s failed", b.what.c_str()); probe("loops_beside"); }); }
        if (other) join(spawn(go)); else go();
        if (bt >= 0) join(bt);
        if (t) { nontrivial(); probe("loops_failed"); if (l.thrown.size() > 1) probe("several_exceptions"); if (l.started < n) probe("loop_cut_short"); for (int a : l.after) if (a) probe("inflight_after_failure"); }
        else if (o && fl) probe("loop_ok_after_ops");
    }
}

// ------------------------------------------------------------------------------------------------ progress contexts
namespace {
struct Ev { char k; int child; long long v; double t; lm::progress::ProgressMode mode; u64 at; };
struct Session { bool open = false; long long total = 0; double total_time = 0; bool time = false; long long last = 0; double last_t = 0; int opened = 0, closed = 0; };
std::vector<Ev>* evs; int rec_live = 0; int rec_made = 0;
struct RecProgress final : public lm::progress::ProgressContext {
    int id = 0; bool busy = false;
    RecProgress() { rec_live++; rec_made++; } ~RecProgress() { rec_live--; }
    void construct(const Json& p) override { Quiet q; id = p.is_object() && p.count("id") ? (int)p["id"] : 0; }
    void enter() { CHECK(!busy, "concurrent-progress", "reporter %d entered by two threads at once", id); busy = true; point(); busy = false; }
    void start(lm::progress::ProgressMode m, long long t, double tt) override { Quiet q; enter(); evs->push_back({ 's', id, t, tt, m, now_ns() }); event(0xD0, id, t); }
    void update(long long v) override { Quiet q; enter(); evs->push_back({ 'u', id, v, 0, {}, now_ns() }); event(0xD1, id, v); }
    void update_time(lm::Float t) override { Quiet q; enter(); evs->push_back({ 't', id, 0, t, {}, now_ns() }); event(0xD2, id); }
    void end() override { Quiet q; enter(); evs->push_back({ 'e', id, 0, 0, {}, now_ns() }); event(0xD3, id); }
};
LM_COMP_REG_IMPL(RecProgress, "progress::rec");
// bracket and monotonicity of one reporter's events; returns number of sessions
int check_sessions(int id, long long n, bool samples, const char* what, bool closed = true) {
    bool open = false; long long last = 0; double lt = 0; int s = 0;
    for (auto& e : *evs) {
        if (e.child != id) continue;
        if (e.k == 's') { CHECK(!open, "progress-bracket", "%s: reporting started twice without an end", what); open = true; last = 0; lt = 0; s++; if (samples) CHECK(e.v == n && e.mode == lm::progress::ProgressMode::Samples, "progress-total", "%s: announced total %lld, expected %lld", what, e.v, n); }
        else if (e.k == 'e') { CHECK(open, "progress-bracket", "%s: end of reporting without a start", what); open = false; }
        else {
            CHECK(open, "progress-bracket", "%s: update outside a reporting session", what);
            if (e.k == 'u') { CHECK(e.v >= 0 && e.v <= n, "progress-range", "%s: reported %lld of %lld", what, e.v, n); CHECK(e.v >= last, "progress-decreases", "%s: reported %lld after %lld", what, e.v, last); last = e.v; }
            else { CHECK(e.t >= 0 && e.t >= lt, "progress-time-decreases", "%s: reported time %g after %g", what, e.t, lt); lt = e.t; }
        }
    }
    if (closed) CHECK(!open, "progress-bracket", "%s: reporting session never ended", what);
    return s;
}
lm::Component::Ptr<lm::Film> make_film(int w, int h) { return lib([&] { return lm::comp::create<lm::Film>("film::bitmap", "", Json{ {"w", w}, {"h", h} }); }); }
struct FilmHolder {   // film reachable by locator, as schedulers refer to it by reference
    FilmHolder(int w, int h) { lib([&] { lm::reset(); lm::load<lm::Film>("film", "film::bitmap", Json{ {"w", w}, {"h", h} }); }); }
};
lm::Component::Ptr<lm::scheduler::Scheduler> make_sched(const std::string& key, const Json& p) { return lib([&] { return lm::comp::create<lm::scheduler::Scheduler>("scheduler::" + key, "", p); }); }
void clock_faults() { if (W().chance(.6)) enable(F_CLOCK_JUMP, W().chance(.5) ? .05 : .5); }
}

// ------------------------------------------------------------------------------------------------ P03
SCENARIO(P03, false) {
    randomize_sched(800); loop_faults(); clock_faults();
    evs = new std::vector<Ev>;
    lib([] { lm::init(); lm::log::init("default"); lm::log::set_severity(1000); });
    int w = init_parallel(); int nops = (int)W().range(2, 6);
    int fw = (int)W().range(1, 5), fh = (int)W().range(1, 4); FilmHolder fh_(fw, fh);
    lib([] { lm::progress::init("rec", {}); });
    for (int o = 0; o < nops; o++) {
        int kind = (int)W().below(10); long long n = W().range(1, 50); long long spp = W().range(1, 4); bool fl = W().chance(.35); int cost = (int)W().below(3); u64 r1 = W().next(); bool re = W().chance(.15);
        if (!op_enabled(o)) continue;
        if (re) w = init_parallel();
        static const double rates[] = { .02, .1, .5 }; enable(F_CB_THROW, fl ? rates[r1 % 3] : 0);
        evs->clear();
        if (kind <= 2) {                 // plain loop with a progress callback
            Loop l(n, w); l.what = fmtv("loop %d (n=%lld)", o, n); l.cost = cost; l.failing = fl; l.check_prog = l.prog_given = true; l.interval = cur_interval; describe(fmtv("loop n=%lld", n));
            l.drive([&] { lm::parallel::foreach(n, [&](long long i, int t) { l.body(i, t); }, [&](long long v) { l.progress(v); }); });
            if (l.prog_calls > 1) nontrivial(); if (l.last_prog > 0) probe("progress_nonzero"); if (l.last_prog == n) probe("progress_reached_total");
        } else if (kind <= 4) {          // sample schedulers through the progress subsystem, possibly wrapped
            bool spi = kind == 4; long long tot = spi ? n : (long long)fw * fh * spp;
            int wrap = (int)((r1 >> 8) % 3); int delay = (int)((r1 >> 16) % 50); std::string what = fmtv("%s scheduler run %d (total %lld)", spi ? "per-image" : "per-pixel", o, tot);
            int base_live = rec_live;
            lib([&] { if (wrap == 0) lm::progress::init("rec", {}); else if (wrap == 1) lm::progress::init("mux", Json::array({ Json{ {"progress::rec", { {"id", 0} }} }, Json{ {"progress::rec", { {"id", 1} }} }, Json{ {"progress::delay", { {"delay", delay}, {"progress", { {"progress::rec", { {"id", 2} }} }} }} } })); else lm::progress::init("delay", { {"delay", delay}, {"progress", { {"progress::rec", { {"id", 0} }} }} }); });
            (void)base_live;
            describe(fmtv("sched spi=%d tot=%lld wrap=%d", spi, tot, wrap));
            Loop l(tot, w); l.what = what; l.cost = cost; l.failing = fl;
            auto s = spi ? make_sched("spi::sample", { {"num_samples", n} }) : make_sched("spp::sample", { {"spp", spp}, {"output", "$.assets.film"} });
            long long ret = -1;
            bool threw = l.drive([&] { ret = s->run([&](long long p, long long sm, int t) { l.body(spi ? sm : p * spp + sm, t); }); });
            if (!threw) CHECK(ret == (spi ? n : spp), "sample-count", "%s: returned %lld", what.c_str(), ret);
            CHECK(check_sessions(0, tot, true, what.c_str()) == 1, "progress-bracket", "%s: expected one reporting session", what.c_str());
            if (wrap < 2 && !threw) { long long u = 0; for (auto& e : *evs) if (e.child == 0 && e.k == 'u') u++; CHECK(u == l.w0_done, "progress-missing", "%s: %lld updates reached the reporter after %lld iterations of worker 0", what.c_str(), u, l.w0_done); }
            if (wrap == 1) {
                check_sessions(1, tot, true, what.c_str()); check_sessions(2, tot, true, what.c_str());
                std::vector<std::pair<char, long long>> a, b; for (auto& e : *evs) { if (e.child == 0) a.push_back({ e.k, e.v }); if (e.child == 1) b.push_back({ e.k, e.v }); }
                CHECK(a == b, "mux-order", "%s: multiplexed reporters received different events (%zu vs %zu)", what.c_str(), a.size(), b.size()); probe("mux_compared");
            }
            s.reset(); nontrivial(); if (threw) probe("failed_session");
        } else if (kind == 7 || kind == 8) {   // time-limited schedulers
            bool spi = kind == 8; long long pass = spi ? 1 + n % 12 : (long long)fw * fh; double limit = std::vector<double>{ 0, .002, .01, .05 }[(r1 >> 8) % 4]; std::string what = fmtv("time-limited %s scheduler run %d (limit %g s, %lld samples per pass)", spi ? "per-image" : "per-pixel", o, limit, pass);
            lib([] { lm::progress::init("rec", {}); }); describe(fmtv("time sched spi=%d pass=%lld limit=%g", spi, pass, limit));
            auto s = spi ? make_sched("spi::time", { {"render_time", limit}, {"samples_per_iter", pass} }) : make_sched("spp::time", { {"render_time", limit}, {"output", "$.assets.film"} });
            Loop l(pass * 64, w); l.what = what; l.cost = cost; l.failing = fl; l.adv = (u64)(std::max(limit, .001) * 1e9) / (1 + (r1 >> 20) % 5) / pass + 1000; std::vector<std::pair<u64, u64>> w0;   // (event count, end of worker 0's body)
            bool threw = l.drive([&] { long long ret = s->run([&](long long p, long long sm, int t) { l.body(spi ? sm : sm * pass + p, t); if (t == 0) { Quiet q; size_t c = 0; for (auto& e : *evs) c += e.k == 't'; CHECK((long long)c + 1 == l.w0_done, "progress-missing", "%s: %zu reports of elapsed time before the end of iteration %lld of worker 0", what.c_str(), c, l.w0_done); w0.push_back({ c, l.w0_end }); } }); l.n = spi ? ret : ret * pass; });
            CHECK(check_sessions(0, 0, false, what.c_str()) == 1, "progress-bracket", "%s: expected one reporting session", what.c_str());
            u64 at0 = 0; size_t k = 0;
            for (auto& e : *evs) {
                if (e.k == 's') { at0 = e.at; CHECK(e.mode == lm::progress::ProgressMode::Time && e.t == limit, "progress-total", "%s: announced %s limit %g", what.c_str(), e.mode == lm::progress::ProgressMode::Time ? "time" : "sample", e.t); }
                CHECK(e.k != 'u', "progress-mode", "%s: sample count reported in a time session", what.c_str());
                if (e.k == 't') { double hi = (e.at - at0) * 1e-9; CHECK(e.t <= hi + 1e-9, "progress-time", "%s: reported elapsed time %g s after %g s", what.c_str(), e.t, hi); CHECK(k < w0.size(), "progress-missing", "%s: more reports than iterations of worker 0", what.c_str()); double lo = ((double)w0[k].second - (double)l.first) * 1e-9; CHECK(e.t >= lo - .001 - 1e-9, "progress-time", "%s: reported elapsed time %g s, at least %g s had passed", what.c_str(), e.t, lo); k++; }
            }
            if (!threw) CHECK(k == w0.size(), "progress-missing", "%s: %zu reports for %zu iterations of worker 0", what.c_str(), k, w0.size());
            s.reset(); if (k > 1) nontrivial(); if (threw) probe("failed_time_session"); probe("time_sessions");
        } else if (kind == 9) {          // the console reporter
            bool tm = r1 & 1; bool nest = (r1 >> 1) & 1; describe(fmtv("console time=%d nest=%d", tm, nest)); int m = 3 + (int)((r1 >> 20) % 10); int sess = 1 + (int)((r1 >> 30) % 2);
            capture_stdout();
            lib([&] { lm::log::init("default", { {"color", false}, {"show_line_and_filename", false} }); if (nest) lm::progress::init("mux", Json::array({ Json{ {"progress::default", Json::object()} }, Json{ {"progress::rec", { {"id", 3} }} } })); else lm::progress::init("default", {}); });
            std::string out = captured();
            auto grab = [&] { std::string a = captured(); std::string d = a.substr(out.size()); out = a; return d; };
            for (int q = 0; q < sess; q++) {
                long long total = 1 + (long long)((r1 >> 12) % 5000); double limit = 1 + (r1 >> 12) % 60; bool t2 = tm ^ (q & 1);
                u64 lo0 = now_ns(); lib([&] { lm::progress::start(t2 ? lm::progress::ProgressMode::Time : lm::progress::ProgressMode::Samples, t2 ? -1 : total, t2 ? limit : -1.); }); u64 last_lo = lo0, last_hi = now_ns(); long long v = 0; double tv = 0; grab();
                for (int j = 0; j < m; j++) {
                    u64 g = mix(r1, j * 2 + q); u64 ms = (g % 4 == 0) ? 0 : (g % 4 == 1) ? 500 : (g % 4 == 2) ? 502 : (g >> 8) % 1500; advance_ns(ms * 1000000 + (g >> 40) % 900000);
                    v = std::min(total, v + (long long)(g % (1 + (u64)total / 3))); tv = std::min(limit, tv + .25 * (g % 8)); bool other = (g >> 30) % 6 == 0;   // an update of the other mode is not shown
                    u64 b = now_ns(); lib([&] { if (t2 != other) lm::progress::update_time(tv); else lm::progress::update(v); }); u64 a = now_ns(); std::string d = grab();
                    size_t p = d.find("iter="); bool shown = p != std::string::npos; if (other) { CHECK(!shown, "console-mode", "an update of the other mode was shown: '%s'", d.c_str()); continue; }
                    double lo = (b > last_hi ? b - last_hi : 0) * 1e-6, hi = (a - last_lo) * 1e-6;
                    if (shown) { CHECK(hi > 500, "console-early", "update shown %.3f ms after the last one", hi); last_lo = b; last_hi = a; probe("console_shown"); } else CHECK(lo <= 501, "console-withheld", "update withheld %.3f ms after the last shown one", lo);
                    if (shown) { double gv = 0, gt = 0; sscanf(d.c_str() + p, "iter=%lf/%lf", &gv, &gt); double wv = t2 ? tv : (double)v, wt = t2 ? limit : (double)total; CHECK(fabs(gv - wv) < 1e-4 && fabs(gt - wt) < 1e-4, "console-values", "console shows '%s' for %g of %g", d.c_str(), wv, wt); p = d.find("progress="); double pc = -1; if (p != std::string::npos) sscanf(d.c_str() + p, "progress=%lf", &pc); CHECK(fabs(pc - 100 * wv / wt) <= .0501, "console-values", "console shows '%s' for %g of %g", d.c_str(), wv, wt); CHECK(d.find('\n') == std::string::npos, "console-row", "an update ends its row: '%s'", d.c_str()); }
                }
                lib([] { lm::progress::end(); }); std::string d = grab(); CHECK(d.find("completed") != std::string::npos && !d.empty() && d.back() == '\n', "console-end", "end of reporting shown as '%s'", d.c_str());
            }
            release_stdout(); nontrivial();
            lib([] { lm::log::init("default"); lm::log::set_severity(1000); lm::progress::init("rec", {}); });
        } else {                         // delaying and multiplexing reporters driven directly
            int delay = (int)((r1 >> 4) % 40); bool nest = (r1 >> 3) & 1; bool tm = (r1 >> 2) & 1; describe(fmtv("delay=%d nest=%d", delay, nest));
            Json d = { {"delay", delay}, {"progress", { {"progress::rec", { {"id", 7} }} }} };
            lib([&] { if (nest) lm::progress::init("mux", Json::array({ Json{ {"progress::delay", d} }, Json{ {"progress::rec", { {"id", 8} }} } })); else lm::progress::init("delay", d); });
            int m = 3 + (int)((r1 >> 20) % 12); long long v = 0; int sess = 1 + (int)((r1 >> 30) % 2);
            for (int q = 0; q < sess; q++) {
                lib([&] { lm::progress::start(tm ? lm::progress::ProgressMode::Time : lm::progress::ProgressMode::Samples, tm ? -1 : 1000, tm ? 10. : -1.); });
                CHECK(evs->back().k == 's', "delay-start", "start was not forwarded");
                u64 last_lo = now_ns(), last_hi = now_ns(); v = 0; double tv = 0;
                // bounds on the time stamp the reporter took for its last forwarded event (or start)
                last_lo = 0; u64 before = 0; bool first = true;
                for (int j = 0; j < m; j++) {
                    u64 g = mix(r1, j); u64 ms = (g % 4 == 0) ? 0 : (g % 4 == 1) ? (u64)delay : (g >> 8) % (2 * delay + 3);
                    if (first) { last_hi = now_ns(); last_lo = evs->back().at > 2000000 ? evs->back().at - 2000000 : 0; }
                    first = false;
                    advance_ns(ms * 1000000 + (g >> 40) % 900000); v += g % 5; tv += .01;
                    size_t cnt = 0; for (auto& e : *evs) if (e.child == 7 && (e.k == 'u' || e.k == 't')) cnt++;
                    before = now_ns(); lib([&] { if (tm) lm::progress::update_time(tv); else lm::progress::update(v); }); u64 after = now_ns();
                    size_t cnt2 = 0; for (auto& e : *evs) if (e.child == 7 && (e.k == 'u' || e.k == 't')) cnt2++;
                    bool fwd = cnt2 > cnt; CHECK(cnt2 - cnt <= 1, "delay-duplicate", "one update forwarded %zu times", cnt2 - cnt);
                    double lo = (before > last_hi ? before - last_hi : 0) * 1e-6, hi = (after - last_lo) * 1e-6;
                    if (fwd) CHECK(hi > delay, "delay-too-early", "update forwarded %.3f ms after the last one with a delay of %d ms", hi, delay);
                    else CHECK(lo <= delay + 1, "delay-withheld", "update withheld %.3f ms after the last forwarded one with a delay of %d ms", lo, delay);
                    if (fwd) { last_lo = before; last_hi = after; probe("delay_forwarded"); } else probe("delay_withheld");
                }
                lib([] { lm::progress::end(); });
                bool e7 = false; for (auto& e : *evs) if (e.child == 7) e7 = e.k == 'e'; CHECK(e7, "delay-end", "end was not forwarded");
            }
            if (nest) { size_t u = 0; for (auto& e : *evs) if (e.child == 8) u++; CHECK(u == (size_t)sess * (m + 2), "mux-events", "multiplexed reporter received %zu of %d events", u, sess * (m + 2)); check_sessions(8, 1000, false, "mux"); }
            check_sessions(7, 1000, false, "delay"); nontrivial();
        }
    }
}

// ------------------------------------------------------------------------------------------------ P04
SCENARIO(P04, false) {
    randomize_sched(800); loop_faults();
    evs = new std::vector<Ev>;
    lib([] { lm::init(); lm::log::set_severity(1000); });
    int w = init_parallel(); lib([] { lm::progress::init("rec", {}); }); int nops = (int)W().range(1, 4);
    for (int o = 0; o < nops; o++) {
        int kind = (int)W().below(4); int fw = (int)W().range(1, 7), fh = (int)W().range(1, 7); long long spp = W().range(1, 5), n = W().chance(.1) ? 0 : W().range(1, 60); u64 cost_ns = W().pick(std::vector<long>{ 0, 1000, 100000, 3000000 });
        double limit = W().pick(std::vector<double>{ 0, .001, .004, .02, .1 }); long long per = W().range(1, 20); int cost = (int)W().below(3);
        if (!op_enabled(o)) continue;
        FilmHolder f(fw, fh); long long px = (long long)fw * fh; evs->clear();
        if (kind < 2 && W().chance(.06)) {      // sample counts beyond 32 bits, fast-forwarded
            long long S = Long::size(W().next(), (int)W().below(30)), tot = kind ? S : S * px; Json p = kind ? Json{ {"num_samples", S} } : Json{ {"spp", S}, {"output", "$.assets.film"} }; describe(fmtv("%s %lld film=%dx%d (fast-forwarded)", kind ? "spi" : "spp", S, fw, fh)); auto s = make_sched(kind ? "spi::sample" : "spp::sample", p); Long l(tot, 3 + (int)W().below(12)); if (!kind && px > 1) { l.stop(S); if (px > 2 && W().chance(.5)) l.stop(2 * S); } std::set<std::pair<long long, long long>> seen; probe("long_runs");
            long long ret = lib([&] { return s->run([&](long long p, long long sm, int) { Quiet q; if ((int)seen.size() >= l.expected()) { probe("long_run_undecided"); finish_run(); } CHECK(kind ? p == 0 : p >= 0 && p < px, "bad-index", "pixel index %lld for a film of %lld pixels", p, px); CHECK(sm >= 0 && sm < S, "bad-index", "sample index %lld of %lld", sm, S); CHECK(seen.insert(std::make_pair(p, sm)).second, "duplicate-sample", "pixel %lld sample %lld processed twice", p, sm); point(); }); });
            CHECK(ret == S, "sample-count", "returned %lld, expected %lld", ret, S); CHECK((int)seen.size() == l.expected(), "missing-samples", "a run of %lld samples processed %zu of %d that are not fast-forwarded", tot, seen.size(), l.expected());
            for (auto& e : *evs) if (e.k == 's') CHECK(e.v == tot, "progress-total", "announced total %lld, expected %lld", e.v, tot); s.reset(); continue;
        }
        if (kind == 3 && W().chance(.06)) {     // several passes with more than 2^32 samples in total
            long long P = W().chance(.5) ? Long::size(W().next(), (int)W().below(30)) : W().range(1ll << 29, 1ll << 31); int k = 3 + (int)W().below(6), want = (int)W().range(2, 9); auto s = make_sched("spi::time", { {"render_time", 1.}, {"samples_per_iter", P} }); describe(fmtv("spi::time %lld per pass (fast-forwarded)", P)); Long l(P, k); std::set<long long> seen; u64 step = 1000000000ull / (u64)(want * 2 * k - k); probe("long_passes");
            long long ret = lib([&] { return s->run([&](long long p, long long sm, int) { Quiet q; CHECK(p == 0 && sm >= 0, "bad-index", "pixel %lld sample %lld", p, sm); CHECK(seen.insert(sm).second, "duplicate-sample", "sample %lld processed twice", sm); if (sm % P >= k && sm % P < P - k) { probe("long_run_undecided"); finish_run(); } point(); advance_ns(step); }); });
            CHECK(ret > 0 && ret % P == 0 && ret / P * 2 * k == (long long)seen.size(), "sample-count", "returned %lld after %zu of the first and last %d samples of passes of %lld", ret, seen.size(), k, P); CHECK(*seen.rbegin() < ret, "bad-index", "sample %lld processed, %lld reported", *seen.rbegin(), ret); s.reset(); continue;
        }
        if (kind >= 2 && cost_ns < 100000) cost_ns = 100000;
        static const char* keys[] = { "spp::sample", "spi::sample", "spp::time", "spi::time" };
        Json p = kind == 0 ? Json{ {"spp", spp}, {"output", "$.assets.film"} } : kind == 1 ? Json{ {"num_samples", n} } : kind == 2 ? Json{ {"render_time", limit}, {"output", "$.assets.film"} } : Json{ {"render_time", limit}, {"samples_per_iter", per} };
        describe(fmtv("%s %s film=%dx%d cost=%lluus", keys[kind], p.dump().c_str(), fw, fh, (unsigned long long)cost_ns / 1000));
        auto s = make_sched(keys[kind], p); std::map<std::pair<long long, long long>, int> seen; std::vector<char> busy(w); long long bodies = 0; bool returned = false; int act = 0; long long done = 0, maxs = -1;
        long long pass = kind == 0 ? px * spp : kind == 1 ? n : kind == 2 ? px : per;
        long long ret = lib([&] { return s->run([&](long long p, long long sm, int t) {
            Quiet q; CHECK(!returned, "late-invocation", "process called after run() returned");
            CHECK(t >= 0 && t < w && !busy[t], "bad-worker-id", "worker id %d invalid or shared", t); busy[t] = 1; act++;
            bool pp = kind == 0 || kind == 2; CHECK(pp ? p >= 0 && p < px : p == 0, "bad-index", "pixel index %lld for a film of %lld pixels", p, px); CHECK(sm >= 0, "bad-index", "sample index %lld", sm);
            CHECK(++seen[std::make_pair(p, sm)] == 1, "duplicate-sample", "pixel %lld sample %lld processed twice", p, sm);
            if (kind >= 2) { long long ps = kind == 2 ? sm : sm / per; CHECK(done >= ps * pass, "pass-overlap", "sample of pass %lld started with only %lld samples finished", ps, done); }
            maxs = std::max(maxs, sm); bodies++; for (int k = 0; k < cost; k++) point(); advance_ns(cost_ns); busy[t] = 0; act--; done++; }); });
        returned = true; CHECK(act == 0, "still-running", "%d process calls running after run()", act);
        long long S = kind == 0 ? spp : kind == 1 ? n : ret;
        CHECK(ret == S, "sample-count", "%s returned %lld, expected %lld", keys[kind], ret, S);
        long long expect = kind == 0 || kind == 2 ? px * S : S;
        CHECK((long long)seen.size() == expect && bodies == expect, "missing-samples", "%s reported %lld but processed %zu distinct samples of %lld", keys[kind], ret, seen.size(), expect);
        CHECK(maxs < S || expect == 0, "bad-index", "%s: sample index %lld with %lld samples reported", keys[kind], maxs, S);
        if (kind == 3) CHECK(ret % per == 0 && ret > 0, "partial-pass", "returned %lld with %lld samples per pass", ret, per);
        if (kind == 2) CHECK(ret > 0, "partial-pass", "no pass completed");
        if (kind >= 2 && bodies > pass) probe("several_passes"); if (expect > 1 && w > 1) nontrivial();
    }
}

// ------------------------------------------------------------------------------------------------ P05
SCENARIO(P05, false) {
    randomize_sched(600); if (W().chance(.3)) enable(F_TEAM_SIZE, .3); if (W().chance(.4)) enable(F_STALL, .02); clock_faults();
    evs = new std::vector<Ev>;
    lib([] { lm::init(); lm::log::set_severity(1000); });
    int w = init_parallel(); lib([] { lm::progress::init("rec", {}); }); int nops = (int)W().range(1, 3);
    for (int o = 0; o < nops; o++) {
        int kind = (int)W().below(5); int fw = (int)W().range(1, 3), fh = (int)W().range(1, 3); long long per = W().range(1, 6); double limit = W().pick(std::vector<double>{ 0, 0, .001, .005, .05, .5, 2, 60, 4000, 3e6 });
        int passes = (int)W().range(1, 8); u64 r1 = W().next();
        if (!op_enabled(o)) continue;
        if (kind == 4) {   // the elapsed-time utility
            u64 a0 = now_ns(); auto t = lib([] { return std::make_unique<lm::timer::ScopedTimer>(); }); u64 a1 = now_ns(); double prev = 0;
            for (int k = 0; k < 5; k++) {
                advance_ns(mix(r1, k) % (r1 % 4 ? 3000000000ull : 3000000000000000ull)); u64 b0 = now_ns(); double v = lib([&] { return (double)t->now(); }); u64 b1 = now_ns();
                CHECK(v * 1e9 >= (double)(b0 - a1) - 2 && v * 1e9 <= (double)(b1 - a0) + 2 && v >= prev, "elapsed-wrong", "elapsed time %.9f s reported, %.9f..%.9f s passed", v, (b0 - a1) * 1e-9, (b1 - a0) * 1e-9); prev = v; }
            lib([&] { t.reset(); }); nontrivial(); continue;
        }
        bool spp = kind < 2; FilmHolder f(fw, fh); long long pass = spp ? (long long)fw * fh : per; evs->clear();
        Json p = spp ? Json{ {"render_time", limit}, {"output", "$.assets.film"} } : Json{ {"render_time", limit}, {"samples_per_iter", per} };
        // body costs so that about `passes` passes fit, with variation per body
        u64 unit = (u64)(std::max(limit, .0005) * 1e9 / passes / pass); describe(fmtv("%s limit=%g passes~%d pass=%lld", spp ? "spp" : "spi", limit, passes, pass));
        auto s = make_sched(spp ? "spp::time" : "spi::time", p);
        long long done = 0, started = 0; u64 entry = now_ns(), first_start = 0, last_end = 0; u64 jumps = shm->r.faults[F_CLOCK_JUMP];
        auto limit_ns = (double)limit * 1e9; const double MS = 1e6;
        long long ret = lib([&] { return s->run([&](long long, long long sm, int) {
            Quiet q; if (!started++) first_start = now_ns();
            else if (done == (sm / (spp ? 1 : per)) * pass && (started - 1) % pass == 0) {   // first of a later pass
                double lo = (double)(last_end - first_start);
                CHECK(lo <= limit_ns + MS, "overrun", "pass %lld started although %.3f ms of a %.3f ms limit had passed when the previous one ended", sm, lo * 1e-6, limit * 1e3);
            }
            point(); advance_ns(unit / 2 + mix(r1, started) % (unit + 1)); done++; last_end = now_ns(); }); });
        double hi = (double)(now_ns() - entry);
        CHECK(hi > limit_ns - MS && hi > 0, "stopped-early", "run stopped after %.3f ms with a limit of %.3f ms (%lld passes)", hi * 1e-6, limit * 1e3, ret);
        double lt = 0; for (auto& e : *evs) if (e.k == 't') { double lo = 0, h = (double)(e.at - entry) * 1e-9 + .001; (void)lo; CHECK(e.t <= h && e.t >= lt && e.t >= 0, "progress-time", "reported elapsed time %g s at %g s (previous %g)", e.t, h, lt); lt = e.t; double early = ((double)e.at - (double)first_start) * 1e-9; (void)early; }
        probe("passes", done / std::max<long long>(pass, 1)); if (done > pass) nontrivial(); if (shm->r.faults[F_CLOCK_JUMP] > jumps) probe("jump_during_run");
    }
}
