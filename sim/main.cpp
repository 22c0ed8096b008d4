// Driver: seeded exploration, single runs, replay and minimisation. Every run is a forked child.
#include "scen.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <locale>
#include <sys/wait.h>
#include <sched.h>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
using namespace sim;

// files are named relative to the run's working directory: what the library sees must not depend on where the scratch directory lies
namespace sim { std::string scratch_file(const std::string& n) { return "./" + n; } }
static std::string exe_dir;
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { remove(p); return 0; }
static void clear_dir(const std::string& d) { if (d.size() > 8 && d.find("/lmsim-") != std::string::npos) nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

static const Scenario* find_scen(const std::string& n) { auto it = scenarios().find(n); return it == scenarios().end() ? nullptr : &it->second; }

// Outcome of one forked run. The result is in shm.
static void run_once() {
    const Scenario* sc = find_scen(spec.scenario); if (!sc) { fprintf(stderr, "unknown scenario %s\n", spec.scenario.c_str()); exit(3); }
    memset(&shm->r, 0, sizeof shm->r);
    clear_dir(spec.scratch); mkdir(spec.scratch.c_str(), 0700);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rl{ 120, 130 }; setrlimit(RLIMIT_CPU, &rl); struct rlimit co{ 0, 0 }; setrlimit(RLIMIT_CORE, &co);
        spec.race = sc->race;
        if (chdir(spec.scratch.c_str())) _exit(78);
        if (!getenv("SIM_VERBOSE")) { int n = ::open("/dev/null", 1); dup2(n, 1); }
        fs_root(spec.scratch);
        start_run();
        sc->fn();
        finish_run();
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    auto& r = shm->r;
    if (!r.done) {
        r.violated = 1; r.done = 1;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { snprintf(r.cls, sizeof r.cls, "no-progress"); snprintf(r.msg, sizeof r.msg, "run used more than 120 s of CPU time"); }
        else if (WIFSIGNALED(st)) { snprintf(r.cls, sizeof r.cls, "crash-signal-%d", WTERMSIG(st)); snprintf(r.msg, sizeof r.msg, "process ended by signal %d", WTERMSIG(st)); }
        else { snprintf(r.cls, sizeof r.cls, "process-exit"); snprintf(r.msg, sizeof r.msg, "process exited unexpectedly with status %d", WEXITSTATUS(st)); }
    }
}

static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

static void write_trace(const std::string& path, const Result& r, const std::vector<SwitchRec>& sw, const std::vector<FaultRec>& fl, const std::vector<u32>& drop) {
    FILE* f = fopen(path.c_str(), "w");
    fprintf(f, "# lightmetrica simulation trace; replay with: python3 /verif/check.py --replay <this file>\n");
    fprintf(f, "scenario %s\nseed %llu\nsseed %llu\nreplay %d\nthorough %d\n", spec.scenario.c_str(), (unsigned long long)spec.seed, (unsigned long long)spec.sseed, 1, spec.thorough ? 1 : 0);
    fprintf(f, "class %s\nhash %016llx\n", r.cls, (unsigned long long)r.hash);
    std::string m = r.msg; std::replace(m.begin(), m.end(), '\n', ' '); fprintf(f, "message %s\n", m.c_str());
    std::string d = r.desc; std::replace(d.begin(), d.end(), '\n', ' '); fprintf(f, "workload %s\n", d.c_str());
    if (!drop.empty()) { fprintf(f, "drop"); for (u32 x : drop) fprintf(f, " %u", x); fprintf(f, "\n"); }
    for (auto& x : fl) fprintf(f, "fault %s %u %u %llu\n", fault_names[x.cat], x.cat, x.ord, (unsigned long long)x.param);
    for (auto& x : sw) fprintf(f, "switch %llu %u %u\n", (unsigned long long)x.point, x.tid, x.forced);
    fprintf(f, "end\n"); fclose(f);
}
struct Trace { std::string cls, msg, hash; bool complete = false; };
static Trace read_trace(const std::string& path) {
    Trace t; spec.replay = true; std::ifstream in(path); std::string l; spec.sw.clear(); spec.fl.clear(); spec.dropped_ops.clear();
    while (std::getline(in, l)) {
        std::istringstream s(l); std::string k; s >> k;
        if (k == "scenario") s >> spec.scenario; else if (k == "seed") s >> spec.seed; else if (k == "sseed") s >> spec.sseed; else if (k == "thorough") { int v; s >> v; spec.thorough = v; }
        else if (k == "class") s >> t.cls; else if (k == "hash") s >> t.hash; else if (k == "message") { if (l.size() > 8) t.msg = l.substr(8); }
        else if (k == "drop") { u32 x; while (s >> x) spec.dropped_ops.push_back(x); }
        else if (k == "fault") { std::string n; FaultRec f; s >> n >> f.cat >> f.ord >> f.param; spec.fl.push_back(f); }
        else if (k == "switch") { SwitchRec x; s >> x.point >> x.tid >> x.forced; spec.sw.push_back(x); }
        else if (k == "replay") { int v; s >> v; spec.replay = v; } else if (k == "end") t.complete = true;
    }
    return t;
}
static void snapshot(std::vector<SwitchRec>& sw, std::vector<FaultRec>& fl) { sw.assign(shm->sw, shm->sw + shm->r.nsw); fl.assign(shm->fl, shm->fl + shm->r.nfl); }

// ddmin over a vector, test(candidate) -> still fails
template <class X> static void ddmin(std::vector<X>& v, const std::function<bool(const std::vector<X>&)>& test, double until) {
    if (!v.empty()) { std::vector<X> none; if (test(none)) { v.clear(); return; } }
    size_t n = 2;
    while (v.size() >= 1 && wall() < until) {
        size_t ch = std::max<size_t>(1, (v.size() + n - 1) / n); bool red = false;
        for (size_t i = 0; i < v.size() && wall() < until; i += ch) {
            std::vector<X> c(v.begin(), v.begin() + i); c.insert(c.end(), v.begin() + std::min(v.size(), i + ch), v.end());
            if (c.size() < v.size() && test(c)) { v = c; n = std::max<size_t>(n - 1, 2); red = true; break; }
        }
        if (!red) { if (ch == 1) break; n = std::min(v.size(), n * 2); }
    }
}

static int minimize(const std::string& in, const std::string& out, double budget) {
    Trace t = read_trace(in); double end = wall() + budget;
    u64 seed0 = spec.sseed; (void)seed0;
    auto same = [&] { run_once(); return shm->r.violated && t.cls == shm->r.cls; };
    if (!same()) { fprintf(stderr, "minimize: trace does not reproduce (%s)\n", shm->r.violated ? shm->r.cls : "no violation"); return 4; }
    int nops = shm->r.nops;
    // 1. workload steps; a different schedule is searched for each candidate when the recorded one no longer fits
    if (nops > 1) {
        std::vector<u32> keep; for (int i = 0; i < nops; i++) if (!std::count(spec.dropped_ops.begin(), spec.dropped_ops.end(), (u32)i)) keep.push_back(i);
        auto bsw = spec.sw; auto bfl = spec.fl; auto bdrop = spec.dropped_ops; u64 bss = spec.sseed;
        ddmin<u32>(keep, [&](const std::vector<u32>& k) {
            if (k.empty() || k.size() == keep.size()) return false;
            spec.dropped_ops.clear(); for (int i = 0; i < nops; i++) if (!std::count(k.begin(), k.end(), (u32)i)) spec.dropped_ops.push_back(i);
            for (int a = 0; a < 12 && wall() < end; a++) {
                if (a == 0) { spec.replay = true; spec.sw = bsw; spec.fl = bfl; } else { spec.replay = false; spec.sseed = mix(bss, a); }
                if (same() && !shm->r.trace_overflow) { snapshot(bsw, bfl); bdrop = spec.dropped_ops; spec.replay = true; return true; }
            }
            spec.replay = true; return false;
        }, std::min(end, wall() + budget * .4));
        spec.replay = true; spec.sw = bsw; spec.fl = bfl; spec.dropped_ops = bdrop; spec.sseed = bss;
        if (!same()) { fprintf(stderr, "minimize: lost the violation\n"); return 4; }
    }
    // 2. faults
    { auto best = spec.fl; ddmin<FaultRec>(best, [&](const std::vector<FaultRec>& c) { spec.fl = c; return same(); }, std::min(end, wall() + budget * .3)); spec.fl = best; }
    // 3. preemptions (forced switches keep their recorded targets where possible)
    { auto best = spec.sw; ddmin<SwitchRec>(best, [&](const std::vector<SwitchRec>& c) { spec.sw = c; return same(); }, end); spec.sw = best; }
    if (!same()) { fprintf(stderr, "minimize: final trace does not reproduce\n"); return 4; }
    write_trace(out, shm->r, spec.sw, spec.fl, spec.dropped_ops);
    return 0;
}

int main(int argc, char** argv) {
    // fixed address layout, so that one seed is one execution in every process
    if (!getenv("SIM_NOASLR")) { int p = personality(0xffffffff); setenv("SIM_NOASLR", "1", 1); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    // the C++ library fills caches on first use; what the modes below do before a run must not show in it
    { std::istringstream in("1 2.5 x\nline\n"); int i; double d; std::string t, l; in >> i >> d >> t; std::getline(in, l); std::getline(in, l); std::ostringstream out; out << i << ' ' << d << ' ' << (void*)&out << std::endl; auto& ct = std::use_facet<std::ctype<char>>(std::locale()); for (int c = 1; c < 128; c++) { ct.narrow((char)c, 0); ct.widen((char)c); } std::ifstream none("/nonexistent"); std::getline(none, l); }
    std::string mode = argc > 1 ? argv[1] : ""; std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
    auto num = [&](const char* k, u64 d) { return o.count(k) ? strtoull(o[k].c_str(), nullptr, 10) : d; };
    shm = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; exe_dir = b; exe_dir = exe_dir.substr(0, exe_dir.rfind('/')); setenv("SIM_EXE_DIR", exe_dir.c_str(), 1); }
    if (o.count("cpu")) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(num("cpu", 0), &s); sched_setaffinity(0, sizeof s, &s); }
    spec.scratch = o.count("scratch") ? o["scratch"] : "/tmp/lmsim-" + std::to_string(getpid());
    // constant-length path: string sizes must not differ between workers
    spec.thorough = num("thorough", 0);
    if (mode == "list") { for (auto& s : scenarios()) printf("%s\n", s.first.c_str()); return 0; }
    if (mode == "run") {
        spec.scenario = o["scenario"]; spec.seed = num("seed", 1); spec.sseed = num("sseed", spec.seed);
        run_once(); auto& r = shm->r;
        printf("violated=%d class=%s hash=%016llx ihash=%016llx points=%llu switches=%llu sync=%llu threads=%llu checks=%llu ops=%d sim_ms=%.3f\nmsg=%s\ndesc=%s\n", r.violated, r.cls, (unsigned long long)r.hash, (unsigned long long)r.ihash, (unsigned long long)r.points, (unsigned long long)r.switches, (unsigned long long)r.sync_ops, (unsigned long long)r.threads, (unsigned long long)r.checks, r.nops, r.sim_ns * 1e-6, r.msg, r.desc);
        for (int i = 0; i < F_COUNT; i++) if (r.offered[i]) printf("  fault %s %llu/%llu\n", fault_names[i], (unsigned long long)r.faults[i], (unsigned long long)r.offered[i]);
        for (int i = 0; i < r.nprobes; i++) printf("  probe %s %llu\n", r.probe_name[i], (unsigned long long)r.probe_n[i]);
        if (o.count("trace")) { std::vector<SwitchRec> sw; std::vector<FaultRec> fl; snapshot(sw, fl); write_trace(o["trace"], r, sw, fl, {}); }
        clear_dir(spec.scratch); return r.violated ? 1 : 0;
    }
    if (mode == "replay") {
        Trace t = read_trace(o["file"]); if (!t.complete) { fprintf(stderr, "bad trace file\n"); return 3; }
        run_once(); auto& r = shm->r; char h[32]; snprintf(h, 32, "%016llx", (unsigned long long)r.hash);
        printf("replay scenario=%s violated=%d class=%s expected=%s hash=%s recorded=%s exact=%d\nmsg=%s\n", spec.scenario.c_str(), r.violated, r.cls, t.cls.c_str(), h, t.hash.c_str(), t.hash == h, r.msg);
        clear_dir(spec.scratch); return r.violated && t.cls == r.cls ? (t.hash == h ? 1 : 5) : 0;
    }
    if (mode == "minimize") { int rc = minimize(o["in"], o["out"], strtod(o["budget"].c_str(), nullptr)); clear_dir(spec.scratch); return rc; }
    if (mode != "explore") { fprintf(stderr, "usage: simbin list|run|explore|minimize|replay --key value...\n"); return 3; }

    spec.scenario = o["scenario"];
    u64 base = num("base", 1), start = num("start", 0), stride = num("stride", 1), count = num("count", 100);
    double cap = o.count("cap") ? strtod(o["cap"].c_str(), nullptr) : 1e9; std::string out = o["out"]; double t0 = wall();
    int dbl = (int)num("double", 0);  // run every n-th seed twice and compare hashes
    u64 scen_h = 0; for (char c : spec.scenario) scen_h = mix(scen_h, c);
    u64 runs = 0, points = 0, switches = 0, checks = 0, simns = 0, nontriv = 0, sync = 0, maxpoints = 0, doubled = 0, mism = 0; u64 faults[F_COUNT] = {}, offered[F_COUNT] = {};
    u64 last_seed = 0, last_hash = 0; std::map<std::string, u64> probes; std::set<u64> ih, hs, nt; std::vector<std::string> samples; bool bad = false; double slowest = 0; u64 slowseed = 0;
    struct Known { std::string sc, cls, sub; }; std::vector<Known> known; std::map<std::string, u64> known_hits;
    if (o.count("known")) { std::ifstream in(o["known"]); std::string l; while (std::getline(in, l)) { size_t a = l.find('\t'), b = l.find('\t', a + 1); if (b != std::string::npos) known.push_back({ l.substr(0, a), l.substr(a + 1, b - a - 1), l.substr(b + 1) }); } }
    for (u64 i = start; i < count; i += stride) {
        if (wall() - t0 > cap) break;
        spec.seed = spec.sseed = mix(mix(base, scen_h), i) >> 1; double a = wall();
        run_once(); auto& r = shm->r; double el = wall() - a; if (el > slowest) { slowest = el; slowseed = spec.seed; }
        if (r.violated) {
            bool skip = false; for (auto& k : known) if (k.sc == spec.scenario && k.cls == r.cls && strstr(r.msg, k.sub.c_str())) { known_hits[k.cls + ": " + k.sub]++; skip = true; break; }
            if (skip) { runs++; continue; }
            std::vector<SwitchRec> sw; std::vector<FaultRec> fl; snapshot(sw, fl); Result copy = r;
            write_trace(out + ".trace", copy, sw, fl, {});
            bad = true;
            FILE* f = fopen((out + ".seed").c_str(), "w"); fprintf(f, "%llu %016llx %s %d\n%s\n", (unsigned long long)spec.seed, (unsigned long long)copy.hash, copy.cls, (int)copy.trace_overflow, copy.msg); fclose(f);
            break;
        }
        runs++; points += r.points; switches += r.switches; checks += r.checks; simns += r.sim_ns; sync += r.sync_ops; maxpoints = std::max<u64>(maxpoints, r.points);
        if (r.nontrivial) { nontriv++; nt.insert(r.hash); }
        ih.insert(r.ihash); hs.insert(r.hash); last_seed = spec.seed; last_hash = r.hash;
        for (int k = 0; k < F_COUNT; k++) { faults[k] += r.faults[k]; offered[k] += r.offered[k]; }
        for (int k = 0; k < r.nprobes; k++) probes[r.probe_name[k]] += r.probe_n[k];
        if (samples.size() < 4 && r.nontrivial) samples.push_back("seed " + std::to_string(spec.seed) + ": " + r.desc);
        if (dbl && (i / stride) % dbl == 0) { u64 h = r.hash; std::string keep = spec.scratch; spec.scratch += "-again"; run_once(); clear_dir(spec.scratch); spec.scratch = keep; doubled++; if (shm->r.hash != h) { mism++; fprintf(stderr, "nondeterminism: scenario %s seed %llu\n", spec.scenario.c_str(), (unsigned long long)spec.seed); } }
    }
    FILE* f = fopen(out.c_str(), "w");
    fprintf(f, "{\"runs\":%llu,\"points\":%llu,\"switches\":%llu,\"sync_ops\":%llu,\"checks\":%llu,\"sim_ns\":%llu,\"nontrivial\":%llu,\"max_points\":%llu,\"wall\":%.3f,\"violated\":%s,\"double_runs\":%llu,\"mismatches\":%llu,\"slowest_s\":%.3f,\"slowest_seed\":%llu,\n\"faults\":{", (unsigned long long)runs, (unsigned long long)points, (unsigned long long)switches, (unsigned long long)sync, (unsigned long long)checks, (unsigned long long)simns, (unsigned long long)nontriv, (unsigned long long)maxpoints, wall() - t0, bad ? "true" : "false", (unsigned long long)doubled, (unsigned long long)mism, slowest, (unsigned long long)slowseed);
    bool first = true; for (int k = 0; k < F_COUNT; k++) if (offered[k] || faults[k]) { fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", fault_names[k], (unsigned long long)faults[k], (unsigned long long)offered[k]); first = false; }
    fprintf(f, "},\n\"probes\":{"); first = true; for (auto& p : probes) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n\"known\":{"); first = true; for (auto& p : known_hits) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n\"samples\":["); for (size_t k = 0; k < samples.size(); k++) fprintf(f, "%s\"%s\"", k ? "," : "", jesc(samples[k]).c_str());
    fprintf(f, "],\n\"last\":[\"%llu\",\"%016llx\"],\n\"ihash\":[", (unsigned long long)last_seed, (unsigned long long)last_hash); first = true; for (u64 h : ih) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "],\n\"nthash\":["); first = true; for (u64 h : nt) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "]}\n"); fclose(f);
    clear_dir(spec.scratch);
    return bad ? 1 : mism ? 6 : 0;
}
