// P15 (parallel render = serial execution), P04R (normalisation), P02R (failing renders), P16R (races while rendering)
#include "world.h"
#include <lm/scheduler.h>
#include <lm/renderer.h>
#include <lm/accel.h>
using namespace sim;
namespace {
struct Splat { double rx, ry, x, y, z; int kind; bool operator==(const Splat& o) const { return memcmp(this, &o, sizeof *this) == 0; } };
struct Call { long long pixel, sample; int worker; std::vector<Splat> splats; };
struct Rec {
    std::vector<Call> calls; std::vector<double> scales; int cur[64]; int mode = 0; long long ret = -1; int order = 0; std::vector<Call> script; u64 clears = 0, sets = 0, outside = 0; bool spp = false, failing = false; int thrown = 0; int next_err = 0; bool running = false; int npix = 0; u64 adv = 0;
    std::vector<std::array<double, 3>> sum; std::vector<double> mag;
    void begin(int n) { calls.clear(); scales.clear(); for (int& c : cur) c = -1; ret = -1; clears = sets = outside = 0; thrown = 0; npix = n; sum.assign(n, { 0, 0, 0 }); mag.assign(n, 0); }
} rec;
struct RenderError : std::runtime_error { int id; RenderError(int i) : std::runtime_error(fmtv("sample failure %d", i)), id(i) {} };

struct RecFilm final : lm::Film {
    Component::Ptr<lm::Film> in;
    void construct(const Json& p) override { in = lm::comp::create<lm::Film>("film::bitmap", make_loc("inner"), p); }
    void foreach_underlying(const ComponentVisitor& v) override { lm::comp::visit(v, in); }
    Component* underlying(const std::string& n) const override { return n == "inner" ? in.get() : nullptr; }
    lm::FilmSize size() const override { return in->size(); }
    long long num_pixels() const override { return in->num_pixels(); }
    void note(int kind, double rx, double ry, int x, int y, const Vec3& v) {
        Quiet q; int c = rec.cur[self_tid() & 63]; auto s = in->size(); int px = y * s.w + x; Splat sp; memset(&sp, 0, sizeof sp); sp = { rx, ry, v.x, v.y, v.z, kind };
        if (c >= 0) rec.calls[c].splats.push_back(sp); else rec.outside++;
        if (kind != 1 && px >= 0 && px < (int)rec.sum.size()) { rec.sum[px][0] += v.x; rec.sum[px][1] += v.y; rec.sum[px][2] += v.z; rec.mag[px] += std::fabs(v.x) + std::fabs(v.y) + std::fabs(v.z); } else rec.sets++;
        u64 pv; if (rec.failing && rec.mode == 0 && fault(F_CB_THROW, &pv)) { rec.thrown++; event(0x7A1, rec.next_err); throw RenderError(rec.next_err++); }
    }
    void set_pixel(int x, int y, Vec3 v) override { note(1, x, y, x, y, v); in->set_pixel(x, y, v); }
    bool save(const std::string& p) const override { return in->save(p); }
    lm::FilmBuffer buffer() override { return in->buffer(); }
    void accum(const lm::Film* f) override { in->accum(f); }
    void splat_pixel(int x, int y, Vec3 v) override { note(2, x, y, x, y, v); in->splat_pixel(x, y, v); }
    void update_pixel(int x, int y, const PixelUpdateFunc& f) override { { Quiet q; rec.sets++; } in->update_pixel(x, y, f); }
    void rescale(lm::Float s) override { { Quiet q; rec.scales.push_back(s); } in->rescale(s); }
    void clear() override { { Quiet q; rec.clears++; } in->clear(); }
    void splat(Vec2 rp, Vec3 v) override { auto p = in->raster_to_pixel(rp); note(0, rp.x, rp.y, p.x, p.y, v); in->splat(rp, v); }
};
struct RecSched final : lm::scheduler::Scheduler {
    Component::Ptr<lm::scheduler::Scheduler> in; bool spp = false;
    void construct(const Json& p) override { spp = key().find("::spp::") != std::string::npos; in = lm::comp::create<lm::scheduler::Scheduler>((spp ? "scheduler::spp::" : "scheduler::spi::") + p.value("inner", std::string("sample")), make_loc("inner"), p); }
    void foreach_underlying(const ComponentVisitor& v) override { lm::comp::visit(v, in); }
    Component* underlying(const std::string& n) const override { return n == "inner" ? in.get() : nullptr; }
    long long run(const ProcessFunc& f) const override {
        { Quiet q; rec.spp = spp; rec.running = true; }
        if (rec.mode == 0) {
            long long r = in->run([&](long long p, long long s, int w) { int me; { Quiet q; me = (int)rec.calls.size(); rec.calls.push_back({ p, s, w, {} }); rec.cur[self_tid() & 63] = me; advance_ns(rec.adv); } f(p, s, w); { Quiet q; rec.cur[self_tid() & 63] = -1; } });
            Quiet q; rec.ret = r; rec.running = false; return r;
        }
        Quiet q; std::vector<int> o; for (size_t i = 0; i < rec.script.size(); i++) o.push_back((int)i);
        if (rec.order != 2) std::stable_sort(o.begin(), o.end(), [&](int a, int b) { int x = rec.script[a].worker, y = rec.script[b].worker; return rec.order ? x > y : x < y; });
        std::vector<Call> out; 
        for (int i : o) { auto& c = rec.script[i]; rec.cur[self_tid() & 63] = (int)rec.calls.size(); rec.calls.push_back({ c.pixel, c.sample, c.worker, {} }); lib([&] { f(c.pixel, c.sample, c.worker); }); rec.cur[self_tid() & 63] = -1; }
        rec.running = false; return rec.ret;
    }
};
template <class C> void regc(const char* k) { lm::comp::detail::reg(k, "", []() -> lm::Component* { return new C; }, [](lm::Component* c) { delete c; }); }
using Image = std::vector<double>;
Image image(lm::Film* f) { Image r; lib([&] { auto b = f->buffer(); r.assign(b.data, b.data + (size_t)b.w * b.h * 3); }); return r; }
bool finite(const Image& a) { for (double x : a) if (!std::isfinite(x)) return false; return true; }

struct Setup { World w; lm::Film* film; int npix; int workers = 1; std::vector<std::string> kinds; };
void set_workers(Setup& s, int n) { s.workers = n; lib([&] { lm::parallel::init("openmp", Json{ {"num_threads", n} }); }); }
Setup setup(bool allow_time, bool files = true) {
    Setup s; WorldCfg c; c.renderers = (int)W().range(1, 3); c.sched = "rec"; c.extras = false; c.files = files && W().chance(.3); lib([] { lm::init(); if(!getenv("SIM_LOG")) lm::log::set_severity(1000); regc<RecFilm>("film::simrec"); regc<RecSched>("scheduler::spp::rec"); regc<RecSched>("scheduler::spi::rec"); });
    set_workers(s, W().chance(.04) ? (int)W().range(5, 16) : (int)W().range(1, 4)); s.w = gen_world(c);
    for (auto& d : s.w.defs) { if (d.name == s.w.film) d.key = "film::simrec"; for (auto& r : s.w.renderers) if (d.name == r) { bool t = allow_time && W().chance(.3); d.prop["inner"] = std::string(t ? "time" : "sample"); if (t) { d.prop["render_time"] = std::vector<double>{ 0, .001, .004, .02 }[W().below(4)]; d.prop["samples_per_iter"] = (int)W().range(1, 9); } rec.adv = W().pick(std::vector<u64>{ 300000, 1000000, 3000000 }); s.kinds.push_back(d.key); } }
    load_defs(s.w); build_scene(s.w); s.film = lib([&] { return lm::comp::get<lm::Film>(aref(s.w.film)); }); s.npix = (int)s.film->num_pixels(); return s;
}
Json render(Setup& s, const std::string& name) { rec.begin(s.npix); phase("rendering with " + name); return lib([&] { auto* r = lm::comp::get<lm::Renderer>(aref(name)); if (!r) violate("missing-asset", "renderer not found"); return r->render(); }); }
FP scene_print(Setup& s) { FP f; lib([&] { for (auto& d : s.w.defs) if (d.name != s.w.film && d.key.compare(0, 8, "renderer") != 0 && d.key.compare(0, 5, "accel") != 0) { auto* c = lm::comp::get<lm::Component>(aref(d.name)); fingerprint(f, c); } }); return f; }

// the film holds what the samples contributed, scaled by pixels per sample
void check_film(Setup& s, const std::string& what, bool scaled) {
    double k = 1; for (double x : rec.scales) k *= x; Image a = image(s.film); 
    for (int i = 0; i < s.npix; i++) for (int c = 0; c < 3; c++) { double e = rec.sum[i][c] * k, tol = 1e-9 * (rec.mag[i] * std::fabs(k) + 1e-12); if (!std::isfinite(e) || !std::isfinite(a[3 * i + c])) { continue; } CHECK(std::fabs(a[3 * i + c] - e) <= tol, "film-sum", "%s: pixel %d channel %d is %.17g but its samples contributed %.17g", what.c_str(), i, c, a[3 * i + c], e); }
    if (scaled) CHECK(rec.calls.size() && std::fabs(k * rec.calls.size() / s.npix - 1) < 1e-9, "normalisation", "%s: the film was scaled by %.17g for %zu samples on %d pixels", what.c_str(), k, rec.calls.size(), s.npix);
}
void check_counts(Setup& s, const std::string& what, const Def& d, const Json& out) {
    std::string inner = d.prop["inner"]; long long n = (long long)rec.calls.size(); long long want = rec.spp ? rec.ret * s.npix : rec.ret;
    CHECK(n == want, "sample-count", "%s: the scheduler reported %lld but %lld samples were processed on %d pixels", what.c_str(), rec.ret, n, s.npix);
    if (inner == "sample") { long long cfg = rec.spp ? d.prop["spp"].get<long long>() : d.prop["num_samples"].get<long long>(); CHECK(rec.ret == cfg, "sample-count", "%s: %lld samples instead of the configured %lld", what.c_str(), rec.ret, cfg); }
    CHECK(out.is_object() && out.count("processed") && out["processed"].get<long long>() == rec.ret, "processed-report", "%s: the renderer reported %s processed samples instead of %lld", what.c_str(), out.dump().c_str(), rec.ret);
    CHECK(rec.clears >= 1 && rec.outside == 0, "film-use", "%s: the film was cleared %llu times and updated %llu times outside of samples", what.c_str(), (unsigned long long)rec.clears, (unsigned long long)rec.outside);
    std::set<std::pair<long long, long long>> seen; for (auto& c : rec.calls) CHECK(seen.insert({ c.pixel, c.sample }).second, "duplicate-sample", "%s: sample %lld of pixel %lld processed twice", what.c_str(), c.sample, c.pixel);
}
// no two workers draw the same random numbers
void check_streams(Setup& s, const std::string& what) {
    // The sub-pixel position of the first contribution of a sample comes straight from the worker's random numbers, unless a
    // position is fixed by the scene (a point or directional light seen by the camera): those agree on the absolute position
    // too, so agreement at the same absolute position counts only when it goes on for more positions than there are such lights.
    struct P { double x, y, fx, fy; }; std::map<int, std::vector<P>> first; auto sz = s.film->size();
    for (auto& c : rec.calls) { auto& v = first[c.worker]; for (auto& p : c.splats) if (v.size() < 12 && p.kind == 0) { v.push_back({ p.rx, p.ry, p.rx * sz.w - std::floor(p.rx * sz.w), p.ry * sz.h - std::floor(p.ry * sz.h) }); break; } }
    auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-7; };
    for (auto& a : first) for (auto& b : first) if (a.first < b.first) {
        size_t n = std::min(a.second.size(), b.second.size()); std::set<std::pair<double, double>> moved, still; bool same = n > 0;
        for (size_t i = 0; i < n && same; i++) { auto &x = a.second[i], &y = b.second[i]; if (!near(x.fx, y.fx) || !near(x.fy, y.fy)) same = false; else if (near(x.x, y.x) && near(x.y, y.y)) still.insert({ x.x, x.y }); else moved.insert({ x.fx, x.fy }); }
        CHECK(!(same && (moved.size() >= 2 || still.size() >= 8)), "shared-random-stream", "%s: workers %d and %d draw the same random numbers", what.c_str(), a.first, b.first);
    }
}
std::string diff_calls(const std::vector<Call>& par, const std::vector<Call>& ser) {
    std::map<std::pair<long long, long long>, const Call*> m; for (auto& c : ser) m[{ c.pixel, c.sample }] = &c;
    for (auto& c : par) { auto it = m.find({ c.pixel, c.sample }); if (it == m.end()) return "a sample is missing"; auto& d = *it->second; if (c.splats.size() != d.splats.size()) return fmtv("sample %lld of pixel %lld on worker %d made %zu contributions in parallel and %zu serially", c.sample, c.pixel, c.worker, c.splats.size(), d.splats.size());
        for (size_t i = 0; i < c.splats.size(); i++) { auto &a = c.splats[i], &b = d.splats[i]; auto eq = [](double x, double y) { return x == y || (std::isnan(x) && std::isnan(y)); }; if (!(eq(a.rx, b.rx) && eq(a.ry, b.ry) && eq(a.x, b.x) && eq(a.y, b.y) && eq(a.z, b.z) && a.kind == b.kind)) return fmtv("sample %lld of pixel %lld on worker %d contributed (%.17g,%.17g,%.17g) at (%.9g,%.9g) in parallel and (%.17g,%.17g,%.17g) at (%.9g,%.9g) serially", c.sample, c.pixel, c.worker, a.x, a.y, a.z, a.rx, a.ry, b.x, b.y, b.z, b.rx, b.ry); } }
    return "";
}
std::string diff_img(const Image& a, const Image& b, double rel) { for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i]))) continue; if (rel > 0 && std::fabs(a[i] - b[i]) <= rel * std::max({ std::fabs(a[i]), std::fabs(b[i]), 1e-3 })) continue; return fmtv("pixel %zu channel %zu: %.17g vs %.17g", i / 3, i % 3, a[i], b[i]); } return ""; }
void env_faults() { randomize_sched(20000); if (W().chance(.4)) enable(F_SPURIOUS_CAS, .15); if (W().chance(.3)) enable(F_STALL, .02); if (W().chance(.25)) enable(F_TEAM_SIZE, .4); }
}
// ------------------------------------------------------------------------------------------------ P15
SCENARIO(P15, false) {
    env_faults(); Setup s = setup(true); bool prints = W().chance(.35); FP before; if (prints) before = scene_print(s);
    std::map<std::string, Image> det;     // images that must not change: deterministic renderers, and seeded ones on one worker
    int n = (int)W().range(1, 4);
    for (int i = 0; i < n; i++) {
        std::string name = W().pick(s.w.renderers); const Def& d = *s.w.find(name); int workers = W().chance(.4) ? W().chance(.05) ? (int)W().range(5, 16) : (int)W().range(1, 4) : s.workers; rec.order = (int)W().below(3); bool between = W().chance(.3); std::string other = W().pick(s.w.renderers); bool again = W().chance(.4);
        if (!op_enabled(i)) continue;
        if (workers != s.workers) set_workers(s, workers);
        std::string kind = d.key.substr(10), what = fmtv("%s with %d workers", kind.c_str(), s.workers); describe(what);
        rec.mode = 0; rec.failing = false; Json out = render(s, name); Image img = image(s.film);
        if (kind == "raycast" || kind == "blank") {
            CHECK(rec.sets == (u64)s.npix && rec.scales.empty(), "pixel-count", "%s set %llu of %d pixels", what.c_str(), (unsigned long long)rec.sets, s.npix);
            auto it = det.find(name); if (it == det.end()) det[name] = img; else { std::string e = diff_img(img, it->second, 0); CHECK(e.empty(), "image-depends-on-schedule", "%s: the image differs from an earlier one of the same scene: %s", what.c_str(), e.c_str()); nontrivial(); }
            if (s.workers > 1) { int w0 = s.workers; set_workers(s, 1); render(s, name); std::string e = diff_img(image(s.film), img, 0); CHECK(e.empty(), "image-depends-on-schedule", "%s: the image differs from the one made by one worker: %s", what.c_str(), e.c_str()); set_workers(s, w0); nontrivial(); }
            continue;
        }
        check_counts(s, what, d, out); check_film(s, what, true); check_streams(s, what);
        auto par = rec.calls; rec.script = par; long long ret = rec.ret;
        std::set<int> used; for (auto& c : par) used.insert(c.worker); if (used.size() > 1) nontrivial(); probe(("worker_count_" + std::to_string(used.size())).c_str()); probe(kind.c_str()); u64 sp = 0; for (auto& c : par) sp += c.splats.size(); if (sp) probe("contributing"); 
        if (between && other != name) { rec.mode = 0; render(s, other); }
        rec.begin(s.npix); rec.mode = 1; rec.ret = ret; phase("serial rendering with " + name); rec.ret = ret;
        { auto keep = ret; rec.begin(s.npix); rec.ret = keep; lib([&] { lm::comp::get<lm::Renderer>(aref(name))->render(); }); }
        rec.mode = 0; std::string e = diff_calls(par, rec.calls); CHECK(e.empty(), "not-serializable", "%s: %s", what.c_str(), e.c_str());
        Image ser = image(s.film); if (finite(img)) { e = diff_img(img, ser, 1e-9); CHECK(e.empty(), "not-serializable", "%s: the image differs from the serial one: %s", what.c_str(), e.c_str()); }
        if (s.workers == 1 && d.prop["inner"].get<std::string>() == "sample") { auto it = det.find(name + "/1"); if (it == det.end()) det[name + "/1"] = img; else { e = diff_img(img, it->second, 0); CHECK(e.empty(), "seeded-image-changes", "%s: a seeded image on one worker differs from an earlier one: %s", what.c_str(), e.c_str()); probe("seeded_repeat"); } if (again) { render(s, name); e = diff_img(img, image(s.film), 0); CHECK(e.empty(), "seeded-image-changes", "%s: a seeded image on one worker differs when rendered again: %s", what.c_str(), e.c_str()); probe("seeded_repeat"); } }
    }
    if (prints) { FP after = scene_print(s); std::string e = fp_diff(before, after); CHECK(e.empty(), "scene-modified", "rendering changed the scene: %s", e.c_str()); }
}
// ------------------------------------------------------------------------------------------------ P04R
SCENARIO(P04R, false) {
    env_faults(); if (W().chance(.3)) enable(F_CLOCK_JUMP, .3); Setup s = setup(true, false); int n = (int)W().range(1, 3);
    for (int i = 0; i < n; i++) {
        std::string name = W().pick(s.w.renderers); const Def& d = *s.w.find(name); if (!op_enabled(i)) continue; std::string kind = d.key.substr(10), what = fmtv("%s with %d workers, %s scheduler", kind.c_str(), s.workers, d.prop["inner"].get<std::string>().c_str()); describe(what);
        rec.mode = 0; Json out = render(s, name); if (kind == "raycast" || kind == "blank") continue; check_counts(s, what, d, out); check_film(s, what, true); if (s.workers > 1 && rec.calls.size() > 2) nontrivial(); probe(d.prop["inner"].get<std::string>() == "time" ? "time_limited" : "sample_limited");
    }
}
// ------------------------------------------------------------------------------------------------ P02R
SCENARIO(P02R, false) {
    env_faults(); Setup s = setup(true, false); enable(F_CB_THROW, W().chance(.5) ? .1 : .4); int n = (int)W().range(1, 4);
    for (int i = 0; i < n; i++) {
        std::string name = W().pick(s.w.renderers); const Def& d = *s.w.find(name); bool failing = W().chance(.7); if (!op_enabled(i)) continue; std::string kind = d.key.substr(10), what = fmtv("%s with %d workers", kind.c_str(), s.workers); describe(what + (failing ? " failing" : ""));
        rec.mode = 0; rec.failing = failing; bool threw = false; int id = -1; Json out; int first = rec.next_err;
        try { out = render(s, name); } catch (RenderError& e) { threw = true; id = e.id; } catch (std::exception& e) { violate("wrong-exception", fmtv("%s: a failing sample surfaced as %s", what.c_str(), e.what())); } catch (...) { violate("wrong-exception", what + ": a failing sample surfaced as another exception"); }
        int thrown = rec.thrown; rec.failing = false; CHECK(threw == (thrown > 0), threw ? "spurious-failure" : "failure-swallowed", "%s: %d samples failed but render() %s", what.c_str(), thrown, threw ? "threw" : "returned normally");
        if (threw) { CHECK(id >= first && id < rec.next_err, "wrong-exception", "%s: exception %d was not thrown in this render", what.c_str(), id); nontrivial(); probe("failed_renders"); Image a = image(s.film); for (int k = 0; k < 40; k++) point(); CHECK(diff_img(a, image(s.film), 0).empty(), "still-running", "%s: the film changed after the failed render returned", what.c_str()); for (int k = 0; k < 64; k++) rec.cur[k] = -1; }
        else if (kind != "raycast" && kind != "blank") { check_counts(s, what, d, out); check_film(s, what, true); }
    }
    // afterwards everything renders as if nothing had happened
    disable_all(); for (auto& name : s.w.renderers) { const Def& d = *s.w.find(name); std::string kind = d.key.substr(10), what = kind + " after failed renders"; rec.mode = 0; Json out = render(s, name); if (kind == "raycast" || kind == "blank") { CHECK(rec.sets == (u64)s.npix, "pixel-count", "%s set %llu of %d pixels", what.c_str(), (unsigned long long)rec.sets, s.npix); continue; } check_counts(s, what, d, out); check_film(s, what, true); auto par = rec.calls; rec.script = par; long long ret = rec.ret; rec.begin(s.npix); rec.ret = ret; rec.mode = 1; rec.order = 0; lib([&] { lm::comp::get<lm::Renderer>(aref(name))->render(); }); rec.mode = 0; std::string e = diff_calls(par, rec.calls); CHECK(e.empty(), "not-serializable", "%s: %s", what.c_str(), e.c_str()); }
}
// ------------------------------------------------------------------------------------------------ P16R
SCENARIO(P16R, true) {
    env_faults(); WorldCfg c; c.renderers = (int)W().range(1, 2); c.sched = W().chance(.7) ? "sample" : "time"; c.extras = false; c.files = W().chance(.3); lib([] { lm::init(); lm::log::set_severity(1000); });
    lib([&] { lm::parallel::init("openmp", Json{ {"num_threads", (int)W().range(2, 4)} }); }); World w = gen_world(c); for (auto& d : w.defs) for (auto& r : w.renderers) if (d.name == r) { d.prop["render_time"] = .001; d.prop["samples_per_iter"] = 6; if (W().chance(.3)) d.prop.erase("seed"); }
    load_defs(w); build_scene(w);
    for (auto& n : w.renderers) { const Def& d = *w.find(n); describe(d.key); probe(d.key.c_str() + 10); phase("rendering with " + d.key); lib([&] { lm::comp::get<lm::Renderer>(aref(n))->render(); }); }
    nontrivial(); checked(); CHECK(race_count() == 0, "data-race", "races");
}
