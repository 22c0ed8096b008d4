// P16: data races in loops, builds, film updates, scene and component queries and logging (P16R: while rendering)
#include "world.h"
#include <lm/film.h>
#include <lm/accel.h>
#include <lm/logger.h>
#include <lm/progress.h>
#include <lm/parallel.h>
#include <lm/scheduler.h>
using namespace sim;
namespace {
void quiet_start() { lib([] { lm::init(); lm::log::set_severity(1000); }); }
void team(int n, bool viapar, const std::function<void(int)>& f) {
    if (viapar) { lib([&] { lm::parallel::init("openmp", Json{ {"num_threads", n} }); lm::parallel::foreach(n, [&](long long i, int) { Quiet q; f((int)i); }); }); return; }
    std::vector<int> t; for (int i = 1; i < n; i++) t.push_back(spawn([&, i] { f(i); })); f(0); for (int x : t) join(x);
}
void loops() {
    Rng& r = W(); quiet_start(); int nt = (int)r.range(2, 4); bool show = r.chance(.5); if (show) { capture_stdout(); lib([] { lm::log::set_severity(0); }); }
    lib([&] { lm::parallel::init("openmp", Json{ {"num_threads", nt}, {"progress_update_interval", (int)r.range(1, 5)} }); if (r.chance(.6)) { Json p = Json::object(); std::string k = r.chance(.5) ? "default" : "delay"; if (k == "delay") p = { {"delay", r.chance(.5) ? 0. : .001}, {"default", Json::object()} }; if (k == "default") lm::progress::init(k, p); } });
    int n = (int)r.range(1, 3); std::vector<int> got(64);
    for (int i = 0; i < n; i++) {
        int it = (int)r.range(1, 30), kind = (int)r.below(4); bool throws = r.chance(.35), many = r.chance(.6), nolog = r.chance(.6); int at = (int)r.below(it); if (!op_enabled(i)) continue; describe(fmtv("loop kind %d of %d", kind, it));
        try { lib([&] {
            auto body = [&](long long k, int w) { Quiet q; advance_ns(200000); point(); if (!nolog && k % 7 == 0) lib([&] { LM_INFO("iteration {}", k); }); lib([&] { (void)lm::parallel::num_threads(); (void)lm::parallel::main_thread(); }); if (throws && (k == at || (many && k >= at - 3))) throw std::runtime_error("x"); (void)w; };
            if (kind == 0) lm::parallel::foreach(it, body);
            else if (kind == 1) { lm::progress::ScopedReport rep(it); lm::parallel::foreach(it, body, [&](long long p) { lm::progress::update(p); }); }
            else { std::string key = kind == 2 ? "scheduler::spi::sample" : "scheduler::spi::time"; auto s = lm::comp::create<lm::scheduler::Scheduler>(key, "", Json{ {"num_samples", it}, {"render_time", .004}, {"samples_per_iter", 5} }); if (!s) return; s->run([&](long long, long long k, int w) { body(k, w); }); }
        }); } catch (std::runtime_error&) { probe("loop_failed"); }
    }
    if (show) release_stdout();
}
void build() {
    Rng& r = W(); hw_threads = (int)r.range(2, 6); if (r.chance(.3)) enable(F_SPURIOUS_WAKE, .2); if (r.chance(.2)) enable(F_THREAD_CREATE, .4); quiet_start();
    lib([&] {
        lm::load<lm::Accel>("accel", "accel::sahbvh", Json::object()); lm::load<lm::Material>("mat", "material::diffuse", Json{ {"Kd", { 1, 1, 1 }} }); auto* s = lm::load<lm::Scene>("scene", "scene::default", Json{ {"accel", "$.assets.accel"} });
        int np = (int)r.range(1, 3); for (int k = 0; k < np; k++) { Json m = mesh_json(r, (int)r.range(2, 50), Vec3(0), r.chance(.5), 1); if (!op_enabled(k)) continue; std::string n = fmtv("m%d", k); lm::assets()->load_asset(n, "mesh::raw", m); int g = s->create_group_node(glm::translate(Vec3(k, 0, 0))); s->add_child(0, g); s->add_child(g, s->create_primitive_node({ {"mesh", aref(n)}, {"material", "$.assets.mat"} })); }
        int b = (int)r.range(1, 2); for (int i = 0; i < b; i++) s->build();
        for (int i = 0; i < 4; i++) s->intersect({ Vec3(0, 0, 9), glm::normalize(Vec3(.1 * i, .05, -1)) });
    });
}
void film() {
    Rng& r = W(); quiet_start(); int w = (int)r.range(1, 3), h = (int)r.range(1, 2); auto* f = lib([&] { return lm::load<lm::Film>("film", "film::bitmap", Json{ {"w", w}, {"h", h} }); }); auto* o = lib([&] { return lm::load<lm::Film>("other", "film::bitmap", Json{ {"w", w}, {"h", h} }); });
    int nt = (int)r.range(2, 4); bool viapar = r.chance(.3), acc = r.chance(.3), reader = r.chance(.5); std::vector<std::vector<int>> plan(nt); for (auto& p : plan) { int n = (int)r.range(2, 12); for (int i = 0; i < n; i++) p.push_back((int)r.below(6)); } std::vector<u64> rnd; for (int i = 0; i < nt; i++) rnd.push_back(r.next()); std::string ext = r.chance(.5) ? "hdr" : "png";
    team(nt, viapar, [&](int t) {
        sim::Rng q; q.seed(rnd[t]);
        for (size_t i = 0; i < plan[t].size(); i++) {
            int x = (int)q.below(w), y = (int)q.below(h); Vec3 v((double)q.below(9), 1, 2); Vec2 rp(q.unit(), q.unit());
            // one thread reads and saves, since the buffer returned by buffer() belongs to the film
            if (reader && t == 0) { if (plan[t][i] == 0) { std::string p = scratch_file("f." + ext); lib([&] { f->save(p); }); } else lib([&] { auto b = f->buffer(); (void)b; }); continue; }
            switch (plan[t][i]) {
            case 0: lib([&] { f->set_pixel(x, y, v); }); break; case 1: lib([&] { f->splat_pixel(x, y, v); }); break; case 2: lib([&] { f->splat(rp, v); }); break;
            case 3: lib([&] { f->update_pixel(x, y, [&](Vec3 c) -> Vec3 { return c + v; }); }); break; case 4: lib([&] { f->inc_ave(x, y, i + 1, v); }); break; default: lib([&] { if (acc) f->accum(o); else { (void)f->size(); (void)f->num_pixels(); } }); }
        }
    });
}
void queries() {
    Rng& r = W(); WorldCfg c; c.renderers = 0; c.files = r.chance(.4); c.extras = false; quiet_start(); World w = gen_world(c); load_defs(w); build_scene(w); int nt = (int)r.range(2, 3); bool viapar = r.chance(.3);
    std::vector<std::string> names; for (auto& d : w.defs) if (d.key.compare(0, 4, "film") && d.key.compare(0, 5, "accel")) names.push_back(d.name);
    std::map<std::string, std::string> want; lib([&] { for (auto& n : names) { FP f; fingerprint(f, lm::comp::get<lm::Component>(aref(n))); Quiet q; want[n] = f.write(); } });
    std::vector<std::vector<int>> plan(nt); std::vector<int> hot; for (int i = 0; i < 3; i++) hot.push_back((int)r.below(names.size())); for (auto& p : plan) { int n = (int)r.range(2, 5); for (int i = 0; i < n; i++) p.push_back(r.chance(.7) ? r.pick(hot) : (int)r.below(names.size())); }
    std::vector<u64> rnd; for (int i = 0; i < nt; i++) rnd.push_back(r.next());
    team(nt, viapar, [&](int t) {
        sim::Rng q; q.seed(rnd[t]);
        for (int k : plan[t]) {
            const std::string& n = names[k]; int z = (int)q.below(4); 
            if (z == 0) { lib([&] { auto p = lm::comp::create<lm::Texture>("texture::constant", "", Json{ {"color", { 1, 1, 1 }} }); if (p) p->eval(Vec2(.5)); auto g = lm::comp::get<lm::Component>("$.assets.nothing"); (void)g; lm::comp::detail::foreach_registered([](const std::string&) {}); }); continue; }
            if (z == 1 && !w.scene.empty()) { double a = q.unit(), b = q.unit(), cc = q.unit(), d = q.unit(); lib([&] { auto* s = lm::comp::get<lm::Scene>(aref(w.scene)); lm::Rng g(7); auto h = s->intersect({ Vec3(.25, .5, 6), glm::normalize(Vec3(a - .5, b - .5, -1)) }); if (h && !h->geom.infinite) { s->visible(*h, *h); s->is_light(*h); s->is_camera(*h); } s->traverse_primitive_nodes([](const lm::SceneNode&, Mat4) {}); auto ls = s->sample_light_selection(cc); s->pdf_light_selection(ls.light_index); s->light_primitive_index_at(ls.light_index); for (int i = 0; i < s->num_nodes(); i++) s->node_at(i); (void)d; }); continue; }
            FP f; lib([&] { fingerprint(f, lm::comp::get<lm::Component>(aref(n))); }); FP e; e.read(want[n]); std::string x = fp_diff(e, f); CHECK(x.empty(), "query-depends-on-schedule", "querying %s from several threads gives another result: %s", n.c_str(), x.c_str());
        }
    });
}
void logging() {
    Rng& r = W(); capture_stdout(); lib([&] { lm::log::init("default", Json{ {"color", r.chance(.5)}, {"show_line_and_filename", r.chance(.5)} }); }); int nt = (int)r.range(2, 4); std::vector<std::vector<int>> plan(nt); for (auto& p : plan) { int n = (int)r.range(2, 8); for (int i = 0; i < n; i++) p.push_back((int)r.below(8)); } bool viapar = r.chance(.3);
    team(nt, viapar, [&](int t) { for (int k : plan[t]) lib([&] { switch (k) { case 0: LM_ERROR("error {}", t); break; case 1: LM_WARN("a\nb\nc"); break; case 2: { LM_INDENT(); LM_INFO("indented"); break; } case 3: lm::log::set_severity(t * 10 - 10); break; case 4: LM_PROGRESS("progress {}", t); LM_PROGRESS_END("done"); break; case 5: lm::log::update_indentation(1); lm::log::update_indentation(-1); break; case 6: LM_LOG(5, "x"); break; default: LM_INFO("message {} {}", t, k); } }); });
    release_stdout();
}
}
SCENARIO(P16, true) {
    randomize_sched(3000); if (W().chance(.4)) enable(F_SPURIOUS_CAS, .15); if (W().chance(.3)) enable(F_STALL, .03); if (W().chance(.25)) enable(F_TEAM_SIZE, .3);
    static const char* names[] = { "loops", "build", "film", "queries", "logging" }; int k = (int)W().below(5); describe(names[k]); probe(names[k]);
    switch (k) { case 0: loops(); break; case 1: build(); break; case 2: film(); break; case 3: queries(); break; default: logging(); }
    nontrivial(); CHECK(race_count() == 0, "data-race", "races");
}
