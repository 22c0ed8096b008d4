// P17: lifecycle of the library and its subsystems
#include "world.h"
#include <lm/debug.h>
#include <lm/loggercontext.h>
#include <lm/parallelcontext.h>
#include <lm/progresscontext.h>
#include <lm/objloader.h>
#include <lm/renderer.h>
using namespace sim;
namespace {
int live[5], made[5]; int tag_of[5]; std::vector<std::string> log_seen; std::vector<int> prog_seen; int poll_seen[3]; bool may_throw = false;
struct CtorError : std::runtime_error { CtorError() : std::runtime_error("simulated construction failure") {} };
// user-defined subsystems that count their instances; 'fail' makes the construction fail
template <class B, int K> struct Counted : B { int tag = -1; Counted() { Quiet q; live[K]++; made[K]++; } ~Counted() { Quiet q; live[K]--; event(0x11FE, K); } void construct(const Json& p) override { Quiet q; tag = p.at("tag").get<int>(); tag_of[K] = tag; if (p.count("fail")) throw CtorError(); u64 z; if (may_throw && fault(F_CTOR_THROW, &z)) throw CtorError(); } };
struct Log : Counted<lm::log::LoggerContext, 0> { void log(lm::log::LogLevel, int, const char*, int, const char* m) override { Quiet q; log_seen.push_back(fmtv("%d:%s", tag, m)); } void update_indentation(int) override {} void set_severity(int) override {} };
struct Par : Counted<lm::parallel::ParallelContext, 1> { int num_threads() const override { return 100 + tag; } bool main_thread() const override { return true; } void foreach(long long n, const lm::parallel::ParallelProcessFunc& f, const lm::parallel::ProgressUpdateFunc&) const override { for (long long i = 0; i < n; i++) f(i, 0); } };
struct Prog : Counted<lm::progress::ProgressContext, 2> { void start(lm::progress::ProgressMode, long long, double) override { Quiet q; prog_seen.push_back(tag * 10 + 1); } void update(long long) override { Quiet q; prog_seen.push_back(tag * 10 + 2); } void update_time(Float) override { Quiet q; prog_seen.push_back(tag * 10 + 3); } void end() override { Quiet q; prog_seen.push_back(tag * 10 + 4); } };
struct Obj : Counted<lm::objloader::OBJLoaderContext, 3> { bool load(const std::string&, lm::objloader::OBJSurfaceGeometry& g, const lm::objloader::ProcessMeshFunc&, const lm::objloader::ProcessMaterialFunc&) override { g.ps.assign(1, Vec3(100 + tag)); return true; } };
struct Asset : Counted<lm::Component, 4> {};
template <class C> void regc(const char* k) { lm::comp::detail::reg(k, "", []() -> lm::Component* { return new C; }, [](lm::Component* c) { delete c; }); }
enum St { OFF, DEF, SIM, UNSURE };
enum Out { OK, UNINIT, OTHER };
const char* outn[] = { "succeeded", "reported an uninitialised subsystem", "failed with another error" };
Out attempt(const std::function<void()>& f, std::string* what = nullptr) { try { lib([&] { f(); }); return OK; } catch (lm::Exception& e) { if (what) *what = e.what(); return std::string(e.what()).find("err='Uninitialized'") != std::string::npos ? UNINIT : OTHER; } catch (std::exception& e) { if (what) *what = e.what(); return OTHER; } }
}
SCENARIO(P17, false) {
    randomize_sched(500); Rng& r = W(); capture_stdout();
    lib([] { regc<Log>("logger::sim"); regc<Par>("parallel::sim"); regc<Prog>("progress::sim"); regc<Obj>("objloader::sim"); regc<Asset>("simlife::asset"); });
    std::string obj = write_text("a.obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\n"); static const char* sub[] = { "log", "parallel", "progress", "objloader" };
    St st[4] = { OFF, OFF, OFF, OFF }; int tag[4] = {}, par_n = 0; bool up = false, unsure_up = false, assets_unsure = true; int nassets = 0; int serial = 0, depth = 0, sev = 0; bool fmt_known = true; int poll_fn = -1; bool ever = false;
    auto outlen = [&] { return captured().size(); };
    auto init_one = [&](int k, const std::string& type, const Json& p) { switch (k) { case 0: lm::log::init(type, p); break; case 1: lm::parallel::init(type, p); break; case 2: lm::progress::init(type, p); break; default: lm::objloader::init(type, p); } };
    auto shut_one = [&](int k) { switch (k) { case 0: lm::log::shutdown(); break; case 1: lm::parallel::shutdown(); break; case 2: lm::progress::shutdown(); break; default: lm::objloader::shutdown(); } };
    auto check_live = [&](const std::string& when) { for (int k = 0; k < 4; k++) { if (st[k] == UNSURE) { CHECK(live[k] >= 0 && live[k] <= 1, "instance-count", "%s: %d instances of the %s subsystem are alive", when.c_str(), live[k], sub[k]); continue; } CHECK(live[k] == (st[k] == SIM), live[k] > (st[k] == SIM) ? "not-released" : "released-early", "%s: %d instances of the user's %s subsystem are alive, expected %d", when.c_str(), live[k], sub[k], st[k] == SIM); } };
    auto need = [&](int k, const char* call, const std::function<void()>& f) -> bool { std::string w; Out o = attempt(f, &w); if (st[k] == UNSURE) { CHECK(o != OTHER, "wrong-error", "%s %s: %s", call, outn[o], w.c_str()); return o == OK; } Out e = st[k] == OFF ? UNINIT : OK; CHECK(o == e, e == UNINIT ? "use-before-init" : "works-after-init", "%s %s, but the %s subsystem is %s (%s)", call, outn[o], sub[k], e == UNINIT ? "not initialised" : "initialised", w.c_str()); return o == OK; };
    auto need_up = [&](const char* call, const std::function<void()>& f) -> bool { std::string w; Out o = attempt(f, &w); if (unsure_up) { CHECK(o != OTHER, "wrong-error", "%s %s: %s", call, outn[o], w.c_str()); return o == OK; } Out e = up ? OK : UNINIT; CHECK(o == e, e == UNINIT ? "use-before-init" : "works-after-init", "%s %s, but the library is %sinitialised (%s)", call, outn[o], up ? "" : "not ", w.c_str()); return o == OK; };
    auto say = [&] {
        std::string m = fmtv("MSG%d", serial++); size_t at = outlen(), seen = log_seen.size(); int level = serial % 3 == 0 ? 30 : 10; lib([&] { lm::log::log((lm::log::LogLevel)level, level, "life.cpp", 7, m.c_str()); }); std::string o = captured().substr(at);
        if (st[0] == OFF) CHECK(o == m + "\n", "no-plain-output", "without a logger the message %s was printed as '%s'", m.c_str(), o.c_str());
        else if (st[0] == SIM) CHECK(log_seen.size() == seen + 1 && log_seen.back() == fmtv("%d:%s", tag[0], m.c_str()) && o.empty(), "wrong-subsystem", "a message did not reach the initialised logger %d", tag[0]);
        else if (st[0] == DEF) { if (sev > level) CHECK(o.empty(), "wrong-subsystem", "a message below the threshold was printed"); else { std::string body = (depth > 0 ? std::string(2 * depth, '.') + " " : std::string()) + m + "\n"; size_t p = o.find("] "); CHECK(p != std::string::npos && o.size() >= body.size() && o.compare(o.size() - body.size(), body.size(), body) == 0, "wrong-subsystem", "the default logger printed '%s' for %s at depth %d", o.c_str(), m.c_str(), depth); std::string head = o.substr(0, o.size() - body.size()); CHECK(head.find("..") == std::string::npos, "stale-state", "a fresh logger printed '%s' at depth %d", o.c_str(), depth); } }
        else CHECK(o.find(m) != std::string::npos || log_seen.size() == seen + 1 || sev > level, "message-lost", "message %s was lost", m.c_str());
    };
    auto use = [&](int what) {
        switch (what) {
        case 0: say(); break;
        case 1: { int n = 0; need(1, "parallel::num_threads()", [&] { n = lm::parallel::num_threads(); }); if (st[1] == DEF && par_n) CHECK(n == par_n, "wrong-subsystem", "num_threads() is %d after initialising with %d", n, par_n); if (st[1] == SIM) CHECK(n == 100 + tag[1], "wrong-subsystem", "num_threads() is answered by another instance"); bool m = false; need(1, "parallel::main_thread()", [&] { m = lm::parallel::main_thread(); }); if (st[1] != OFF && st[1] != UNSURE) CHECK(m, "main-thread", "main_thread() is false on the main thread"); break; }
        case 2: { std::vector<int> hit(9); bool ok = need(1, "parallel::foreach()", [&] { lm::parallel::foreach(9, [&](long long i, int) { Quiet q; hit[i]++; }); }); for (int h : hit) CHECK(h == (ok ? 1 : 0), "loop-wrong", "an iteration ran %d times", h); break; }
        case 3: { size_t s = prog_seen.size(); bool ok = need(2, "progress::start()", [&] { lm::progress::start(lm::progress::ProgressMode::Samples, 3, -1); }); need(2, "progress::update()", [&] { lm::progress::update(2); }); need(2, "progress::update_time()", [&] { lm::progress::update_time(.5); }); need(2, "progress::end()", [&] { lm::progress::end(); }); if (st[2] == SIM) CHECK(ok && prog_seen.size() == s + 4 && prog_seen[s] == tag[2] * 10 + 1 && prog_seen[s + 3] == tag[2] * 10 + 4, "wrong-subsystem", "progress events did not reach the initialised instance"); break; }
        case 4: { lm::objloader::OBJSurfaceGeometry g; int faces = 0; bool ret = false; need(3, "objloader::load()", [&] { ret = lm::objloader::load(obj, g, [&](const lm::objloader::OBJMeshFace& f, const lm::objloader::MTLMatParams&) -> bool { Quiet q; faces += (int)f.size() / 3; return true; }, [](const lm::objloader::MTLMatParams&) -> bool { return true; }); }); if (st[3] == DEF) CHECK(ret && g.ps.size() == 3 && faces == 1, "works-after-init", "the loader returned %zu vertices and %d faces", g.ps.size(), faces); if (st[3] == SIM) CHECK(ret && g.ps.size() == 1 && g.ps[0].x == 100 + tag[3], "wrong-subsystem", "the load was answered by another instance"); break; }
        case 5: need_up("info()", [] { lm::info(); }); break;
        case 6: { lm::AssetGroup* a = nullptr; need_up("assets()", [&] { a = lm::assets(); }); if (up && !unsure_up) CHECK(a, "works-after-init", "assets() is null"); std::string n = fmtv("as%d", nassets); lm::Component* c = nullptr; bool ok = need_up("load_asset()", [&] { c = lm::assets()->load_asset(n, "simlife::asset", { {"tag", nassets} }); }); if (ok) { CHECK(c, "works-after-init", "an asset could not be loaded"); nassets++; CHECK(lib([&] { return lm::comp::get<lm::Component>(aref(n)); }) == c, "works-after-init", "a loaded asset cannot be found"); } break; }
        case 7: { std::string f = scratch_file("state"); bool had = lib([&] { return lm::comp::get<lm::Component>("$.assets.as0"); }) != nullptr; if (had) break; nassets = assets_unsure ? nassets : 0; bool ok = need_up("save_state_to_file()", [&] { lm::save_state_to_file(f); }); if (ok) need_up("load_state_from_file()", [&] { lm::load_state_from_file(f); }); else { write_text("state", "x"); need_up("load_state_from_file()", [&] { lm::load_state_from_file(f); }); } break; }
        case 8: { bool uninit = false; lm::Component* a = nullptr; std::string w; Out o = attempt([&] { a = lm::comp::get<lm::Component>("$.assets"); }, &w); CHECK(o == OK, "query-throws", "looking up the assets %s: %s", outn[o], w.c_str()); Out p = attempt([&] { lm::debug::print_asset_tree(true); }, &w); CHECK(p == (a ? OK : UNINIT), "use-before-init", "print_asset_tree() %s (%s) while the assets %s", outn[p], w.c_str(), a ? "exist" : "do not exist"); (void)uninit; break; }
        case 9: { if (!up || unsure_up) break; std::string w, n = "meshlife"; lm::Component* c = nullptr; Out o = attempt([&] { c = lm::assets()->load_asset(n, "mesh::wavefrontobj", { {"path", obj} }); }, &w); if (st[3] == DEF) CHECK(o == OK && c, "works-after-init", "loading a mesh %s: %s", outn[o], w.c_str()); if (st[3] == OFF) { CHECK(o == UNINIT, "use-before-init", "loading a mesh without a loader %s: %s", outn[o], w.c_str()); } break; }
        case 10: { if (!up || unsure_up) break; std::string w; Out o = attempt([&] { lm::load<lm::Film>("lifefilm", "film::bitmap", Json{ {"w", 2}, {"h", 2} }); auto* rr = lm::load<lm::Renderer>("liferender", "renderer::blank", Json{ {"output", "$.assets.lifefilm"}, {"color", { 1, 2, 3 }} }); if (!rr) LM_THROW_EXCEPTION(lm::Error::None, "no renderer"); rr->render(); }, &w); CHECK(o != OTHER, "wrong-error", "rendering %s: %s", outn[o], w.c_str()); break; }
        case 11: { int v = serial++; int a = poll_seen[0], b = poll_seen[1]; lib([&] { lm::debug::poll(v); }); CHECK(poll_seen[0] == a + (poll_fn == 0) && poll_seen[1] == b + (poll_fn == 1), "poll-callback", "polling called %d and %d callbacks, registered is %d", poll_seen[0] - a, poll_seen[1] - b, poll_fn); break; }
        default: { lib([&] { lm::exception::stack_trace(); lm::exception::disable_fpex(); lm::exception::enable_fpex(); }); }
        }
    };
    int n = (int)r.range(3, 16); bool faults = r.chance(.5), allocs = faults && r.chance(.3); 
    for (int i = 0; i < n; i++) {
        int op = (int)r.below(16), k = (int)r.below(4), z = (int)r.below(8), what = (int)r.below(13), uses = (int)r.below(4); std::vector<int> us; for (int j = 0; j < uses; j++) us.push_back((int)r.below(13)); double ap = r.unit() * .02; int d = (int)r.range(-2, 3), sv = (int)r.pick(std::vector<int>{ -10, 0, 15, 40 }); int nt = (int)r.range(1, 4);
        if (!op_enabled(i)) continue; disable_all(); may_throw = false; std::string when;
        if (op < 4 || (i == 0 && z < 4)) {                                    // whole library
            bool al = allocs && z & 1; when = "lm::init()"; phase(when); std::string w; int before = live[4]; (void)before; if (al) { enable(F_ALLOC, ap, 1); alloc_faults_on = true; }
            Out o = attempt([&] { lm::init(); }, &w); alloc_faults_on = false; disable_all(); 
            if (o == OK) { up = true; unsure_up = false; for (int j = 0; j < 4; j++) st[j] = DEF; par_n = 0; depth = sev = 0; fmt_known = true; CHECK(live[4] == 0, "not-released", "%d assets survive lm::init()", live[4]); nassets = 0; assets_unsure = false; }
            else { CHECK(al, "init-failed", "lm::init() %s: %s", outn[o], w.c_str()); for (int j = 0; j < 4; j++) st[j] = UNSURE; unsure_up = true; assets_unsure = true; probe("failed_inits"); nontrivial(); depth = 0; sev = 0; }
        } else if (op < 6) {
            when = "lm::shutdown()"; phase(when); std::string w; Out o = attempt([] { lm::shutdown(); }, &w);
            if (unsure_up) { CHECK(o != OTHER, "wrong-error", "lm::shutdown() %s: %s", outn[o], w.c_str()); if (o == OK) { up = unsure_up = false; for (auto& s : st) s = OFF; } }
            else { CHECK(o == (up ? OK : UNINIT), "use-before-init", "lm::shutdown() %s while the library is %sinitialised", outn[o], up ? "" : "not "); if (up) { up = false; for (auto& s : st) s = OFF; } else nontrivial(); }
        } else if (op == 6) { when = "lm::reset()"; phase(when); lib([] { lm::reset(); }); CHECK(live[4] == 0, "not-released", "%d assets survive lm::reset()", live[4]); nassets = 0; assets_unsure = false; CHECK(!lib([] { return lm::comp::get<lm::Component>("$.assets.as0"); }), "not-released", "an asset can be found after lm::reset()"); }
        else if (op < 12) {                                                   // one subsystem
            std::string w; when = fmtv("%s init %d", sub[k], z); phase(when); Json p = Json::object(); Out o; int t = ++serial; bool inj = false;
            if (z < 3) { if (k == 1) p = { {"num_threads", nt} }; o = attempt([&] { init_one(k, k == 1 ? "openmp" : k == 3 ? "simple" : "default", p); }, &w); CHECK(o == OK, "init-failed", "%s %s: %s", when.c_str(), outn[o], w.c_str()); st[k] = DEF; if (k == 1) par_n = nt; if (k == 0) { depth = sev = 0; } }
            else if (z < 5) { p = { {"tag", t} }; may_throw = faults; if (faults) enable(F_CTOR_THROW, .3); u64 f0 = shm->r.faults[F_CTOR_THROW]; o = attempt([&] { init_one(k, "sim", p); }, &w); inj = shm->r.faults[F_CTOR_THROW] != f0; may_throw = false; disable_all(); CHECK(o == (inj ? OTHER : OK), inj ? "failure-swallowed" : "init-failed", "%s %s: %s", when.c_str(), outn[o], w.c_str()); st[k] = inj ? OFF : SIM; tag[k] = t; if (inj) { nontrivial(); probe("failed_inits"); } }
            else if (z == 5) { o = attempt([&] { init_one(k, "no_such_type", p); }, &w); st[k] = OFF; nontrivial(); probe("unknown_types"); (void)o; }
            else if (z == 6) { p = { {"tag", t}, {"fail", true} }; o = attempt([&] { init_one(k, "sim", p); }, &w); CHECK(o == OTHER && w.find("simulated construction") != std::string::npos, "failure-swallowed", "%s with a failing construction %s: %s", when.c_str(), outn[o], w.c_str()); st[k] = OFF; nontrivial(); probe("failed_inits"); }
            else { std::string ty = k == 1 ? "openmp" : k == 3 ? "simple" : "default"; if (k == 0) p = { {"color", "yes"} }; else if (k == 1) p = { {"num_threads", "many"} }; else if (k == 2 && t % 3) { static const char* bad[] = { R"({"delay":1,"progress":{"progress::nope":{}}})", R"({"delay":1})", R"({"delay":1,"progress":{}})", R"({"delay":"x","progress":{"progress::default":{}}})", R"([{"progress::nope":{}}])", R"([{"progress::default":{}},{"progress::nope":{}}])", R"([{}])", R"([1])", R"({"delay":1,"progress":"x"})" }; int v = (t / 3) % 9; p = Json::parse(bad[v]); ty = v < 4 || v == 8 ? "delay" : "mux"; } else { p = { {"tag", "x"} }; ty = "sim"; } o = attempt([&] { init_one(k, ty, p); }, &w); CHECK(o == OTHER || o == UNINIT, "failure-swallowed", "%s with bad parameters %s", when.c_str(), outn[o]); st[k] = OFF; nontrivial(); probe("bad_parameters"); }
        } else if (op < 14) { when = fmtv("%s shutdown", sub[k]); phase(when); lib([&] { shut_one(k); }); st[k] = OFF; }
        else if (op == 14) { when = "log settings"; lib([&] { lm::log::update_indentation(d); lm::log::set_severity(sv); }); if (st[0] != OFF) { depth = std::max(0, depth + d); sev = sv; } if (z < 2) { when = "scoped logger"; lib([&] { lm::log::ScopedInit in("default", Json{ {"color", false} }); Quiet q; LM_INDENT(); st[0] = DEF; depth = 1; sev = 0; say(); }); st[0] = OFF; depth = 0; } }
        else { when = "poll callback"; poll_fn = z % 3 == 2 ? -1 : z % 2; int pf = poll_fn; lib([&] { if (pf < 0) lm::debug::reg_on_poll(nullptr); else lm::debug::reg_on_poll([pf](const Json&) { Quiet q; poll_seen[pf]++; }); }); }
        describe(when); check_live(when); phase("using the library after " + when); use(what); for (int u : us) use(u); check_live(when + " and use");
    }
    // whatever happened, the library works once initialised again
    disable_all(); phase("final initialisation"); std::string w; Out o = attempt([] { lm::init(); }, &w); CHECK(o == OK, "init-failed", "the final lm::init() %s: %s", outn[o], w.c_str()); up = true; unsure_up = false; for (auto& s : st) s = DEF; par_n = 0; depth = sev = 0; nassets = 0; CHECK(live[4] == 0, "not-released", "%d assets survive", live[4]); check_live("the final init");
    lib([] { lm::parallel::init("openmp", Json{ {"num_threads", 2} }); }); par_n = 2; for (int u = 0; u < 13; u++) use(u);
    attempt([] { lm::shutdown(); }); for (auto& s : st) s = OFF; up = false; check_live("the final shutdown"); for (int u = 0; u < 13; u++) if (u != 11) use(u);
    std::string out = captured(); release_stdout(); event(out.size()); (void)ever; (void)fmt_known;
}
