// P08 (saved state restores) and P09 (failed saves and loads)
#include "world.h"
#include <sys/stat.h>
#include <lm/assetgroup.h>
#include <lm/renderer.h>
#include <lm/serial.h>
#include <unistd.h>
using namespace sim;
namespace {
// A user component, present in some processes only
struct UserMat : lm::Material {
    int v = 0; lm::Component* other = nullptr;
    void construct(const Json& p) override { v = lm::json::value<int>(p, "v"); }
    void save(lm::OutputArchive& ar) override { ar(v); }
    void load(lm::InputArchive& ar) override { ar(v); }
    ComponentSample sample_component(const ComponentSampleU&, const lm::PointGeometry&, Vec3) const override { return { 0, 1 }; }
    Float pdf_component(int, const lm::PointGeometry&, Vec3) const override { return 1; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const lm::PointGeometry&, Vec3, int, TransDir) const override { return {}; }
    Vec3 reflectance(const lm::PointGeometry&) const override { return Vec3(v); }
    Float pdf_direction(const lm::PointGeometry&, Vec3, Vec3, int, bool) const override { return v; }
    Vec3 eval(const lm::PointGeometry&, Vec3, Vec3, int, TransDir, bool) const override { return Vec3(v); }
    bool is_specular_component(int) const override { return false; }
};
// A user component with every kind of member the serialization interface accepts; mode says how its child is exposed
struct UserBag final : lm::Component {
    int mode = 0; Ptr<lm::Texture> child, none; std::vector<Ptr<lm::Texture>> kids; lm::Texture* ref = nullptr; lm::Component* out = nullptr; lm::Component* nil = nullptr; std::vector<lm::Component*> refs;
    std::optional<Vec3> opt, noopt; lm::Mat3 m3{1}; Mat4 m4{1}; std::atomic<long long> at{0}; std::string str; std::vector<Vec2> v2; std::unordered_map<std::string, int> um; bool flag = false; unsigned char u8 = 0; long long i64 = 0; float f32 = 0; Float f64 = 0; lm::Bound bnd; lm::Dist dist; 
    LM_SERIALIZE_IMPL(ar) { ar(mode, child, none, kids, ref, out, nil, refs, opt, noopt, m3, m4, at, str, v2, um, flag, u8, i64, f32, f64, bnd, dist); }
    void construct(const Json& p) override {
        mode = p["mode"]; const std::string mine = mode == 1 ? "" : mode == 2 ? make_loc("elsewhere") : make_loc("child");
        child = lm::comp::create<lm::Texture>("texture::constant", mine, { {"color", { .5, .25, .125 }} }); ref = child.get();
        for (int i = 0; i < (int)p["kids"]; i++) { kids.push_back(lm::comp::create<lm::Texture>("texture::constant", make_loc("kid" + std::to_string(i)), { {"color", { .5 * i, .25, .125 }} })); refs.push_back(kids.back().get()); if (i & 1) refs.push_back(nullptr); }
        if (p.count("out")) out = lm::comp::get<lm::Component>(p["out"].get<std::string>());
        opt = Vec3(1, 2, p["x"]); m3[1][2] = 5; m4[3][1] = 7; m4[0][3] = p["x"]; at = 123456789012345ll; str = std::string("a\0b\n", 4); v2 = { Vec2(1, 2), Vec2(3, p["x"]) }; um = { {"k", 1}, {"", 2} }; flag = true; u8 = 200; i64 = -1ll << 60; f32 = 1.5f; f64 = 1e300; bnd.min = Vec3(-1); bnd.max = Vec3(2); dist.add(1); dist.add(3); dist.norm();
    }
    lm::Component* underlying(const std::string& n) const override { if (n == "child" && mode != 3) return child.get(); for (size_t i = 0; i < kids.size(); i++) if (n == "kid" + std::to_string(i)) return kids[i].get(); return nullptr; }
    void foreach_underlying(const ComponentVisitor& v) override { lm::comp::visit(v, child); for (auto& k : kids) lm::comp::visit(v, k); lm::comp::visit(v, ref); lm::comp::visit(v, out); for (auto& k : refs) lm::comp::visit(v, k); }
    void fp(FP& f) {
        auto L = [](lm::Component* c) { return c ? c->loc() : std::string("null"); };
        f.add("bag.mode", mode); f.add("bag.child", L(child.get())); f.add("bag.none", none ? 1 : 0); for (auto& k : kids) f.add("bag.kid", L(k.get())); f.add("bag.ref", ref == child.get()); f.add("bag.out", L(out)); f.add("bag.nil", L(nil)); for (auto* k : refs) f.add("bag.refs", L(k)); for (size_t i = 0, j = 0; i < refs.size(); i++) if (refs[i]) f.add("bag.refs.same", refs[i] == kids[j++].get());
        f.add("bag.opt", bool(opt)); if (opt) f.add("bag.opt", *opt); f.add("bag.noopt", bool(noopt)); for (int i = 0; i < 9; i++) f.add("bag.m3", m3[i / 3][i % 3]); for (int i = 0; i < 16; i++) f.add("bag.m4", m4[i / 4][i % 4]); f.add("bag.at", (double)at.load()); f.add("bag.str", (double)std::hash<std::string>()(str)); for (auto& v : v2) { f.add("bag.v2", v.x); f.add("bag.v2", v.y); } for (auto& k : std::map<std::string, int>(um.begin(), um.end())) f.add("bag.um " + k.first, k.second);
        f.add("bag.s", flag); f.add("bag.s", u8); f.add("bag.s", (double)i64); f.add("bag.s", f32); f.add("bag.s", f64); f.add("bag.b", bnd.min); f.add("bag.b", bnd.max); for (Float c : dist.c) f.add("bag.dist", c);
    }
};
void bag_fp(FP& f) { lib([&] { if (auto* b = dynamic_cast<UserBag*>(lm::comp::get<lm::Component>(aref("bag")))) b->fp(f); else f.add("no bag", 1); }); }
void reg_bag() { lm::comp::detail::reg("sim::bag", "", [] { return (lm::Component*)new UserBag; }, [](lm::Component* c) { delete c; }); }
void reg_user() { lm::comp::detail::reg("material::user", "", [] { return (lm::Component*)new UserMat; }, [](lm::Component* c) { delete c; }); }

void start_lib(int threads = 1) { lib([&] { lm::init(); lm::log::set_severity(1000); lm::parallel::init("openmp", { {"num_threads", threads} }); }); }
struct Nested { bool on = false; std::vector<Def> defs; };
Nested gen_nested(Rng& r) {
    Nested n; n.on = r.chance(.5); std::string b = "$.assets.grp.";
    n.defs.push_back({ "t", "texture::constant", { {"color", { .25, .5, .75 }} } });
    n.defs.push_back({ "m", "material::diffuse", { {"mapKd", b + "t"} } });
    n.defs.push_back({ "m1", "material::proxy", { {"ref", b + "m"} } });
    n.defs.push_back({ "mesh", "mesh::raw", mesh_json(r, 2, Vec3(0), true) });
    n.defs.push_back({ "l", "light::area", { {"Ke", { 1, 2, 3 }}, {"mesh", b + "mesh"} } });
    if (r.chance(.5)) n.defs.push_back({ "sub", "asset_group::default", Json::object() });
    return n;
}
void load_nested(const Nested& n) {
    if (!n.on) return;
    lib([&] {
        auto* g = dynamic_cast<lm::AssetGroup*>(lm::assets()->load_asset("grp", "asset_group::default", Json::object())); if (!g) violate("load-failed", "asset group");
        for (auto& d : n.defs) { auto* c = g->load_asset(d.name, d.key, d.prop); if (!c) violate("load-failed", "nested asset " + d.name); if (d.name == "sub") { auto* s = dynamic_cast<lm::AssetGroup*>(c); if (!s->load_asset("x", "material::proxy", { {"ref", "$.assets.grp.m1"} })) violate("load-failed", "nested asset x"); } }
    });
}
FP all_fp() { FP f; lib([&] { phase("fingerprint"); fingerprint_tree(f, lm::comp::get<lm::Component>("$.assets")); }); return f; }
// runs the world's renderers one after another (one worker, seeded) and records the films
void render_all(FP& f, const World& w) {
    lib([&] { for (auto& r : w.renderers) { auto* film = lm::comp::get<lm::Film>(aref(w.film)); film->clear(); auto* rn = lm::comp::get<lm::Renderer>(aref(r)); if (!rn) violate("lost-asset", "renderer " + r + " is gone"); phase("rendering with " + w.find(r)->key + " " + w.find(r)->prop.dump()); rn->render(); f.add("render", r); fp_film(f, film); } });
}
FP rename_fp(FP f, const std::string& a, const std::string& b) {
    for (auto& n : f.n) { for (const std::string suf : { " ", ".", "'", "=" }) { std::string x = aref(a) + suf, y = aref(b) + suf; size_t p = 0; while ((p = n.find(x, p)) != std::string::npos) { n.replace(p, x.size(), y); p += y.size(); } } std::string x = aref(b) + " name='" + a + "'"; if (n == x) n = aref(b) + " name='" + b + "'"; }
    return f;
}
// does the subtree below c refer to something outside?
bool external_refs(lm::Component* c) {
    std::string L = c->loc(); bool ext = false;
    std::function<void(lm::Component*)> go = [&](lm::Component* x) { x->foreach_underlying([&](lm::Component*& p, bool weak) { if (!p) return; if (!weak) go(p); else { std::string l = p->loc(); if (!(l == L || l.compare(0, L.size() + 1, L + ".") == 0)) ext = true; } }); };
    go(c); return ext;
}
void save_asset(const std::string& name, const std::string& path) {
    lib([&] { std::ofstream os(path, std::ios::out | std::ios::binary); auto* c = lm::comp::get<lm::Component>(aref(name)); lm::serial::save_comp_owned(os, c, c->loc()); os.close(); if (!os) throw std::runtime_error("close failed"); });
}
// an asset referring to a sibling whose name starts with its own
void add_prefix(World& w) { w.defs.push_back({ "pre2", "material::diffuse", { {"Kd", { .25, .5, .5 }} } }); w.defs.push_back({ "pre", "material::proxy", { {"ref", aref("pre2")} } }); }
FP asset_fp(const std::string& name) { FP f; lib([&] { fingerprint_tree(f, lm::comp::get<lm::Component>(aref(name))); }); return f; }
void put_fp(const std::string& name, const FP& f) { write_text(name, f.write()); }
bool get_fp(const std::string& name, FP& f) { bool ok; std::string s = read_all(scratch_file(name), &ok); if (ok) f.read(s); return ok; }
}

// ------------------------------------------------------------------------------------------------ P08
SCENARIO(P08, false) {
    randomize_sched(300);
    WorldCfg c; c.sched = "any"; c.renderers = (int)W().range(1, 2); World w = gen_world(c); Nested nest = gen_nested(W());
    bool built = W().chance(.85), prerender = built && W().chance(.5), killed = W().chance(.4), single = W().chance(.5), again = W().chance(.35), user = W().chance(.2), useless = W().chance(.4);
    bool prefix = W().chance(.5); int pre = (int)W().below(4); u64 pick = W().next(); int nrep = (int)W().below(3); u64 rep = W().next();
    bool bag = W().chance(.4), edit = W().chance(.6); int bagmode = W().chance(.3) ? (int)W().range(1, 3) : 0; Json bagprop = { {"mode", bagmode}, {"kids", (int)W().below(4)}, {"x", (double)W().below(9)} }; if (W().chance(.5)) bagprop["out"] = aref(w.defs[W().below(w.defs.size())].name);
    u64 ed = W().next();
    // an edit of the scene, performed on the original and on the restored state
    auto edit_scene = [&](FP& f) { lib([&] {
        auto* s = lm::comp::get<lm::Scene>(aref(w.scene)); if (!s || s->num_nodes() == 0) return; phase("editing the scene");
        std::vector<int> groups; for (int i = 0; i < s->num_nodes(); i++) s->visit_node(i, [&](const lm::SceneNode& n) { if (n.type == lm::SceneNodeType::Group) groups.push_back(n.index); });
        for (int i = 0; i < 3; i++) { int g = groups[(ed >> (8 * i)) % groups.size()]; int n = s->create_primitive_node({ {"mesh", aref("floor")}, {"material", aref("m")} }); s->add_child(g, n); }
        s->build();
    }); FP x = all_fp(); for (size_t i = 0; i < x.n.size(); i++) f.add(x.n[i], x.v[i]); };
    if (prefix) add_prefix(w);
    describe(fmtv("%zu assets, %zu scene edits%s%s%s%s", w.defs.size(), w.sops.size(), nest.on ? ", nested group" : "", built ? "" : ", scene not built", prerender ? ", rendered" : "", killed ? ", killed after save" : ""));
    std::string state = scratch_file("state.bin"), asset = scratch_file("asset.bin"); std::string sname;
    if (useless) write_text("state.bin", std::string(4000, 'x'));       // an older, longer file is overwritten
    auto build = [&] { if (user) reg_user(); if (bag) reg_bag(); start_lib(); load_defs(w); load_nested(nest); if (user) lib([&] { lm::assets()->load_asset("u", "material::user", { {"v", 5} }); }); if (bag) lib([&] { if (!lm::assets()->load_asset("bag", "sim::bag", bagprop)) violate("load-failed", "user component"); }); build_scene(w, built); };
    int rc = in_process([&] {
        build(); FP f;
        if (prerender) { FP x; render_all(x, w); }
        for (int i = 0; i < nrep; i++) { auto& d = w.defs[(rep >> (8 * i)) % w.defs.size()]; if (d.key.find("scene::") == 0 || d.key.find("film") == 0) continue; lib([&] { phase("replacing " + d.name); lm::assets()->load_asset(d.name, d.key, d.prop); }); }
        if (nrep) build_scene(w, built);
        f = all_fp(); if (!bagmode || !bag) check_refs("before saving"); put_fp("a.fp", f); if (bag) { FP x; bag_fp(x); put_fp("b.fp", x); }
        if (single) {
            std::vector<std::string> ok; for (auto& d : w.defs) { auto* p = lm::comp::get<lm::Component>(aref(d.name)); if (p && !external_refs(p)) ok.push_back(d.name); } if (nest.on) { ok.push_back("grp"); ok.push_back("grp"); ok.push_back("grp"); }
            // an asset with references to the outside is refused; when it is not, it has to come back as it was
            std::string ext; if (pick >> 40 & 1) { ext = prefix && pick >> 41 & 1 ? "pre" : w.defs[(pick >> 42) % w.defs.size()].name; auto* p = lm::comp::get<lm::Component>(aref(ext)); if (!p || !external_refs(p)) ext.clear(); }
            if (!ext.empty()) { phase("saving asset " + ext); put_fp("s.fp", asset_fp(ext)); bool refused = false; try { save_asset(ext, asset); } catch (std::exception&) { refused = true; } if (!refused) write_text("s.name", ext); probe(refused ? "outside_reference_refused" : "outside_reference_saved"); }
            else if (!ok.empty()) { std::string n = ok[pick % ok.size()]; phase("saving asset " + n); put_fp("s.fp", asset_fp(n)); write_text("s.name", n); save_asset(n, asset); }
        }
        phase("saving the state");
        if (bag && bagmode) {   // a component that cannot be found under its locator: refused, or restored as it was
            bool refused = false; try { lib([&] { lm::save_state_to_file(state); }); } catch (std::exception&) { refused = true; }
            if (refused) { std::string e = fp_diff(f, all_fp()); CHECK(e.empty(), "save-changed-state", "a refused save changed the live state: %s", e.c_str()); probe("unreachable_component_refused"); exit_process(7); }
        }
        else lib([&] { lm::save_state_to_file(state); });
        if (killed) exit_process(137);
        std::string e = fp_diff(f, all_fp()); CHECK(e.empty(), "save-changed-state", "saving changed the live state: %s", e.c_str());
        CHECK(fs_open_count() == 0, "file-leak", "saving left a file open: %s", fs_open_paths().c_str());
        if (built) { FP r; render_all(r, w); put_fp("r.fp", r); }
        if (edit) { FP r; edit_scene(r); put_fp("e.fp", r); }
        lib([] { lm::shutdown(); });
    });
    if (rc == 7) return;
    CHECK(rc == 0 || rc == 137, "process-exit", "the saving process ended with status %d", rc);
    bool has_single; sname = read_all(scratch_file("s.name"), &has_single);
    auto restore = [&](const std::string& file, bool more) {
        if (user) reg_user(); if (bag) reg_bag(); start_lib();
        if (pre == 1) load_defs(w); if (pre == 2) lib([] { lm::assets()->load_asset("junk", "material::mirror", Json::object()); lm::assets()->load_asset("m", "material::mirror", Json::object()); }); if (pre == 3) { load_defs(w); build_scene(w, true); }
        phase("loading the state"); lib([&] { lm::load_state_from_file(file); });
        FP a, r; get_fp("a.fp", a); FP b = all_fp(); std::string e = fp_diff(a, b); CHECK(e.empty(), "state-differs", "the loaded state differs from the saved one: %s", e.c_str());
        if (bag) { FP x, y; get_fp("b.fp", x); bag_fp(y); e = fp_diff(x, y); CHECK(e.empty(), "state-differs", "the loaded user component differs from the saved one: %s", e.c_str()); probe("user_components"); }
        if (!bag || !bagmode) check_refs("after loading"); probe("restored"); nontrivial();
        if (more && get_fp("r.fp", r)) { FP q; render_all(q, w); std::string d = fp_diff(r, q); for (size_t i = 0; getenv("SIM_VERBOSE") && i < r.n.size(); i++) fprintf(stderr, "%s %g %g\n", r.n[i].c_str(), r.v[i], i < q.v.size() ? q.v[i] : 0); CHECK(d.empty(), "render-differs", "the loaded scene renders differently: %s", d.c_str()); probe("rendered_after_load"); }
        if (more && edit && get_fp("e.fp", r)) { FP q; edit_scene(q); std::string d = fp_diff(r, q); CHECK(d.empty(), "edit-differs", "the loaded scene behaves differently when it is edited: %s", d.c_str()); probe("edited_after_load"); }
        CHECK(fs_open_count() == 0, "file-leak", "loading left a file open: %s", fs_open_paths().c_str());
    };
    rc = in_process([&] {
        restore(state, !again);
        if (again) { phase("saving the loaded state"); lib([&] { lm::save_state_to_file(scratch_file("state2.bin")); }); return; }
        // the restored assets can be worked with
        lib([&] { phase("editing the loaded state"); auto& d = w.defs[rep % w.defs.size()]; if (d.key.find("scene::") != 0) { lm::assets()->load_asset(d.name, d.key, d.prop); if (!bag || !bagmode) check_refs("after editing the loaded state"); } });
        lib([] { lm::shutdown(); });
    });
    CHECK(rc == 0, "process-exit", "the loading process ended with status %d", rc);
    if (again) { rc = in_process([&] { restore(scratch_file("state2.bin"), true); }); CHECK(rc == 0, "process-exit", "the loading process ended with status %d", rc); probe("second_generation"); }
    if (has_single) {
        describe("single asset " + sname);
        in_process([&] {
            start_lib(); std::string nn = pick & 16 ? sname : pick & 32 ? "other" : sname + "1"; if (pick & 64 && nn != sname) lib([&] { for (auto& d : w.defs) if (d.name == sname) lm::assets()->load_asset(d.name, d.key, d.prop); });
            phase("loading asset " + sname + " as " + nn); auto* c = lib([&] { return lm::assets()->load_serialized(nn, asset); });
            CHECK(c && lm::comp::get<lm::Component>(aref(nn)) == c, "lookup", "the loaded asset is not found under its name");
            FP s; get_fp("s.fp", s); s = rename_fp(s, sname, nn); FP g = asset_fp(nn); std::string e = fp_diff(s, g); CHECK(e.empty(), "asset-differs", "asset %s loaded as %s differs from the saved one: %s", sname.c_str(), nn.c_str(), e.c_str());
            check_refs("after loading an asset"); probe("single_assets");
        });
    }
}

// ------------------------------------------------------------------------------------------------ P09
SCENARIO(P09, false) {
    randomize_sched(300);
    WorldCfg c; c.sched = "any"; c.renderers = 1; World w = gen_world(c); Nested nest = gen_nested(W()); Rng& r = W();
    bool user = r.chance(.3), kill = r.chance(.4); u64 killat = r.below(4); add_prefix(w); int nops = (int)r.range(2, 5); u64 pick = r.next();
    std::string state = scratch_file("state.bin"), torn = scratch_file("torn.bin"), asset = scratch_file("asset.bin");
    auto build = [&](bool u) { start_lib(); load_defs(w); load_nested(nest); if (u) lib([&] { lm::assets()->load_asset("u", "material::user", { {"v", 5} }); }); build_scene(w, true); };
    in_process([&] { build(false); put_fp("a.fp", all_fp()); lib([&] { lm::save_state_to_file(state); save_asset("floor", asset); }); put_fp("floor.fp", asset_fp("floor")); });
    if (user) in_process([&] { reg_user(); build(true); lib([&] { lm::save_state_to_file(scratch_file("user.bin")); }); });
    bool was_killed = false;
    if (kill) { int rc = in_process([&] { build(false); fs_reset_stats(); fs_kill_enabled = true; fs_kill_at = killat; enable(F_KILL, 1); lib([&] { lm::save_state_to_file(torn); }); }); was_killed = rc == 137; fs_kill_enabled = false; probe(was_killed ? "killed_in_save" : "kill_point_after_end"); }
    std::string full = read_all(state), afull = read_all(asset); CHECK(full.size() > 20, "save-empty", "saved state has %zu bytes", full.size());
    bool other = r.chance(.5);
    in_process([&] {
        World v = w; if (other) { WorldCfg c2 = c; c2.files = false; v = gen_world(c2); start_lib(); load_defs(v); build_scene(v, true); } else build(false);
        FP live = all_fp(), sfp, ffp; get_fp("a.fp", sfp); get_fp("floor.fp", ffp);
        auto unchanged = [&](const std::string& after) { fs_faults_on = false; alloc_faults_on = false; disable_all(); fs_capacity = ~0ull; FP f = all_fp(); std::string e = fp_diff(live, f); CHECK(e.empty(), "state-damaged", "after %s the live state changed: %s", after.c_str(), e.c_str()); check_refs(after.c_str()); CHECK(fs_open_count() == 0, "file-leak", "%s left a file open: %s", after.c_str(), fs_open_paths().c_str()); };
        for (int o = 0; o < nops; o++) {
            int k = (int)r.below(11); u64 x = r.next(); double rt = std::vector<double>{ .02, .1, 1 }[r.below(3)];
            if (!op_enabled(o)) continue;
            fs_error_reset(); fs_reset_stats(); disable_all(); fs_capacity = ~0ull;
            bool threw = false; std::string what;
            auto attempt = [&](const std::function<void()>& f) { try { lib(f); } catch (std::exception& e) { threw = true; what = e.what(); } fs_faults_on = false; alloc_faults_on = false; fs_capacity = ~0ull; event(0x509, k, threw); };
            auto must_fail = [&](const std::string& desc) { describe(desc); CHECK(threw, "failure-not-reported", "%s ended without an exception", desc.c_str()); probe("reported_failures"); nontrivial(); unchanged(desc); };
            auto load_ok = [&](const std::string& desc, const std::string& path, const FP& want) { CHECK(!threw, "no-recovery", "%s failed: %s", desc.c_str(), what.c_str()); FP f = all_fp(); std::string e = fp_diff(want, f); CHECK(e.empty(), "state-differs", "%s: loaded state differs: %s", desc.c_str(), e.c_str()); check_refs(desc.c_str()); live = f; (void)path; };
            if (k <= 2) {       // save with failing storage
                int fk = (int)(x % 6); fs_faults_on = true; std::string path = scratch_file(x & 512 ? "out.bin" : "nodir/out.bin"); if (!(x & 1024)) path = scratch_file("out.bin");
                bool noparent = path.find("nodir") != std::string::npos, isdir = !noparent && (x >> 30) % 8 == 0; if (isdir) { path = scratch_file("outdir"); mkdir(path.c_str(), 0700); probe("save_to_directory"); }
                if (!noparent && !isdir && (x >> 30) % 8 == 1) { fs_faults_on = false; write_text("out.bin", std::string(full.size() + 3000, 'x')); fs_faults_on = true; probe("save_over_longer_file"); }
                switch (fk) { case 0: enable(F_OPEN_ERR, 1); break; case 1: enable(F_WRITE_ERR, rt, 1 + (x >> 4) % 2); break; case 2: fs_capacity = (x >> 20) % (full.size() + 50); break; case 3: enable(F_CLOSE_ERR, .8); enable(F_RENAME_ERR, .5); enable(F_FSYNC_ERR, .5); break; case 4: enable(F_WRITE_SHORT, .7); enable(F_WRITE_EINTR, .3); break; default: enable(F_WRITE_ERR, .05); enable(F_CLOSE_ERR, .1); enable(F_WRITE_SHORT, .4); enable(F_WRITE_EINTR, .2); }
                bool sa = x & 4096; std::string d = fmtv("saving %s (storage fault %d%s)", sa ? "an asset" : "the state", fk, noparent ? ", missing directory" : "");
                phase(d); if (sa) attempt([&] { save_asset("floor", path); }); else attempt([&] { lm::save_state_to_file(path); });
                bool seen = fs_error_seen() || noparent || isdir; if (isdir) CHECK(threw, "failure-not-reported", "%s to the path of a directory ended without an exception", d.c_str());
                if (!seen && fk != 2) CHECK(!threw, "spurious-failure", "%s failed although no error was injected: %s", d.c_str(), what.c_str());
                if (threw) { must_fail(d); if (noparent || isdir) continue; threw = false; phase("saving again"); if (sa) attempt([&] { save_asset("floor", path); }); else attempt([&] { lm::save_state_to_file(path); }); CHECK(!threw, "no-recovery", "%s again on healthy storage failed: %s", d.c_str(), what.c_str()); }
                else describe(d);
                unchanged(d);
                if (!sa) { disable_all(); phase("loading what was saved"); attempt([&] { lm::load_state_from_file(path); }); CHECK(!threw, "incomplete-save", "%s reported success but the file cannot be loaded: %s (%s)", d.c_str(), what.c_str(), fs_error_text().c_str()); load_ok(d, path, live); }
                else { phase("loading what was saved"); attempt([&] { lm::assets()->load_serialized(fmtv("re%d", o), path); }); CHECK(!threw, "incomplete-save", "%s reported success but the file cannot be loaded: %s", d.c_str(), what.c_str()); FP g = asset_fp(fmtv("re%d", o)); FP h = asset_fp("floor"); h = rename_fp(h, "floor", fmtv("re%d", o)); std::string e = fp_diff(h, g); CHECK(e.empty(), "asset-differs", "%s: %s", d.c_str(), e.c_str()); live = all_fp(); }
            } else if (k == 3) { size_t n = x % full.size(); if (x >> 60 < 4) n = full.size() - 1 - x % std::min<size_t>(full.size(), 9); write_text("cut.bin", full.substr(0, n)); phase("loading a truncated state"); attempt([&] { lm::load_state_from_file(scratch_file("cut.bin")); }); must_fail(fmtv("loading a state truncated to %zu of %zu bytes", n, full.size())); probe("truncated_loads"); shm->r.faults[F_TRUNCATE]++; }
            else if (k == 4) { phase("loading a missing state"); bool dir = x & 1; attempt([&] { lm::load_state_from_file(dir ? std::string(".") : scratch_file("missing.bin")); }); must_fail("loading a missing state"); }
            else if (k == 5 || k == 6) {       // load with failing storage
                int fk = (int)(x % 4); fs_faults_on = true; switch (fk) { case 0: enable(F_OPEN_ERR, 1); break; case 1: enable(F_READ_ERR, rt, 1 + (x >> 4) % 2); break; case 2: enable(F_READ_SHORT, .7); enable(F_READ_EINTR, .3); break; default: enable(F_READ_ERR, .05); enable(F_READ_SHORT, .4); enable(F_READ_EINTR, .2); }
                std::string d = fmtv("loading a state (storage fault %d)", fk); phase(d); attempt([&] { lm::load_state_from_file(state); });
                if (!fs_error_seen()) CHECK(!threw, "spurious-failure", "%s failed although no error was injected: %s", d.c_str(), what.c_str());
                if (threw) { must_fail(d); threw = false; attempt([&] { lm::load_state_from_file(state); }); }
                disable_all(); load_ok(d, state, sfp); v = w;
            } else if (k == 7) { if (user) { phase("loading a state with an unknown component"); attempt([&] { lm::load_state_from_file(scratch_file("user.bin")); }); must_fail("loading a state with an unavailable component"); probe("unknown_component"); } }
            else if (k == 8) {                 // single assets
                int fk = (int)(x % 6); static const char* badn[] = { "a.b", "", "x y", "$", "fresh.x" }; std::string nn = fk == 3 ? v.defs[x % v.defs.size()].name : fk == 5 ? std::string(badn[(x >> 9) % 5]) : "fresh"; std::string path = asset; size_t n = (x >> 8) % afull.size();
                if (fk == 0) { write_text("acut.bin", afull.substr(0, n)); path = scratch_file("acut.bin"); } else if (fk == 1) path = scratch_file("missing.bin"); else if (fk == 2) { fs_faults_on = true; enable(F_READ_ERR, rt); if (x & 64) enable(F_OPEN_ERR, .5); } else if (fk == 4) { fs_faults_on = true; enable(F_READ_SHORT, .5); enable(F_READ_EINTR, .3); }
                std::string d = fmtv("loading a serialized asset (%s)", fk == 0 ? "truncated" : fk == 1 ? "missing" : fk == 2 ? "read errors" : fk == 3 ? "name in use" : fk == 5 ? "invalid name" : "short reads"); phase(d);
                attempt([&] { lm::assets()->load_serialized(nn, path); });
                if (fk == 4) CHECK(!threw, "spurious-failure", "%s failed: %s", d.c_str(), what.c_str());
                if (fk == 2 && !fs_error_seen()) CHECK(!threw, "spurious-failure", "%s failed: %s", d.c_str(), what.c_str());
                if (threw || fk < 2 || fk == 3 || fk == 5) { must_fail(d); if (fk == 3) continue; threw = false; nn = fmtv("fr%d", o); attempt([&] { lm::assets()->load_serialized("fresh", asset); }); CHECK(!threw, "no-recovery", "%s: loading again failed: %s", d.c_str(), what.c_str()); }
                disable_all(); FP g = asset_fp("fresh"), h = rename_fp(ffp, "floor", "fresh"); std::string e = fp_diff(h, g); CHECK(e.empty(), "asset-differs", "%s: %s", d.c_str(), e.c_str());
                lib([&] { lm::load_state_from_file(state); }); v = w; live = all_fp();
            } else if (k == 9) {               // references to the outside cannot be saved alone
                Def d = v.defs[x % v.defs.size()]; if (x >> 60 < 6 && v.find("pre")) d = *v.find("pre"); auto* p = lm::comp::get<lm::Component>(aref(d.name)); if (!p || !external_refs(p)) continue;
                phase("saving an asset with outside references"); attempt([&] { save_asset(d.name, scratch_file("ext.bin")); }); must_fail("saving asset " + d.name + " which refers to other assets");
            } else {                           // torn file of a killed save
                if (!kill) continue; bool ok; std::string t = read_all(torn, &ok); phase("loading the file of a killed save"); attempt([&] { lm::load_state_from_file(torn); });
                if (t.size() < full.size()) { must_fail(fmtv("loading the file of a killed save (%zu of %zu bytes)", t.size(), full.size())); probe("torn_loads"); } else { load_ok("loading the file of a save killed at the end", torn, sfp); v = w; }
            }
            (void)pick;
        }
        lib([] { lm::shutdown(); });
    });
}
