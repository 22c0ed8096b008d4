// P10: asset loads, replacements, failed loads and scene edits
#include "world.h"
#include <lm/assetgroup.h>
#include <lm/renderer.h>
#include <lm/serial.h>
using namespace sim;
namespace {
struct Tracked;
std::map<Tracked*, int>& alive() { static std::map<Tracked*, int> m; return m; }
int created, destroyed; bool ctor_throw;
// A user material that counts its lives and refers to another asset
struct Tracked : lm::Material {
    lm::Component* r = nullptr; int v = 0;
    Tracked() { Quiet q; created++; alive()[this]++; }
    ~Tracked() { Quiet q; destroyed++; if (alive().erase(this) != 1) violate("destroyed-twice", "a component was destroyed twice"); v = -999; }
    void construct(const Json& p) override { { Quiet q; v = p.value("v", 0); if (p.count("inner")) { std::string in = p["inner"]; lib([&] { lm::assets()->load_asset(in, "texture::constant", Json{ {"color", { .5, .5, .25 }} }); }); } if (p.count("ref")) r = lm::comp::get<lm::Component>(p["ref"].get<std::string>()); u64 pv; if (ctor_throw && fault(F_CTOR_THROW, &pv)) { if (pv & 1) throw 42; throw std::runtime_error("tracked construction failed"); } } }
    void foreach_underlying(const ComponentVisitor& visit) override { lm::comp::visit(visit, r); }
    ComponentSample sample_component(const ComponentSampleU&, const lm::PointGeometry&, Vec3) const override { return { 0, 1 }; }
    Float pdf_component(int, const lm::PointGeometry&, Vec3) const override { return 1; }
    std::optional<DirectionSample> sample_direction(const DirectionSampleU&, const lm::PointGeometry&, Vec3, int, TransDir) const override { return {}; }
    Vec3 reflectance(const lm::PointGeometry& g) const override { auto* t = dynamic_cast<lm::Texture*>(r); auto* m = dynamic_cast<lm::Material*>(r); return t ? t->eval(g.t) : m ? m->reflectance(g) : Vec3(v); }
    Float pdf_direction(const lm::PointGeometry&, Vec3, Vec3, int, bool) const override { return v; }
    Vec3 eval(const lm::PointGeometry&, Vec3, Vec3, int, TransDir, bool) const override { return Vec3(v); }
    bool is_specular_component(int) const override { return false; }
};
Json v3(Rng& r, double lo, double hi) { Json j = Json::array(); for (int i = 0; i < 3; i++) j.push_back(std::round((lo + (hi - lo) * r.unit()) * 64) / 64); return j; }
std::string iface(const std::string& key) { return key.substr(0, key.find("::")); }
// another definition of the same asset, using only assets defined before it
Def mutate(const World& w, size_t i, int serial) {
    Rng& r = W(); Def d = w.defs[i]; std::string k = d.key;
    auto earlier = [&](const std::string& f, bool plain = false) { std::vector<std::string> v; for (size_t j = 0; j < i; j++) if (iface(w.defs[j].key) == f && (!plain || w.defs[j].key == "material::diffuse" || w.defs[j].key == "material::glossy")) v.push_back(w.defs[j].name); return v; };
    if (iface(k) == "texture") { if (r.chance(.7)) { d.key = "texture::constant"; d.prop = { {"color", v3(r, .1, 1)} }; } else { int c = r.chance(.5) ? 3 : 4; d.key = "texture::bitmap"; d.prop = { {"path", write_text(fmtv("rt%d.%s", serial, c == 4 ? "tga" : "ppm"), make_ppm(r, 2, 2, c))} }; } }
    else if (k == "material::diffuse" || k == "material::glossy") { auto t = earlier("texture"); if (r.chance(.3)) { d.key = "material::glossy"; d.prop = { {"Ks", v3(r, .1, .9)}, {"ax", .5}, {"ay", .5} }; } else { d.key = "material::diffuse"; d.prop = !t.empty() && r.chance(.5) ? Json{ {"mapKd", aref(r.pick(t))} } : Json{ {"Kd", v3(r, .1, .9)} }; } }
    else if (iface(k) == "material") {
        auto m = earlier("material"), b = earlier("material", true);
        switch (r.below(4)) { case 0: d.key = "material::mirror"; d.prop = Json::object(); break; case 1: d.key = "material::proxy"; d.prop = { {"ref", aref(r.pick(m))} }; break; case 2: d.key = "material::tracked"; d.prop = { {"v", (int)r.range(1, 9)}, {"ref", aref(r.pick(m))} }; break;
        default: d.key = r.chance(.5) ? "material::constant_weight_mixture_rr" : "material::constant_weight_mixture_marginalized"; d.prop = Json::array(); for (int j = 0; j < 2; j++) d.prop.push_back({ {"material", aref(r.pick(b))}, {"weight", .5} }); } }
    else if (d.name == "floor" || d.name == "lamp") { double dy = r.range(-2, 2) * .25; for (size_t q = 1; q < d.prop["ps"].size(); q += 3) d.prop["ps"][q] = (double)d.prop["ps"][q] + dy; }
    else if (iface(k) == "mesh") { d.key = "mesh::raw"; d.prop = mesh_json(r, (int)r.range(1, 5), Vec3(0), r.chance(.5), 2); }
    else if (k == "light::area") d.prop["Ke"] = v3(r, 1, 4);
    else if (k == "light::point" || k == "light::directional") { if (r.chance(.5)) { d.key = "light::point"; d.prop = { {"Le", v3(r, 1, 4)}, {"position", v3(r, -2, 2)} }; } else { d.key = "light::directional"; d.prop = { {"Le", v3(r, .5, 1)}, {"direction", { .25, -1, .25 }} }; } }
    else if (iface(k) == "light") { d.key = "light::envconst"; d.prop = { {"Le", v3(r, .25, 1)} }; }
    else if (iface(k) == "phase") { d.key = r.chance(.5) ? "phase::hg" : "phase::isotropic"; d.prop = d.key == "phase::hg" ? Json{ {"g", .125 * r.range(-7, 7)} } : Json::object(); }
    else if (iface(k) == "volume") { if (d.prop.count("color")) d.prop["color"] = v3(r, .1, .9); }
    else if (iface(k) == "medium") { auto p = earlier("phase"); d.prop["phase"] = aref(r.pick(p)); if (k == "medium::homogeneous") { d.prop["density"] = .125 * r.range(1, 5); d.prop["albedo"] = v3(r, .1, .9); } }
    else if (iface(k) == "camera") { d.prop["vfov"] = 30. + 5 * r.below(8); d.prop["position"] = { .25, .5, 5. + .5 * r.below(4) }; }
    else if (iface(k) == "film") d.prop = { {"w", (int)r.range(2, 6)}, {"h", (int)r.range(1, 4)} };
    else if (iface(k) == "renderer") { static const char* kinds[] = { "pt", "raycast", "lt", "blank", "bdpt" }; std::string n = kinds[r.below(5)]; d.key = "renderer::" + n; d.prop = gen_renderer(w, n, "any"); }
    else if (iface(k) == "model") { std::string p = d.prop["path"]; std::string o = read_all(p); std::string dir = p.substr(0, p.rfind('/') + 1); size_t a = o.find("mtllib ") + 7, e = o.find('\n', a); std::string mt = read_all(dir + o.substr(a, e - a)); std::string nm = fmtv("rm%d.mtl", serial); size_t kd = mt.find("Kd 0.5 "); if (kd != std::string::npos) mt.replace(kd, 7, fmtv("Kd 0.%d ", (int)r.range(1, 9) * 100 + 25)); write_text(nm, mt); o.replace(a, e - a, nm); d.prop["path"] = write_text(fmtv("rm%d.obj", serial), o); }
    return d;
}
using Ptrs = std::map<std::string, lm::Component*>;
Ptrs pointers() { Ptrs m; std::function<void(lm::Component*)> go = [&](lm::Component* c) { c->foreach_underlying([&](lm::Component*& p, bool weak) { if (p && !weak) { m[p->loc()] = p; go(p); } }); }; go(lm::comp::get<lm::Component>("$")); return m; }
}
SCENARIO(P10, false) {
    randomize_sched(300); created = destroyed = 0; ctor_throw = false;
    WorldCfg c; c.sched = "any"; c.renderers = 2; World w = gen_world(c); Rng& r = W(); World fin = w;
    lm::comp::detail::reg("material::tracked", "", [] { return (lm::Component*)new Tracked; }, [](lm::Component* p) { delete p; });
    int nops = (int)r.range(3, 9); bool nested = r.chance(.4), with_alloc = r.chance(.15); std::string fpfile = "final.fp";
    std::vector<Def> nest = { { "t", "texture::constant", { {"color", { .5, .25, 1 }} } }, { "m", "material::diffuse", { {"mapKd", "$.assets.grp2.t"} } } };
    in_process([&] {
        lib([&] { lm::init(); lm::log::set_severity(1000); lm::parallel::init("openmp", { {"num_threads", 1} }); });
        load_defs(w); build_scene(w, true); lm::AssetGroup* g2 = nullptr;
        auto load_in = [&](lm::AssetGroup* g, const Def& d) { return lib([&] { return g->load_asset(d.name, d.key, d.prop); }); };
        if (nested) { g2 = dynamic_cast<lm::AssetGroup*>(load_in(lm::assets(), { "grp2", "asset_group::default", Json::object() })); for (auto& d : nest) load_in(g2, d); w.defs.push_back({ "outer", "material::proxy", { {"ref", "$.assets.grp2.m"} } }); load_in(lm::assets(), w.defs.back()); }
        check_refs("after loading"); int serial = 0; bool scene_stale = false;
        for (int o = 0; o < nops; o++) {
            int k = (int)r.below(10); u64 x = r.next(); size_t i = x % w.defs.size(); if (r.chance(.35)) { std::vector<size_t> v; for (size_t j = 0; j < w.defs.size(); j++) { std::string f = iface(w.defs[j].key); if (f == "film" || f == "scene" || f == "accel" || f == "camera" || (f == "mesh" && r.chance(.3)) || (f == "light" && r.chance(.3))) v.push_back(j); } if (!v.empty()) i = v[(x >> 12) % v.size()]; } Def d = mutate(w, i, o); bool fresh = r.chance(.3); int fk = (int)r.below(8); bool viagrp = nested && r.chance(.25);
            if (!op_enabled(o)) continue; serial++;
            Ptrs before = pointers(); lm::Component* got = nullptr; bool threw = false; std::string what;
            auto attempt = [&](lm::AssetGroup* g, const Def& q) { phase("loading " + q.name + " (" + q.key + ") " + q.prop.dump().substr(0, 300)); try { got = load_in(g, q); } catch (std::exception& e) { threw = true; what = e.what(); } catch (int) { threw = true; what = "int"; } ctor_throw = false; alloc_faults_on = false; fs_faults_on = false; event(0x10A, k, threw); };
            if (k < 5) {                                       // replacement or new asset
                if (viagrp) { Def q = nest[x & 1]; if (q.name == "t") q.prop["color"] = v3(r, 0, 1); else q.prop = { {"Kd", v3(r, 0, 1)} }; attempt(g2, q); nest[x & 1] = q; CHECK(got, "load-failed", "replacing %s in a group failed: %s", q.name.c_str(), what.c_str()); got = nullptr; probe("nested_replacements"); describe("replace grp2." + q.name); }
                else {
                    if (fresh) { d = w.defs[i]; d.name = fmtv("n%d", o); if (iface(d.key) == "scene") continue; }
                    describe((fresh ? "load " : "replace ") + d.name + " by " + d.key); bool rej = false;
                    attempt(lm::assets(), d); CHECK(!threw && got, "load-failed", "loading %s (%s) failed: %s", d.name.c_str(), d.prop.dump().c_str(), what.c_str()); (void)rej;
                    CHECK(lm::comp::get<lm::Component>(aref(d.name)) == got, "lookup", "%s does not resolve to the asset that was just loaded", d.name.c_str());
                    CHECK(got->key() == d.key && got->name() == d.name && got->loc() == aref(d.name), "identity", "asset %s has key %s, name %s, locator %s", d.name.c_str(), got->key().c_str(), got->name().c_str(), got->loc().c_str());
                    if (fresh) w.defs.push_back(d); else w.defs[i] = d;
                    scene_stale = true; nontrivial(); probe(fresh ? "new_assets" : "replacements"); if (iface(d.key) == "scene") build_scene(w, true);
                }
                Ptrs after = pointers(); std::string self = got ? aref(d.name) : "$.assets.grp2." + nest[x & 1].name;
                for (auto& p : before) if (!(p.first == self || p.first.compare(0, self.size() + 1, self + ".") == 0)) CHECK(after.count(p.first) && after[p.first] == p.second, "other-asset-changed", "loading %s changed asset %s", self.c_str(), p.first.c_str());
            } else if (k < 8) {                                // failing load
                Def q = d; if (iface(q.key) == "scene") q = w.defs[0]; if (fresh) q.name = fmtv("f%d", o); bool must = true; FP f0; bool deep = r.chance(.4); if (deep) lib([&] { lm::comp::get<lm::Scene>(aref(w.scene))->build(); }); if (deep) lib([&] { fingerprint_tree(f0, lm::comp::get<lm::Component>("$.assets")); });
                lm::AssetGroup* g = lm::assets(); std::string inner;      // an asset that the failing one loads while it is being constructed
                switch (fk) {
                case 0: q.key = "material::does_not_exist"; break;
                case 1: { static const char* bad[] = { "a b", "", "x.y", "$", "a/b", "m.", "m\n" }; q.name = bad[x % 7]; break; }
                case 2: q.key = "mesh::wavefrontobj"; q.prop = { {"path", scratch_file("nothere.obj")} }; break;
                case 3: { static const char* ks[] = { "material::proxy", "light::area", "renderer::pt", "renderer::lt", "film::bitmap", "camera::pinhole", "medium::heterogeneous", "texture::bitmap", "mesh::raw" }; q.key = ks[x % 9]; if (q.name == w.scene) q.name = "m"; q.prop = x & 64 ? Json::object() : Json{ {"ref", "$.assets.nope"}, {"mesh", "$.assets.nope"}, {"scene", "$.assets.nope"}, {"path", "nope"}, {"accel", "$.assets.nope"}, {"w", "wide"}, {"volume_density", "$.nope"}, {"Ke", { 1, 1, 1 }}, {"output", "$.assets.film"} }; if ((x >> 50) % 3 == 0) for (auto& y : w.defs) if (iface(y.key) == "renderer" && y.key != "renderer::raycast" && y.key != "renderer::blank") { q.key = y.key; q.prop = y.prop; if (q.key == "renderer::pt" && (x >> 53) % 2) q.prop["primary_ray_sampling_mode"] = "nope"; else q.prop["scheduler"] = "nope"; probe("unknown_schedulers"); break; } break; }
                case 4: q.key = "material::tracked"; q.prop = { {"v", 3} }; if (iface(w.defs[i].key) != "material" && !fresh) q.name = "m"; ctor_throw = true; enable(F_CTOR_THROW, 1, 1); if ((x >> 30) % 3 == 0) { inner = fmtv("n%dinner", o); q.prop["inner"] = inner; } break;
                case 6: break;                              // a serialized asset under an invalid name or a name in use
                case 5: { q.key = "texture::bitmap"; if (!fresh) q.name = "t"; q.prop = { {"path", write_text("ft.ppm", make_ppm(r, 3, 2, 3))} }; fs_faults_on = true; enable(F_OPEN_ERR, 1); break; }
                default: if (viagrp) { g = g2; q = nest[1]; } if (!with_alloc) { q.prop = Json::array({ 1, 2 }); if (iface(q.key) != "camera" && iface(q.key) != "film" && iface(q.key) != "renderer") { q.key = "film::bitmap"; if (!fresh) q.name = "film"; g = lm::assets(); } } else { alloc_faults_on = true; enable(F_ALLOC, x & 256 ? .03 : .2, 1); must = false; } }
                describe(fmtv("failing load %d of %s", fk, q.name.c_str()));
                if (fk == 6) {
                    std::string file = scratch_file("one.bin"); static const char* bad[] = { "a b", "", "x.y", "$", "fresh.x" }; std::string nn = x & 1 ? std::string(bad[x % 5]) : w.defs[(x >> 8) % w.defs.size()].name; q.name = nn;
                    lib([&] { std::ofstream os(file, std::ios::binary); auto* c = lm::comp::get<lm::Component>(aref("floor")); lm::serial::save_comp_owned(os, c, c->loc()); });
                    phase("loading a serialized asset as '" + nn + "'"); try { got = lib([&] { return g->load_serialized(nn, file); }); } catch (std::exception& e) { threw = true; what = e.what(); } probe("serialized_refused");
                } else attempt(g, q);
                disable_all();
                if (must) CHECK(threw || !got, "failure-not-reported", "load of %s (%s) with %s should have failed", q.name.c_str(), q.key.c_str(), q.prop.dump().substr(0, 200).c_str());
                if (threw || !got) {
                    Ptrs after = pointers(); if (!inner.empty()) { CHECK(after.count(aref(inner)), "inner-asset-lost", "asset %s, loaded while constructing an asset that then failed, is gone", inner.c_str()); after.erase(aref(inner)); w.defs.push_back({ inner, "texture::constant", { {"color", { .5, .5, .25 }} } }); deep = false; probe("inner_loads"); }
                    CHECK(after == before, "failed-load-changed-assets", "after a failed load of %s (%s): %s", q.name.c_str(), q.key.c_str(), after.size() != before.size() ? fmtv("%zu assets before, %zu after", before.size(), after.size()).c_str() : "an asset was exchanged");
                    if (g == lm::assets() && fk != 1 && fk != 6 && !before.count("$.assets." + q.name)) { bool reg = lib([&] { return lm::comp::get<lm::Component>("$.assets." + q.name) != nullptr; }); CHECK(!reg, "failed-asset-registered", "after a failed load %s is registered", q.name.c_str()); }
                    if (deep) { FP f1; lib([&] { fingerprint_tree(f1, lm::comp::get<lm::Component>("$.assets")); }); std::string e = fp_diff(f0, f1); CHECK(e.empty(), "failed-load-changed-behaviour", "after a failed load of %s: %s", q.name.c_str(), e.c_str()); }
                    probe("failed_loads"); nontrivial();
                } else if (g == g2) nest[1] = q; else { bool f = false; for (auto& y : w.defs) if (y.name == q.name) { y = q; f = true; } if (!f) w.defs.push_back(q); scene_stale = true; }
            } else if (k == 8) {                               // scene edit
                std::vector<std::string> m, s; for (auto& y : w.defs) { if (iface(y.key) == "material") m.push_back(y.name); if (iface(y.key) == "mesh") s.push_back(y.name); }
                if ((x >> 32) % 5 < 2) {                       // a primitive the scene cannot have
                    bool hasenv = false; std::string cam, lit, env; for (auto& y : w.defs) { if (iface(y.key) == "camera") cam = y.name; if (y.key == "light::area" || y.key == "light::point" || y.key == "light::directional") lit = y.name; if (y.key == "light::env" || y.key == "light::envconst") env = y.name; }
                    hasenv = lib([&] { return lm::comp::get<lm::Scene>(aref(w.scene))->env_light_node() >= 0; }); Json bad; int bk = (int)((x >> 40) % 9);
                    switch (bk) { case 0: bad = { {"mesh", aref(r.pick(s))} }; break; case 1: bad = { {"material", aref(r.pick(m))} }; break; case 2: bad = Json::object(); break; case 3: bad = { {"mesh", "$.assets.nope"} }; break; case 4: if (cam.empty() || lit.empty()) continue; bad = { {"camera", aref(cam)}, {"light", aref(lit)} }; break; 
                    case 6: case 7: { bad = { {"mesh", aref(r.pick(s))}, {"material", aref(r.pick(m))} }; static const char* roles[] = { "mesh", "material", "light", "camera", "medium" }; std::string role = roles[(x >> 44) % 5]; bad[role] = bk == 6 ? std::string("$.assets.nope") : aref(role == "mesh" ? r.pick(m) : r.pick(s)); break; }      // a part that does not exist or is something else
                    case 8: break;
                    default: if (env.empty() || !hasenv) continue; bad = { {"light", aref(env)} }; }
                    describe(fmtv("rejected primitive %d", bk)); auto* sc = lib([&] { auto* q = lm::comp::get<lm::Scene>(aref(w.scene)); q->build(); return q; }); FP f0, f1; int n0 = sc->num_nodes(), c0 = sc->camera_node(), e0 = sc->env_light_node(), m0 = sc->medium_node(); lib([&] { fingerprint(f0, sc); });
                    bool refused = false; try { lib([&] { if (bk == 8) sc->set_accel((x >> 44) % 2 ? std::string("$.assets.nope") : aref(r.pick(m))); else sc->create_primitive_node(bad); }); } catch (std::exception&) { refused = true; } CHECK(refused, "failure-not-reported", "the scene accepted %s", bk == 8 ? "an acceleration structure that does not exist" : ("the primitive " + bad.dump()).c_str());
                    CHECK(sc->num_nodes() == n0 && sc->camera_node() == c0 && sc->env_light_node() == e0 && sc->medium_node() == m0, "failed-load-changed-assets", "a rejected primitive changed the scene"); lib([&] { sc->build(); fingerprint(f1, sc); }); std::string e = fp_diff(f0, f1); CHECK(e.empty(), "failed-load-changed-behaviour", "after a rejected primitive: %s", e.c_str()); probe("rejected_primitives"); nontrivial(); check_refs("after a rejected primitive"); continue;
                }
                SOp op{ 0, 0, { {"mesh", aref(r.pick(s))}, {"material", aref(r.pick(m))} }, Mat4(1), "" }; w.sops.push_back(op); describe("add primitive");
                lib([&] { auto* sc = lm::comp::get<lm::Scene>(aref(w.scene)); sc->add_child(0, sc->create_primitive_node(op.prop)); sc->build(); }); scene_stale = true; probe("scene_edits");
            } else {                                           // use: rebuild the acceleration structure and render
                build_scene(w, true); scene_stale = false; describe("render");
                lib([&] { for (auto& n : w.renderers) { phase("rendering with " + w.find(n)->key); lm::comp::get<lm::Renderer>(aref(n))->render(); } }); probe("renders");
            }
            check_refs("after an operation");
            if (x & 1 << 20) {                                 // names that do not exist below an existing component
                auto& y = w.defs[(x >> 24) % w.defs.size()]; std::string miss = aref(y.name) + ((x >> 40) & 1 ? ".nope" : ".nope.deeper"); std::string txt; bool thrown = false; lm::Component* p = nullptr;
                try { p = lib([&] { return lm::comp::get<lm::Component>(miss); }); } catch (std::exception& e) { thrown = true; txt = e.what(); }
                CHECK(!thrown && !p, "unknown-name", "looking up the unknown %s gives %s", miss.c_str(), thrown ? txt.c_str() : "a component"); probe("unknown_lookups");
            }
            for (auto& y : w.defs) { auto* p = lm::comp::get<lm::Component>(aref(y.name)); CHECK(p && p->key() == y.key, "wrong-asset", "%s resolves to %s, expected a %s", y.name.c_str(), p ? p->key().c_str() : "nothing", y.key.c_str()); }
        }
        for (auto& y : w.defs) for (const char* sfx : { ".nope", ".scheduler.nope", ".0" }) { auto* p = lib([&] { return lm::comp::get<lm::Component>(aref(y.name) + sfx); }); CHECK(!p, "unknown-name", "looking up the unknown %s%s gives a %s", y.name.c_str(), sfx, p->key().c_str()); }
        // final comparison with the same definitions loaded afresh
        build_scene(w, true); phase("final comparison"); lib([&] { lm::comp::get<lm::Film>(aref(w.film))->clear(); }); FP f; lib([&] { for (auto& y : w.defs) { if (y.name[0] == 'n') continue; fingerprint_tree(f, lm::comp::get<lm::Component>(aref(y.name))); } });
        FP rf; lib([&] { for (auto& n : w.renderers) { phase("rendering with " + w.find(n)->key); lm::comp::get<lm::Film>(aref(w.film))->clear(); lm::comp::get<lm::Renderer>(aref(n))->render(); fp_film(rf, lm::comp::get<lm::Film>(aref(w.film))); } });
        lib([&] { phase("fresh load of the final definitions"); lm::reset(); }); CHECK(alive().empty(), "not-destroyed", "%zu components of a discarded state are still alive", alive().size()); CHECK(created == destroyed, "not-destroyed", "%d components created, %d destroyed", created, destroyed);
        if (nested) { auto* g = dynamic_cast<lm::AssetGroup*>(load_in(lm::assets(), { "grp2", "asset_group::default", Json::object() })); for (auto& d : nest) load_in(g, d); }
        load_defs(w); build_scene(w, true);
        FP h; lib([&] { for (auto& y : w.defs) { if (y.name[0] == 'n') continue; fingerprint_tree(h, lm::comp::get<lm::Component>(aref(y.name))); } }); std::string e = fp_diff(h, f); CHECK(e.empty(), "stale-behaviour", "after the history an asset behaves differently from a fresh load of the same definitions: %s", e.c_str());
        FP rh; lib([&] { for (auto& n : w.renderers) { lm::comp::get<lm::Film>(aref(w.film))->clear(); lm::comp::get<lm::Renderer>(aref(n))->render(); fp_film(rh, lm::comp::get<lm::Film>(aref(w.film))); } }); e = fp_diff(rh, rf); CHECK(e.empty(), "stale-behaviour", "after the history a renderer behaves differently from a fresh load of the same definitions: %s", e.c_str());
        lib([] { lm::reset(); lm::shutdown(); });
        CHECK(alive().empty() && created == destroyed, "not-destroyed", "%d components created, %d destroyed", created, destroyed);
    });
}
