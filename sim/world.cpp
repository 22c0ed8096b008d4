#include "world.h"
#include <lm/medium.h>
#include <lm/volume.h>
#include <lm/phase.h>
#include <lm/model.h>
#include <lm/accel.h>
#include <lm/scheduler.h>
namespace sim {
std::string aref(const std::string& n) { return "$.assets." + n; }
std::string write_text(const std::string& name, const std::string& s) { std::string p = scratch_file(name); bool f = fs_faults_on; fs_faults_on = false; u64 cap = fs_capacity; fs_capacity = ~0ull; { FILE* o = fopen(p.c_str(), "wb"); if (o) { fwrite(s.data(), 1, s.size(), o); fclose(o); } } fs_faults_on = f; fs_capacity = cap; return p; }
std::string read_all(const std::string& p, bool* ok) { bool f = fs_faults_on; fs_faults_on = false; std::string s; FILE* i = fopen(p.c_str(), "rb"); if (ok) *ok = i != nullptr; if (i) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, i)) > 0) s.append(b, n); fclose(i); } fs_faults_on = f; return s; }
std::string make_ppm(Rng& r, int w, int h, int c) {
    std::string s;
    if (c == 4) { unsigned char hd[18] = { 0, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, (unsigned char)w, (unsigned char)(w >> 8), (unsigned char)h, (unsigned char)(h >> 8), 32, 0x28 }; s.assign((char*)hd, 18); }
    else s = fmtv("P%d\n%d %d\n255\n", c == 1 ? 5 : 6, w, h);
    for (int i = 0; i < w * h * c; i++) { int v = (int)r.below(256); if (c == 4 && i % 4 == 3) v = r.chance(.5) ? 0 : 255; s += (char)v; }
    return s;
}
static Json j3(double a, double b, double c) { return Json::array({ a, b, c }); }
static Json rnd3(Rng& r, double lo, double hi) { auto q = [&] { return std::round((lo + (hi - lo) * r.unit()) * 64) / 64; }; double a = q(), b = q(), c = q(); return j3(a, b, c); }

Json mesh_json(Rng& r, int tris, const Vec3& off, bool attrs, double size) {
    Json ps = Json::array(), ns = Json::array(), ts = Json::array(), fp = Json::array(), fn = Json::array(), ft = Json::array();
    auto q = [&](double x) { return std::round(x * 256) / 256; };
    for (int i = 0; i < tris; i++) {
        double cx = (r.unit() - .5) * 3, cy = (r.unit() - .5) * 3, cz = (r.unit() - .5) * 3;
        for (int k = 0; k < 3; k++) {
            ps.push_back(q((cx + (r.unit() - .5) * size) + off.x)); ps.push_back(q((cy + (r.unit() - .5) * size) + off.y)); ps.push_back(q((cz + (r.unit() - .5) * size) + off.z));
            fp.push_back(3 * i + k); fn.push_back(attrs ? k : -1); ft.push_back(attrs ? k : -1);
        }
    }
    if (attrs) { ns = { 0, 0, 1, 0, 1, 0, 1, 0, 0 }; ts = { 0, 0, 1, 0, .5, 1 }; }
    Json fs = { {"p", fp} }; fs["n"] = fn; fs["t"] = ft;
    if (!attrs) { ns = { 0, 0, 1 }; ts = { 0, 0 }; for (auto& x : fs["n"]) x = 0; for (auto& x : fs["t"]) x = 0; }
    return { {"ps", ps}, {"ns", ns}, {"ts", ts}, {"fs", fs} };
}

// one of several renderers for the world's scene
Json gen_renderer(const World& w, const std::string& kind, const std::string& sched) {
    Json p = { {"output", aref(w.film)}, {"max_verts", (int)W().range(2, 5)}, {"scheduler", sched == "any" ? std::string(W().chance(.6) ? "sample" : "time") : sched}, {"render_time", -1.}, {"samples_per_iter", (int)W().range(4, 14)}, {"spp", (int)W().range(1, 2)}, {"num_samples", (int)W().range(4, 14)}, {"seed", W().chance(.12) ? 0u : W().chance(.08) ? ~0u : (unsigned)W().range(1, 1000)}, {"scene", aref(w.scene)} };
    if (kind == "pt") { static const char* m[] = { "naive", "nee", "mis" }; p["sampling_mode"] = m[W().below(3)]; p["primary_ray_sampling_mode"] = W().chance(.5) ? "pixel" : "image"; }
    if (kind == "raycast") { if (W().chance(.3)) p["bg_color"] = rnd3(W(), 0, 1); if (W().chance(.3)) p["visualize_normal"] = true; if (W().chance(.3)) p["use_constant_color"] = true; if (W().chance(.3)) p["color"] = rnd3(W(), 0, 1); }
    if (kind == "blank") p["color"] = rnd3(W(), 0, 1);
    if (kind == "volpt" || kind == "volpt_naive") p["rr_prob"] = .25;
    if (kind.find("bdpt") == 0 || kind.find("_path") != std::string::npos) p["min_verts"] = 2;
    return p;
}

World gen_world(const WorldCfg& c) {
    World w; Rng& r = W(); auto& D = w.defs;
    auto add = [&](const std::string& n, const std::string& k, Json p) { D.push_back({ n, k, p }); return n; };
    auto some = [&](double p) { return r.chance(p); };
    auto lname = [&](const char* n) { return std::string(n) + (some(.03) ? std::string(r.range(20, 400), 'z') : std::string()); };      // sometimes a very long name
    std::vector<std::string> tex, mat, mesh, phase, vden, valb, med, lights, models;
    // names deliberately share prefixes: t, t1, t10, t_1
    int nt = (int)r.range(1, 3);
    static const char* tn[] = { "t", "t1", "t10", "t_1" };
    for (int i = 0; i < nt; i++) {
        if (c.files && some(.5)) {
            int ch = some(.3) ? 4 : some(.2) ? 1 : 3; int tw = (int)r.range(1, 5), th = (int)r.range(1, 4);
            std::string f = write_text(fmtv("tex%d.%s", i, ch == 4 ? "tga" : ch == 1 ? "pgm" : "ppm"), make_ppm(r, tw, th, ch)); Json p = { {"path", f} }; if (some(.5)) p["flip"] = some(.5); tex.push_back(add(lname(tn[i]), "texture::bitmap", p));
        } else { Json p = { {"color", rnd3(r, .1, 1)} }; if (some(.4)) p["alpha"] = .5; tex.push_back(add(lname(tn[i]), "texture::constant", p)); }
    }
    static const char* mn[] = { "m", "m1", "m10", "m_1", "m-x", "mat", "mat:a" };
    mat.push_back(add(mn[0], "material::diffuse", some(.5) ? Json{ {"Kd", rnd3(r, .1, .9)} } : Json{ {"mapKd", aref(tex[0])} }));
    int nm = (int)r.range(1, 5);
    for (int i = 1; i <= nm; i++) {
        switch (r.below(8)) {
        case 0: { Json p = { {"Kd", rnd3(r, .1, .9)} }; if (some(.6)) p["mapKd"] = aref(r.pick(tex)); mat.push_back(add(lname(mn[i]), "material::diffuse", p)); break; }
        case 1: mat.push_back(add(lname(mn[i]), "material::glossy", { {"Ks", rnd3(r, .1, .9)}, {"ax", .25}, {"ay", some(.5) ? .25 : .5} })); break;
        case 2: mat.push_back(add(lname(mn[i]), "material::glass", { {"Ni", 1.25 + .25 * r.below(3)} })); break;
        case 3: mat.push_back(add(lname(mn[i]), "material::mirror", Json::object())); break;
        case 4: mat.push_back(add(lname(mn[i]), "material::mask", Json::object())); break;
        case 5: mat.push_back(add(lname(mn[i]), "material::proxy", { {"ref", aref(r.pick(mat))} })); break;
        default: { Json p = Json::array(); int k = (int)r.range(1, 3); bool rr = some(.5); std::vector<std::string> base; for (auto& m : mat) { auto d = w.find(m); if (d->key == "material::diffuse" || d->key == "material::glossy") base.push_back(m); }
            for (int j = 0; j < k; j++) p.push_back({ {"material", aref(r.pick(base))}, {"weight", 1. / k} }); mat.push_back(add(lname(mn[i]), rr ? "material::constant_weight_mixture_rr" : "material::constant_weight_mixture_marginalized", p)); } }
    }
    static const char* sn[] = { "mesh", "mesh1", "mesh_1" };
    int ns = (int)r.range(1, 3);
    for (int i = 0; i < ns; i++) {
        if (c.files && some(.35)) {
            std::string o = "# obj\n"; int nv = (int)r.range(3, 8); for (int k = 0; k < nv; k++) { Json q = rnd3(r, -2, 2); o += fmtv("v %g %g %g\n", (double)q[0], (double)q[1], (double)q[2]); }
            o += "vn 0 0 1\nvt 0.25 0.75\n"; int nf = (int)r.range(1, 5); for (int k = 0; k < nf; k++) { int a = 1 + (int)r.below(nv), b = 1 + (int)((a + 1 + r.below(nv - 2)) % nv); int e = 1 + (int)r.below(nv); while (e == a || e == b) e = 1 + e % nv; if (b == a) b = 1 + a % nv; o += some(.5) ? fmtv("f %d %d %d\n", a, b, e) : fmtv("f %d/1/1 %d/1/1 %d/1/1\n", a, b, e); }
            mesh.push_back(add(lname(sn[i]), "mesh::wavefrontobj", { {"path", write_text(fmtv("mesh%d.obj", i), o)} }));
        } else mesh.push_back(add(lname(sn[i]), "mesh::raw", mesh_json(r, c.big ? (int)r.range(2, 60) : (int)r.range(1, 6), Vec3(0), some(.5), 2)));
    }
    if (c.extras && some(.015)) mesh.push_back(add("large", "mesh::raw", mesh_json(r, (int)r.range(200, 900), Vec3(0), some(.5), 1)));
    if (c.extras && some(.015)) { int k = (int)r.range(40, 280); for (int i = 0; i < k; i++) { std::string n = fmtv("x%d", i); if (i % 7 == 6) mat.push_back(add(n, "material::diffuse", { {"mapKd", aref(fmtv("x%d", i - 1))} })); else if (i % 11 == 10) add(n, "light::point", { {"Le", rnd3(r, 1, 4)}, {"position", rnd3(r, -2, 2)} }); else add(n, i % 7 == 5 || i % 3 ? "texture::constant" : "phase::hg", i % 7 == 5 || i % 3 ? Json{ {"color", rnd3(r, .1, 1)} } : Json{ {"g", .25} }); } }
    // a floor so that paths have something to hit
    mesh.push_back(add("floor", "mesh::raw", { {"ps", { -4, -1, -4, 4, -1, -4, 4, -1, 4, -4, -1, 4 }}, {"ns", { 0, 1, 0 }}, {"ts", { 0, 0, 1, 0, 1, 1, 0, 1 }}, {"fs", { {"p", { 0, 1, 2, 0, 2, 3 }}, {"n", { 0, 0, 0, 0, 0, 0 }}, {"t", { 0, 1, 2, 0, 2, 3 }} }} }));
    mesh.push_back(add("lamp", "mesh::raw", { {"ps", { -1, 3, -1, 1, 3, -1, 1, 3, 1, -1, 3, 1 }}, {"ns", { 0, -1, 0 }}, {"ts", { 0, 0 }}, {"fs", { {"p", { 0, 1, 2, 0, 2, 3 }}, {"n", { 0, 0, 0, 0, 0, 0 }}, {"t", { 0, 0, 0, 0, 0, 0 }} }} }));
    if (c.models && c.files && some(.5)) {
        std::string mt = "newmtl a\nKd 0.5 0.25 0.75\nNs 10\n"; if (some(.6)) { mt += "Ke 1 2 3\n"; } if (some(.6)) { int ch = some(.5) ? 4 : 3; write_text(ch == 4 ? "mt.tga" : "mt.ppm", make_ppm(r, 2, 2, ch)); mt += fmtv("map_Kd mt.%s\n", ch == 4 ? "tga" : "ppm"); }
        mt += "newmtl b\nKd 0.125 0.5 0.5\nKs 0.5 0.5 0.5\nNs 100\n"; if (some(.3)) mt += "illum 7\nNi 1.5\n"; else if (some(.2)) mt += "illum 5\n";
        write_text("mod.mtl", mt);
        std::string o = "mtllib mod.mtl\nv -1 0 0\nv 1 0 0\nv 0 1 0\nv 0 0 1\nvn 0 0 1\nvt 0 0\nvt 1 0\nvt 0 1\ng x\nusemtl a\nf 1/1/1 2/2/1 3/3/1\ng y\nusemtl b\nf 1 3 4\nf 2/1 3/2 4/3\n";
        if (some(.4)) o += "g z\nusemtl a\nf 1/1/1 2/2/1 4/3/1 3/1/1\n";
        Json p = { {"path", write_text("mod.obj", o)} }; if (some(.25)) p["base_material"] = aref(mat[0]); if (some(.2)) p["skip_specular_mat"] = true;
        models.push_back(add("model", "model::wavefrontobj", p));
    }
    if (c.media && some(.6)) {
        phase.push_back(add("ph", "phase::isotropic", Json::object())); if (some(.6)) phase.push_back(add("ph1", "phase::hg", { {"g", .25 * r.range(-3, 3)} }));
        Json bmin = j3(-2, -2, -2), bmax = j3(2, 2, 2);
        vden.push_back(add("v", "volume::constant", { {"bound_min", bmin}, {"bound_max", bmax}, {"scalar", .25 + .25 * r.below(4)} })); valb.push_back(add("v1", "volume::constant", { {"bound_min", bmin}, {"bound_max", bmax}, {"color", rnd3(r, .1, .9)} }));
        if (some(.4)) vden.push_back(add("vs", "volume::sphere", { {"scalar", .5}, {"color", rnd3(r, .1, .9)}, {"pos", rnd3(r, -1, 1)}, {"radius", 1.5} })), valb.push_back("vs");
        if (some(.4)) vden.push_back(add("vg", "volume::gaussian", { {"scalar", .5}, {"color", rnd3(r, .1, .9)}, {"pos", rnd3(r, -1, 1)}, {"sigma", j3(1, .5, .75)} })), valb.push_back("vg");
        if (some(.4)) vden.push_back(add("vc", "volume::checker", { {"bound_min", bmin}, {"bound_max", bmax} }));
        if (some(.4)) { int k = (int)r.range(1, 2); Json a = Json::array(), d = Json::array(); for (int i = 0; i < k; i++) { a.push_back(aref(r.pick(valb))); d.push_back(aref(r.pick(vden))); } vden.push_back(add("vm", "volume::multi", { {"volumes_alb", a}, {"volumes_den", d} })); }
        if (some(.5)) med.push_back(add("med", "medium::homogeneous", { {"density", .25}, {"albedo", rnd3(r, .1, .9)}, {"phase", aref(r.pick(phase))}, {"bound_min", bmin}, {"bound_max", bmax} }));
        else med.push_back(add("med", "medium::heterogeneous", { {"volume_density", aref(r.pick(vden))}, {"volume_albedo", aref(valb[0])}, {"phase", aref(r.pick(phase))} }));
    }
    lights.push_back(add("l", "light::area", { {"Ke", rnd3(r, 1, 4)}, {"mesh", aref("lamp")} }));
    if (some(.4)) lights.push_back(add("l1", "light::point", { {"Le", rnd3(r, 1, 4)}, {"position", rnd3(r, -2, 2)} }));
    if (some(.3)) lights.push_back(add("l10", "light::directional", { {"Le", rnd3(r, .5, 1)}, {"direction", j3(.25, -1, .125)} }));
    std::string env;
    if (c.envs && some(.5)) { if (c.files && some(.5)) env = add("env", "light::env", { {"path", write_text("env.ppm", make_ppm(r, (int)r.range(2, 5), (int)r.range(1, 3), 3))}, {"rot", 30.}, {"scale", .5} }); else env = add("env", "light::envconst", { {"Le", rnd3(r, .25, 1)} }); }
    w.film = add("film", "film::bitmap", { {"w", (int)r.range(2, 5)}, {"h", (int)r.range(1, 4)} });
    if (c.extras && some(.04)) add("film2", "film::bitmap", { {"w", (int)r.range(40, 130)}, {"h", (int)r.range(30, 70)} });
    if (some(.5)) add("cam", "camera::pinhole", { {"position", j3(.25, .5, 6)}, {"center", j3(0, 0, 0)}, {"up", j3(0, 1, 0)}, {"vfov", 40. + r.below(3) * 10}, {"aspect", 1.25} });
    else add("cam", "camera::pinhole", { {"position", j3(.25 + r.range(-4, 4) * .125, .5 + r.range(-2, 2) * .125, 6)}, {"center", rnd3(r, -.25, .25)}, {"up", j3(.25, 1, .125 * (double)r.range(-3, 3))}, {"vfov", 40. + r.below(3) * 10}, {"aspect", .75 + .25 * (double)r.below(4)} });
    add("accel", "accel::sahbvh", Json::object());
    w.scene = add("scene", "scene::default", { {"accel", aref("accel")} });
    // scene graph
    auto S = [&](int kind, int parent, Json p = {}, Mat4 M = Mat4(1), std::string m = "") { w.sops.push_back({ kind, parent, p, M, m }); };
    S(0, 0, { {"camera", aref("cam")} });
    S(0, 0, { {"mesh", aref("floor")}, {"material", aref(mat[0])} });
    S(0, 0, { {"mesh", aref("lamp")}, {"material", aref(mat[0])}, {"light", aref("l")} });
    for (size_t i = 1; i < lights.size(); i++) S(0, 0, { {"light", aref(lights[i])} });
    if (!env.empty()) S(0, 0, { {"light", aref(env)} });
    if (!med.empty()) S(0, 0, { {"medium", aref(med[0])} });
    int np = (int)r.range(1, 4); if (c.extras && some(.01)) np = (int)r.range(30, 120);
    for (int i = 0; i < np; i++) {
        Json p = { {"mesh", aref(mesh[r.below(ns)])}, {"material", aref(r.pick(mat))} };
        if (some(.5)) { Mat4 M = glm::translate(Vec3((double)r.range(-2, 2) * .5, (double)r.range(-1, 2) * .5, 0)); if (some(.5)) M = M * glm::scale(Vec3(.5)); S(some(.3) ? 2 : 1, 0, {}, M);
            if (some(.25)) S(1, -1, {}, glm::translate(Vec3(0, 0, .25 * (double)r.range(-1, 1))));      // groups in groups
            S(0, -1, p); } else S(0, 0, p);
        if (some(.15)) S(some(.3) ? 2 : 1, some(.5) ? 0 : -1, {}, glm::translate(Vec3(.25, -.5, .25)) * glm::scale(Vec3(.5, .75, .5)));   // a group without children
    }
    if (!models.empty()) { if (some(.5)) { S(1, 0, {}, glm::translate(Vec3(.5, 0, 0))); S(3, -1, {}, Mat4(1), aref("model")); } else S(3, 0, {}, Mat4(1), aref("model")); }
    static const char* kinds[] = { "pt", "raycast", "lt", "bdpt", "bdptopt", "pt_nee_path", "pt_naive_path", "lt_nee_path", "volpt", "volpt_naive", "blank" };
    for (int i = 0; i < c.renderers; i++) {
        std::string k = kinds[r.below(11)]; if ((k == "volpt" || k == "volpt_naive") && med.empty()) k = "pt";
        std::string n = i ? fmtv("r%d", i) : "r"; add(n, "renderer::" + k, gen_renderer(w, k, c.sched)); w.renderers.push_back(n);
    }
    if (c.extras && some(.3)) { add("grp", "asset_group::default", Json::object()); }
    return w;
}
void load_defs(const World& w) { lib([&] { for (auto& d : w.defs) { phase("loading asset " + d.name + " (" + d.key + ")"); if (!lm::assets()->load_asset(d.name, d.key, d.prop)) violate("load-failed", fmtv("loading asset %s (%s) %s failed", d.name.c_str(), d.key.c_str(), d.prop.dump().c_str())); } }); }
void build_scene(const World& w, bool build) {
    lib([&] {
        auto* s = lm::comp::get<lm::Scene>(aref(w.scene)); if (!s) violate("load-failed", "scene asset not found");
        phase("building the scene"); s->reset(); int last = 0;
        for (auto& o : w.sops) {
            int par = o.parent < 0 ? last : o.parent;
            if (o.kind == 0) phase("creating primitive " + o.prop.dump()), s->add_child(par, s->create_primitive_node(o.prop));
            else if (o.kind == 1) { last = s->create_group_node(o.M); s->add_child(par, last); }
            else if (o.kind == 2) { last = s->create_instance_group_node(); int g = s->create_group_node(o.M); s->add_child(par, g); s->add_child(g, last); }
            else s->add_child_from_model(par, o.model);
        }
        if (build) s->build();
    });
}

void FP::add(const std::string& k, const std::string& s) { add(k + "='" + s + "'", 0); }
std::string FP::write() const { std::string s = fmtv("%zu\n", n.size()); for (size_t i = 0; i < n.size(); i++) { u64 b; memcpy(&b, &v[i], 8); s += fmtv("%016llx %s\n", (unsigned long long)b, n[i].c_str()); } return s; }
void FP::read(const std::string& s) { n.clear(); v.clear(); size_t p = s.find('\n'); if (p == std::string::npos) return; p++; while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) break; u64 b = strtoull(s.substr(p, 16).c_str(), nullptr, 16); double d; memcpy(&d, &b, 8); v.push_back(d); n.push_back(s.substr(p + 17, e - p - 17)); p = e + 1; } }
std::string fp_diff(const FP& a, const FP& b, double rel) {
    for (size_t i = 0; i < std::min(a.n.size(), b.n.size()); i++) {
        if (a.n[i] != b.n[i]) return fmtv("item %zu: %s vs %s", i, a.n[i].c_str(), b.n[i].c_str());
        double x = a.v[i], y = b.v[i]; if (std::isnan(x) && std::isnan(y)) continue; if (x == y) continue;
        if (rel > 0 && std::fabs(x - y) <= rel * std::max({ std::fabs(x), std::fabs(y), 1e-2 })) continue;
        return fmtv("%s: %.9g vs %.9g", a.n[i].c_str(), x, y);
    }
    if (a.n.size() != b.n.size()) return fmtv("%zu items vs %zu items (first extra: %s)", a.n.size(), b.n.size(), a.n.size() > b.n.size() ? a.n[b.n.size()].c_str() : b.n[a.n.size()].c_str());
    return "";
}
void fp_film(FP& f, lm::Film* film) { auto s = film->size(); f.add("film.w", s.w); f.add("film.h", s.h); auto b = film->buffer(); for (int i = 0; i < s.w * s.h * 3; i++) f.add(fmtv("pixel[%d].%d", i / 3, i % 3), b.data[i]); }

static std::string loc_of(lm::Component* c) { return c ? c->loc() : std::string("null"); }
void fingerprint(FP& f, lm::Component* c, bool refs) {
    using namespace lm;
    if (!c) { f.add("null", 1); return; }
    const std::string L = c->loc(); auto K = [&](const char* s) { return L + " " + s; };
    f.add(K("key"), c->key()); f.add(K("loc"), c->loc()); f.add(K("name"), c->name());
    const Vec3 n0 = glm::normalize(Vec3(.1, .2, 1)), wi = glm::normalize(Vec3(.3, -.2, .8)), wo = glm::normalize(Vec3(-.4, .1, .7));
    auto geom = [&](int k) { return PointGeometry::make_on_surface(Vec3(.25 * k, .5, -.25), n0, n0, Vec2(.13 + .31 * k, .77 - .23 * k)); };
    if (auto* p = dynamic_cast<Film*>(c)) fp_film(f, p);
    if (auto* p = dynamic_cast<Texture*>(c)) {
        auto s = p->size(); f.add(K("w"), s.w); f.add(K("h"), s.h); f.add(K("alpha"), p->has_alpha());
        for (int i = 0; i < 6; i++) { Vec2 t(.07 + .17 * i, .93 - .15 * i); f.add(K("eval"), p->eval(t)); if (p->has_alpha()) f.add(K("eval_alpha"), p->eval_alpha(t)); }
        auto b = p->buffer(); if (b.data) for (int i = 0; i < std::min(64, b.w * b.h * b.c); i++) f.add(K("buf"), b.data[i]);
    }
    if (auto* p = dynamic_cast<Mesh*>(c)) {
        int n = p->num_triangles(); f.add(K("ntri"), n); int cnt = 0; p->foreach_triangle([&](int face, const Mesh::Tri& t) { if (cnt++ < 24) { f.add(K("face"), face); for (auto* q : { &t.p1, &t.p2, &t.p3 }) { f.add(K("p"), q->p); f.add(K("n"), q->n); f.add(K("tu"), q->t.x); f.add(K("tv"), q->t.y); } } }); f.add(K("visited"), cnt);
        for (int i = 0; i < std::min(n, 4); i++) { auto s = p->surface_point(i, Vec2(.25, .5)); f.add(K("sp.p"), s.p); f.add(K("sp.n"), s.n); f.add(K("sp.gn"), s.gn); f.add(K("sp.t"), s.t.x + 7 * s.t.y); auto t = p->triangle_at(i); f.add(K("tri"), t.p3.p); }
    }
    if (auto* p = dynamic_cast<Material*>(c)) for (int k = 0; k < 3; k++) {
        auto g = geom(k); f.add(K("reflectance"), p->reflectance(g));
        auto cs = p->sample_component({ Vec2(.15 + .3 * k, .4) }, g, wi); f.add(K("comp"), cs.comp); f.add(K("comp.w"), cs.weight); f.add(K("comp.pdf"), p->pdf_component(cs.comp, g, wi)); f.add(K("spec"), p->is_specular_component(cs.comp));
        for (auto d : { Material::TransDir::LE, Material::TransDir::EL }) { auto s = p->sample_direction({ Vec2(.3, .6), Vec2(.2 + .3 * k, .7) }, g, wi, cs.comp, d); f.add(K("dir"), bool(s)); if (s) { f.add(K("dir.wo"), s->wo); f.add(K("dir.w"), s->weight); } f.add(K("eval"), p->eval(g, wi, wo, cs.comp, d, false)); }
        f.add(K("pdf"), p->pdf_direction(g, wi, wo, cs.comp, false));
    }
    if (auto* p = dynamic_cast<Phase*>(c)) { auto g = PointGeometry::make_degenerated(Vec3(0)); auto s = p->sample_direction({ Vec2(.3, .6) }, g, wi); f.add(K("dir"), bool(s)); if (s) { f.add(K("wo"), s->wo); f.add(K("w"), s->weight); } f.add(K("pdf"), p->pdf_direction(g, wi, wo)); f.add(K("eval"), p->eval(g, wi, wo)); }
    if (auto* p = dynamic_cast<Volume*>(c)) { auto b = p->bound(); f.add(K("min"), b.min); f.add(K("max"), b.max); f.add(K("hs"), p->has_scalar()); f.add(K("hc"), p->has_color()); if (p->has_scalar()) f.add(K("ms"), p->max_scalar()); for (int i = 0; i < 4; i++) { Vec3 q(-.9 + .5 * i, .3, .2 * i); if (p->has_scalar()) f.add(K("s"), p->eval_scalar(q)); if (p->has_color()) f.add(K("c"), p->eval_color(q)); } }
    if (auto* p = dynamic_cast<Medium*>(c)) { lm::Rng rng(42); Ray ray{ Vec3(.1, .2, 5), glm::normalize(Vec3(.01, -.05, -1)) }; f.add(K("emit"), p->is_emitter()); for (int i = 0; i < 4; i++) { auto s = p->sample_distance(rng, ray, 0, 20); f.add(K("ds"), bool(s)); if (s) { f.add(K("ds.p"), s->p); f.add(K("ds.w"), s->weight); f.add(K("ds.m"), s->medium); } } f.add(K("tr"), p->eval_transmittance(rng, ray, 0, 20)); if (auto* ph = p->phase()) { f.add(K("phase"), ph->loc()); auto g = PointGeometry::make_degenerated(Vec3(0)); f.add(K("phase.eval"), ph->eval(g, wi, wo)); } else f.add(K("phase"), std::string("null")); }
    if (auto* p = dynamic_cast<Light*>(c)) {
        Transform T(Mat4(1)); auto g = geom(1); f.add(K("spec"), p->is_specular()); f.add(K("inf"), p->is_infinite()); f.add(K("env"), p->is_env());
        for (int i = 0; i < 3; i++) {
            Light::RaySampleU u{ Vec2(.2 + .3 * i, .6), .15 + .35 * i, Vec2(.4, .3) };
            auto s = p->sample_direct(u, g, T); f.add(K("direct"), bool(s)); if (s) { f.add(K("d.wo"), s->wo); f.add(K("d.w"), s->weight); f.add(K("d.inf"), s->geom.infinite); if (!s->geom.infinite) f.add(K("d.p"), s->geom.p); f.add(K("d.eval"), p->eval(s->geom, s->wo, true)); f.add(K("d.pdf"), p->pdf_direct(g, s->geom, T, s->wo, true)); }
            auto q = p->sample_ray(u, T); f.add(K("ray"), bool(q)); if (q) { f.add(K("r.wo"), q->wo); f.add(K("r.w"), q->weight); if (!q->geom.infinite) f.add(K("r.p"), q->geom.p); f.add(K("r.pdf"), p->pdf_ray(q->geom, q->wo, T, true)); }
        }
    }
    if (auto* p = dynamic_cast<Camera*>(c)) { auto M = p->view_matrix(), P = p->projection_matrix(); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { f.add(K("view"), M[i][j]); f.add(K("proj"), P[i][j]); } for (int i = 0; i < 3; i++) { auto ray = p->primary_ray(Vec2(.2 + .3 * i, .7)); f.add(K("o"), ray.o); f.add(K("d"), ray.d); f.add(K("ev"), p->eval(ray.d)); auto s = p->sample_ray({ Vec2(.3, .2) }); f.add(K("s"), bool(s)); if (s) { f.add(K("s.wo"), s->wo); f.add(K("s.w"), s->weight); } auto rp = p->raster_position(ray.d); f.add(K("rp"), rp ? rp->x + 10 * rp->y : -1); } }
    if (auto* p = dynamic_cast<Model*>(c)) p->create_primitives([&](Component* m, Component* t, Component* l) { f.add(K("prim.mesh"), loc_of(m)); f.add(K("prim.mat"), loc_of(t)); f.add(K("prim.light"), loc_of(l)); });
    if (auto* p = dynamic_cast<Scene*>(c)) {
        f.add(K("nodes"), p->num_nodes()); f.add(K("camera"), p->camera_node()); f.add(K("envlight"), p->env_light_node()); f.add(K("medium"), p->medium_node()); f.add(K("lights"), p->num_lights());
        if (refs) f.add(K("accel"), loc_of(p->accel()));
        for (int i = 0; i < p->num_nodes(); i++) p->visit_node(i, [&](const SceneNode& nd) {
            f.add(K("node.index"), nd.index); f.add(K("node.type"), (int)nd.type);
            if (nd.type == SceneNodeType::Primitive) { if (refs) { f.add(K("n.mesh"), loc_of(nd.primitive.mesh)); f.add(K("n.mat"), loc_of(nd.primitive.material)); f.add(K("n.light"), loc_of(nd.primitive.light)); f.add(K("n.cam"), loc_of(nd.primitive.camera)); f.add(K("n.med"), loc_of(nd.primitive.medium)); } }
            else { f.add(K("n.inst"), nd.group.instanced); for (int ch : nd.group.children) f.add(K("n.child"), ch); f.add(K("n.tr"), bool(nd.group.local_transform)); if (nd.group.local_transform) for (int q = 0; q < 16; q++) f.add(K("n.M"), (*nd.group.local_transform)[q / 4][q % 4]); }
        });
        if (p->num_nodes() > 0) p->traverse_primitive_nodes([&](const SceneNode& nd, Mat4 M) { f.add(K("g.index"), nd.index); for (int q = 0; q < 16; q++) f.add(K("g.M"), M[q / 4][q % 4]); });
        for (int i = 0; i < p->num_lights(); i++) { auto l = p->light_primitive_index_at(i); f.add(K("li.index"), l.index); f.add(K("li.T"), Vec3(l.global_transform.M[3])); f.add(K("li.back"), p->light_index_at(l.index)); }
        if (p->accel() && p->num_lights() > 0) for (int i = 0; i < 24; i++) {
            Vec3 o(.25, .5, 6), d = glm::normalize(Vec3(-.6 + .23 * (i % 6), -.5 + .31 * (i / 6), -3 + .01 * i)); auto h = p->intersect({ o, d });
            f.add(K("hit"), bool(h)); if (h) { f.add(K("hit.type"), h->type); f.add(K("hit.prim"), h->primitive); f.add(K("hit.light"), p->is_light(*h)); if (!h->geom.infinite) { f.add(K("hit.p"), h->geom.p); f.add(K("hit.n"), h->geom.n); f.add(K("hit.t"), h->geom.t.x + 3 * h->geom.t.y); } }
        }
    }
}
void fingerprint_tree(FP& f, lm::Component* c, int depth) {
    if (!c || depth > 6) return;
    std::map<std::string, lm::Component*> kids;
    c->foreach_underlying([&](lm::Component*& p, bool weak) { if (p && !weak) kids[p->loc()] = p; });
    fingerprint(f, c);
    for (auto& k : kids) { f.add("child of " + c->loc(), k.first); auto* g = lm::comp::get<lm::Component>(k.first); f.add("lookup", g == k.second ? 1 : 0); fingerprint_tree(f, k.second, depth + 1); }
}
void check_refs(const char* what) {
    std::set<lm::Component*> owned; auto* root = lm::comp::get<lm::Component>("$");
    std::function<void(lm::Component*)> walk = [&](lm::Component* c) { c->foreach_underlying([&](lm::Component*& p, bool weak) { if (p && !weak && owned.insert(p).second) walk(p); }); };
    walk(root);
    std::function<void(lm::Component*)> chk = [&](lm::Component* c) { c->foreach_underlying([&](lm::Component*& p, bool weak) { if (p && weak) { sim::checked(); if (!owned.count(p)) violate("dangling-reference", fmtv("%s: %s (%s) refers to an asset that is no longer registered", what, c->loc().c_str(), c->key().c_str())); auto* g = lm::comp::get<lm::Component>(p->loc()); if (g != p) violate("stale-reference", fmtv("%s: %s refers to %s but that name resolves to another object", what, c->loc().c_str(), p->loc().c_str())); } }); };
    chk(root); for (auto* c : owned) chk(c);
}
}
