// P11: the acceleration structure against exhaustive search
#include "world.h"
#include <lm/accel.h>
#include <lm/model.h>
#include <lm/scenenode.h>
#include <lm/medium.h>
#include <lm/phase.h>
#include <lm/camera.h>
#include <lm/light.h>
using namespace sim;
namespace {
struct T3 { Vec3 a, b, c; int prim, face; Mat4 M; };
// the scene's triangles, flattened independently of the library's traversal: own copy of the scene graph
struct Node { int kind; Mat4 M{ 1 }; std::vector<int> ch; std::vector<std::array<Vec3, 3>> tris; int idx; bool light = false; };   // 0 group, 1 primitive, 2 primitive without mesh
struct Graph {
    std::vector<Node> n;
    void flat(int i, const Mat4& M, std::vector<T3>& out) const { auto& x = n[i]; if (x.kind == 1) { for (size_t f = 0; f < x.tris.size(); f++) { auto q = [&](const Vec3& p) { return Vec3(M * Vec4(p, 1.)); }; out.push_back({ q(x.tris[f][0]), q(x.tris[f][1]), q(x.tris[f][2]), i, (int)f, M }); } return; } if (x.kind == 2) return; Mat4 C = M * x.M; for (int c : x.ch) flat(c, C, out); }
    void lights(int i, const Mat4& M, std::vector<std::pair<int, Mat4>>& out) const { auto& x = n[i]; if (x.light) out.push_back({ i, M }); if (x.kind) return; Mat4 C = M * x.M; for (int c : x.ch) lights(c, C, out); }
};
struct Cand { double t, u, v, det; };
bool mt(const T3& T, const Vec3& o, const Vec3& d, Cand& c) {
    using L = long double; auto cr = [](const L* a, const L* b, L* r) { r[0] = a[1] * b[2] - a[2] * b[1]; r[1] = a[2] * b[0] - a[0] * b[2]; r[2] = a[0] * b[1] - a[1] * b[0]; }; auto dt = [](const L* a, const L* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
    L e1[3], e2[3], tv[3], D[3], p[3], q[3]; for (int i = 0; i < 3; i++) { e1[i] = (L)T.b[i] - T.a[i]; e2[i] = (L)T.c[i] - T.a[i]; tv[i] = (L)o[i] - T.a[i]; D[i] = d[i]; }
    cr(D, e2, p); L det = dt(e1, p); c.det = (double)fabsl(det); if (det == 0 || !(c.det == c.det)) return false; cr(tv, e1, q); c.u = (double)(dt(tv, p) / det); c.v = (double)(dt(D, q) / det); c.t = (double)(dt(e2, q) / det); return true;
}
Vec3 rv(Rng& r, double s) { return Vec3((r.unit() - .5) * s, (r.unit() - .5) * s, (r.unit() - .5) * s); }
using Tri = std::array<Vec3, 3>;
int deep_axis = -1;
std::vector<Tri> gen_tris(Rng& r, int style) {
    std::vector<Tri> t; auto q = [](Vec3 v) { for (int i = 0; i < 3; i++) v[i] = std::round(v[i] * 1024) / 1024; return v; };
    switch (style) {
    case 0: { int n = (int)r.range(1, 10); for (int i = 0; i < n; i++) { Vec3 c = rv(r, 4); t.push_back({ q(c + rv(r, 1.5)), q(c + rv(r, 1.5)), q(c + rv(r, 1.5)) }); } break; }
    case 1: { int n = (int)r.range(10, 70); for (int i = 0; i < n; i++) { Vec3 c = rv(r, 6); t.push_back({ q(c + rv(r, .8)), q(c + rv(r, .8)), q(c + rv(r, .8)) }); } break; }
    case 2: { int g = (int)r.range(1, 5); int ax = (int)r.below(3); double z = (double)r.range(-2, 2) * .5; auto P = [&](int i, int j) { Vec3 v; v[ax] = z; v[(ax + 1) % 3] = i - g * .5; v[(ax + 2) % 3] = j - g * .5; return v; }; for (int i = 0; i < g; i++) for (int j = 0; j < g; j++) { t.push_back({ P(i, j), P(i + 1, j), P(i + 1, j + 1) }); t.push_back({ P(i, j), P(i + 1, j + 1), P(i, j + 1) }); } break; }
    case 3: { Tri a{ q(rv(r, 3)), q(rv(r, 3)), q(rv(r, 3)) }; int n = (int)r.range(2, 12); for (int i = 0; i < n; i++) t.push_back(a); break; }               // coincident
    case 4: { int n = (int)r.range(2, 9); for (int i = 0; i < n; i++) { double s = 1 + i * .5; t.push_back({ Vec3(-s, -s, 0), Vec3(s, -s, 0), Vec3(0, s * 2, 0) }); } break; }                 // same plane, nested
    case 5: { int n = (int)r.range(1, 6); for (int i = 0; i < n; i++) { Vec3 a = q(rv(r, 3)); Vec3 b = q(rv(r, 3)); t.push_back(i & 1 ? Tri{ a, a, a } : Tri{ a, b, a }); } t.push_back({ q(rv(r, 3)), q(rv(r, 3)), q(rv(r, 3)) }); break; }   // degenerate
    case 6: { int n = (int)r.range(92, 150); double s = r.chance(.5) ? 1 : -1, f = r.chance(.6) ? 8 : r.chance(.5) ? 2 : 1.5; if (f == 8) { n = (int)r.range(125, 190); s = std::ldexp(s, 326 - 3 * n); } int ax = deep_axis = (int)r.below(3); for (int i = 0; i < n; i++) { Vec3 o(0); o[ax] = s; Vec3 b = o, c = o; b[(ax + 1) % 3] += std::fabs(s) * .25; c[(ax + 2) % 3] += std::fabs(s) * .25; c[ax] += s * .125; t.push_back({ o, b, c }); s *= f; } break; }   // exponentially growing: deep trees
    case 7: { int n = (int)r.range(70, 200); if (r.chance(.08)) { n = (int)r.range(250, 700); step_budget = 1'000'000'000; probe("large_meshes"); } for (int i = 0; i < n; i++) { Vec3 c = rv(r, 10); t.push_back({ q(c + rv(r, .6)), q(c + rv(r, .6)), q(c + rv(r, .6)) }); } break; }
    default: { int n = (int)r.range(3, 20); for (int i = 0; i < n; i++) { Vec3 c(i * 1.0, 0, 0); t.push_back({ c, c + Vec3(0, 1, 0), c + Vec3(0, 0, 1) }); } } }   // parallel walls along x
    return t;
}
Json tris_json(const std::vector<Tri>& t) { Json ps = Json::array(), f = Json::array(), z = Json::array(); int k = 0; for (auto& a : t) for (auto& p : a) { for (int i = 0; i < 3; i++) ps.push_back((double)p[i]); f.push_back(k++); z.push_back(0); } return { {"ps", ps}, {"ns", { 0, 0, 1 }}, {"ts", { 0, 0 }}, {"fs", { {"p", f}, {"n", z}, {"t", z} }} }; }
struct Prim { std::vector<Tri> t; std::string mesh; std::vector<Vec3> vn; std::vector<Vec2> vt; std::vector<std::array<int, 2>> ix; };     // optional normals and texture coordinates, shared between corners
Json prim_json(const Prim& p) { Json j = tris_json(p.t); if (p.ix.empty()) return j; Json n = Json::array(), t = Json::array(), fn = Json::array(), ft = Json::array(); for (auto& v : p.vn) for (int i = 0; i < 3; i++) n.push_back((double)v[i]); for (auto& v : p.vt) for (int i = 0; i < 2; i++) t.push_back((double)v[i]); for (auto& x : p.ix) { fn.push_back(x[0]); ft.push_back(x[1]); } j["ns"] = n; j["ts"] = t; j["fs"]["n"] = fn; j["fs"]["t"] = ft; return j; }
// a user model: a scene graph of its own, described by (kind, transform, children, mesh)
struct MNode { bool group; bool inst; bool hasM; Mat4 M; std::vector<int> ch; std::string mesh; bool cam = false; };
std::vector<MNode>* model_nodes;
struct UserModel final : lm::Model {
    std::vector<lm::SceneNode> n;
    void construct(const Json&) override { Quiet q; for (size_t i = 0; i < model_nodes->size(); i++) { auto& m = (*model_nodes)[i]; lm::SceneNode s; if (m.group) { s = lm::SceneNode::make_group((int)i, m.inst, m.hasM ? std::optional<Mat4>(m.M) : std::optional<Mat4>()); s.group.children = m.ch; } else if (m.cam) s = lm::SceneNode::make_primitive((int)i, nullptr, nullptr, nullptr, lib([] { return lm::comp::get<lm::Camera>("$.assets.cam"); }), nullptr); else s = lm::SceneNode::make_primitive((int)i, lib([&] { return lm::comp::get<lm::Mesh>("$.assets." + m.mesh); }), lib([] { return lm::comp::get<lm::Material>("$.assets.mat"); }), nullptr, nullptr, nullptr); n.push_back(s); } }
    void create_primitives(const CreatePrimitiveFunc& f) const override { for (auto& s : n) if (s.type == lm::SceneNodeType::Primitive && s.primitive.mesh) f(s.primitive.mesh, s.primitive.material, nullptr); }
    void foreach_node(const VisitNodeFuncType& f) const override { for (auto& s : n) f(s); }
};
LM_COMP_REG_IMPL(UserModel, "model::simuser");
}
SCENARIO(P11, false) {
    randomize_sched(2000); Rng& r = W();
    hw_threads = (int)r.range(1, 6); if (r.chance(.1)) enable(F_HWC_ZERO, 1.0); if (r.chance(.4)) enable(F_SPURIOUS_WAKE, r.chance(.5) ? .1 : .5); if (r.chance(.3)) enable(F_STALL, .05); if (r.chance(.3)) enable(F_THREAD_CREATE, r.chance(.3) ? 1. : .3);
    lib([] { lm::init(); lm::log::set_severity(1000); lm::parallel::init("openmp", { {"num_threads", 1} }); });
    bool env = r.chance(.3);
    auto* scene = lib([&] { lm::load<lm::Accel>("accel", "accel::sahbvh", Json::object()); lm::load<lm::Material>("mat", "material::diffuse", Json{ {"Kd", { 1, 1, 1 }} }); lm::load<lm::Camera>("cam", "camera::pinhole", Json{ {"position", { 0, 0, 5 }}, {"center", { 0, 0, 0 }}, {"up", { 0, 1, 0 }}, {"vfov", 40}, {"aspect", 1} }); lm::load<lm::Phase>("phase", "phase::isotropic", Json::object()); lm::load<lm::Medium>("med", "medium::homogeneous", Json{ {"density", 1}, {"albedo", { 1, 1, 1 }}, {"phase", "$.assets.phase"} }); if (env) lm::load<lm::Light>("env", "light::envconst", Json{ {"Le", { 1, 1, 1 }} }); return lm::load<lm::Scene>("scene", "scene::default", Json{ {"accel", "$.assets.accel"} }); });
    if (r.chance(.05)) {      // a scene that has no acceleration structure yet
        bool refused = false; try { lib([&] { lm::load<lm::Scene>("bare", "scene::default", Json::object())->build(); }); } catch (std::exception&) { refused = true; }
        CHECK(refused, "build-without-structure", "building a scene that has no acceleration structure is not reported"); auto* b = lib([&] { auto* b = lm::comp::get<lm::Scene>("$.assets.bare"); b->set_accel("$.assets.accel"); b->build(); return b; }); auto h = lib([&] { return b->intersect({ Vec3(0), Vec3(0, 0, 1) }, 0, 1); }); CHECK(!h, "wrong-hit", "a hit in an empty scene"); probe("builds_without_structure");
    }
    int rounds = (int)r.range(1, 3), mesh_no = 0; Graph g; u32 opn = 0; std::vector<Prim> prims;
    int cam_node = -1, med_node = -1; auto special = [&] { CHECK(scene->camera_node() == cam_node && scene->medium_node() == med_node && scene->env_light_node() == (env ? 1 : -1), "special-nodes", "camera, medium and environment are nodes %d, %d, %d, expected %d, %d, %d", scene->camera_node(), scene->medium_node(), scene->env_light_node(), cam_node, med_node, env ? 1 : -1); };
    auto reset = [&] { lib([&] { scene->reset(); }); g.n.clear(); g.n.push_back({ 0, Mat4(1), {}, {}, 0 }); if (env) { lib([&] { scene->add_child(0, scene->create_primitive_node({ {"light", "$.assets.env"} })); }); g.n.push_back({ 2, Mat4(1), {}, {}, 1, true }); g.n[0].ch.push_back(1); } cam_node = med_node = -1; special(); };
    reset();
    for (int rd = 0; rd < rounds; rd++) {
        if (rd && r.chance(.4)) { reset(); describe("reset"); }
        if (rd && r.chance(.3) && !prims.empty()) {         // replace a mesh by a moved one (same number of triangles)
            auto& p = prims[r.below(prims.size())]; Vec3 d = rv(r, 2); for (auto& t : p.t) for (auto& v : t) v += d; lib([&] { lm::assets()->load_asset(p.mesh, "mesh::raw", prim_json(p)); }); for (auto& n : g.n) if (n.kind == 1 && n.idx == (int)(&p - &prims[0])) n.tris = p.t; describe("mesh moved");
        }
        int np = (int)r.below(5); if (rd == 0 && np == 0 && r.chance(.8)) np = 1;
        for (int k = 0; k < np; k++) {
            int style = r.chance(.04) ? 6 : (int)r.below(9); if (style == 6 && !r.chance(.5)) style = 0; if (style == 7 && !r.chance(.4)) style = 1; auto t = gen_tris(r, style); int tr = (int)r.below(4); double ang = r.range(0, 7) * .7; Vec3 off = rv(r, 4), sc(.5 + r.unit(), .5 + r.unit(), .5 + r.unit()); bool share = !prims.empty() && r.chance(.2); size_t sh = r.below(prims.size() + 1); bool inst = r.chance(.3), twice = r.chance(.2); int depth = (int)r.below(3); bool attrs = style != 6 && r.chance(.4); std::vector<Vec3> an; std::vector<Vec2> at; for (int q = (int)r.range(1, 6); q > 0; q--) { an.push_back(glm::normalize(rv(r, 1) + Vec3(0, 0, 1))); at.push_back(Vec2(r.unit() * 3 - 1, r.unit())); } at.push_back(Vec2(.5, .25)); bool lit = style != 5 && style != 6 && r.chance(.25);
            if (!op_enabled(opn++)) continue;
            size_t pi; if (share && sh < prims.size()) pi = sh; else { std::string m = fmtv("mesh%d", mesh_no++); Prim P{ t, m }; if (attrs) { P.vn = an; P.vt = at; for (size_t k = 0; k < 3 * t.size(); k++) P.ix.push_back({ (int)((k * 7 + k / 3) % an.size()), (int)((k * 5 + k / 2) % at.size()) }); probe("meshes_with_normals"); } lib([&] { lm::assets()->load_asset(m, "mesh::raw", prim_json(P)); }); prims.push_back(P); pi = prims.size() - 1; }
            lib([&] {
                int parent = scene->root_node();
                if (style != 6) for (int dd = 0; dd < depth; dd++) { Mat4 M = tr == 0 ? glm::translate(off) : tr == 1 ? glm::rotate(ang, glm::normalize(Vec3(1, 2, .5))) : tr == 2 ? glm::scale(sc) : glm::translate(off) * glm::rotate(ang, Vec3(0, 0, 1.)) * glm::scale(sc); int c = scene->create_group_node(M); scene->add_child(parent, c); { Quiet q; g.n.push_back({ 0, M, {}, {}, c }); g.n[parent].ch.push_back(c); } parent = c; }
                if (inst) { int c = scene->create_instance_group_node(); scene->add_child(parent, c); Quiet q; g.n.push_back({ 0, Mat4(1), {}, {}, c }); g.n[parent].ch.push_back(c); parent = c; }
                Json pn{ {"mesh", "$.assets." + prims[pi].mesh}, {"material", "$.assets.mat"} }; if (lit) { std::string ln = fmtv("light%d", mesh_no++); lm::assets()->load_asset(ln, "light::area", Json{ {"Ke", { 1, 2, 3 }}, {"mesh", "$.assets." + prims[pi].mesh} }); pn["light"] = "$.assets." + ln; } int p = scene->create_primitive_node(pn); scene->add_child(parent, p); { Quiet q; g.n.push_back({ 1, Mat4(1), {}, prims[pi].t, (int)pi, lit }); g.n[parent].ch.push_back(p); }
                if (twice && inst) { int c = scene->create_group_node(glm::translate(Vec3(3, 1, 0))); scene->add_child(0, c); scene->add_child(c, parent); Quiet q; g.n.push_back({ 0, glm::translate(Vec3(3, 1, 0)), { parent }, {}, c }); g.n[0].ch.push_back(c); }
            });
            describe(fmtv("style %d (%zu triangles)", style, prims[pi].t.size())); if (style == 6) probe("deep_trees");
        }
        if (r.chance(.2)) { bool m = r.chance(.5); if (op_enabled(opn++)) { int c = lib([&] { int c = scene->create_primitive_node({ {m ? "medium" : "camera", m ? "$.assets.med" : "$.assets.cam"} }); scene->add_child(0, c); return c; }); g.n[0].ch.push_back((int)g.n.size()); g.n.push_back({ 2, Mat4(1), {}, {}, c }); (m ? med_node : cam_node) = c; probe("special_nodes"); } }
        if (r.chance(.2)) {       // a part of the scene copied from a model's own scene graph
            std::vector<MNode> mn; int nn = (int)r.range(1, 5), made = 0; mn.push_back({ true, false, r.chance(.5), glm::translate(rv(r, 3)), {}, "" }); bool flat = r.chance(.3), twice = r.chance(.3); std::vector<std::vector<Tri>> mt_{ {} };
            for (int k = 0; k < nn; k++) { std::vector<int> gs; for (size_t i = 0; i < mn.size(); i++) if (mn[i].group) gs.push_back((int)i); int par = gs[r.below(gs.size())]; mn[par].ch.push_back((int)mn.size()); if (r.chance(.4)) { bool h = r.chance(.7); mn.push_back({ true, r.chance(.2), h, h ? glm::translate(rv(r, 3)) * glm::scale(Vec3(.5 + r.unit())) : Mat4(1), {}, "" }); mt_.push_back({}); } else { auto t = gen_tris(r, 0); std::string m = fmtv("mm%d_%d", mesh_no++, made++); lib([&] { lm::assets()->load_asset(m, "mesh::raw", tris_json(t)); }); mn.push_back({ false, false, false, Mat4(1), {}, m }); mt_.push_back(t); } }
            if (r.chance(.25)) { mn[0].ch.push_back((int)mn.size()); mn.push_back({ false, false, false, Mat4(1), {}, "", true }); mt_.push_back({}); }
            if (op_enabled(opn++)) {
                model_nodes = &mn; std::string nm = fmtv("model%d", mesh_no++); lib([&] { lm::assets()->load_asset(nm, "model::simuser", Json::object()); });
                for (int rep = 0; rep < (twice ? 2 : 1); rep++) {
                    if (flat) { lib([&] { scene->add_child_from_model(0, "$.assets." + nm); }); for (size_t i = 0; i < mn.size(); i++) if (!mn[i].group && !mn[i].cam) { g.n[0].ch.push_back((int)g.n.size()); g.n.push_back({ 1, Mat4(1), {}, mt_[i], -1 }); } }
                    else { int base = (int)g.n.size(); int got = lib([&] { return scene->create_group_from_model("$.assets." + nm); }); CHECK(got == base, "model-root", "root of the copied model is node %d, expected %d", got, base); lib([&] { scene->add_child(0, got); }); g.n[0].ch.push_back(base); for (size_t i = 0; i < mn.size(); i++) { std::vector<int> ch; for (int c : mn[i].ch) ch.push_back(base + c); if (mn[i].cam) cam_node = base + (int)i; g.n.push_back({ mn[i].group ? 0 : mn[i].cam ? 2 : 1, mn[i].group && mn[i].hasM ? mn[i].M : Mat4(1), ch, mt_[i], -1 }); } }
                }
                // edits naming nodes or models that do not exist have no effect
                int none = 0; lib([&] { for (int k = 0; k < 4; k += 3) { scene->add_child((int)scene->num_nodes() + k, 0); scene->add_child(-1 - k, 0); scene->add_child_from_model((int)scene->num_nodes() + k, "$.assets." + nm); scene->add_child_from_model(-1 - k, "$.assets." + nm); } try { scene->add_child_from_model(0, "$.assets.nope"); none = scene->create_group_from_model("$.assets.nope"); } catch (std::exception&) { none = -1; } }); CHECK(none < 0, "unknown-model", "a group made from an unknown model is node %d", none); for (size_t i = 0; i < g.n.size(); i++) if (g.n[i].kind == 1) { lib([&] { scene->add_child((int)i, 0); }); break; }
                probe("user_models"); describe(fmtv("user model of %zu nodes", mn.size()));
            }
        }
        for (int i = 0; i < scene->num_nodes() && i < (int)g.n.size(); i++) { auto& sn = scene->node_at(i); CHECK(sn.index == i && (sn.type == lm::SceneNodeType::Group) == (g.n[i].kind == 0), "wrong-node", "node %d is %s node %d", i, sn.type == lm::SceneNodeType::Group ? "group" : "primitive", sn.index); int seen = -1; lib([&] { scene->visit_node(i, [&](const lm::SceneNode& x) { seen = x.index; }); }); CHECK(seen == i, "wrong-node", "visiting node %d visits node %d", i, seen); }
        CHECK(scene->num_nodes() == (int)g.n.size(), "node-count", "scene has %d nodes, expected %zu", scene->num_nodes(), g.n.size());
        phase("building the acceleration structure"); lib([&] { scene->build(); }); probe("builds");
        special();
        {   // every light reachable from the root is listed once per occurrence, with its transform
            std::vector<std::pair<int, Mat4>> L; g.lights(0, Mat4(1), L); CHECK(scene->num_lights() == (int)L.size(), "light-count", "scene lists %d lights, its graph has %zu", scene->num_lights(), L.size());
            for (int i = 0; i < scene->num_lights(); i++) { auto li = lib([&] { return scene->light_primitive_index_at(i); }); bool found = false; for (size_t k = 0; k < L.size() && !found; k++) { bool eq = L[k].first == li.index; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (std::fabs(L[k].second[a][b] - li.global_transform.M[a][b]) > 1e-9 * std::max(1., std::fabs((double)L[k].second[a][b]))) eq = false; if (eq) { L.erase(L.begin() + k); found = true; } } CHECK(found, "wrong-light", "light %d of the scene is node %d with a transform that node does not have", i, li.index); int back = lib([&] { return scene->light_index_at(li.index); }); CHECK(back >= 0 && back < scene->num_lights() && lib([&] { return scene->light_primitive_index_at(back).index; }) == li.index, "wrong-light", "node %d maps to light %d", li.index, back); probe("lights"); }
            if (scene->num_lights()) { int n = scene->num_lights(), k = (int)r.below(n); auto s = lib([&] { return scene->sample_light_selection((k + .5) / n); }); CHECK(s.light_index == k && std::fabs(s.p_sel * n - 1) < 1e-9, "light-selection", "selecting light %d of %d gives %d with probability %g", k, n, s.light_index, (double)s.p_sel); auto e = lib([&] { return scene->sample_light_selection(1.); }); CHECK(e.light_index >= 0 && e.light_index < n, "light-selection", "light %d of %d selected", e.light_index, n); }
        }
        std::vector<T3> tris; g.flat(0, Mat4(1), tris); if (tris.empty()) probe("empty_scenes"); if (tris.size() > 1) nontrivial();
        auto* acc = scene->accel();
        struct Q { Vec3 o, d; double lo, hi; }; std::vector<Q> qs; int nq = (int)r.range(10, 30);
        for (int k = 0; k < nq; k++) {
            Q q; q.o = rv(r, 12); q.d = rv(r, 2); q.lo = 0; q.hi = std::numeric_limits<double>::infinity();
            if (!tris.empty() && r.chance(.8)) { auto& T = tris[r.below(tris.size())]; double u = .1 + .6 * r.unit(), v = (1 - u) * (.1 + .8 * r.unit()); Vec3 p = T.a + (T.b - T.a) * u + (T.c - T.a) * v; double size = glm::length(T.b - T.a) + glm::length(T.c - T.a); if (size > 100) q.o = p + rv(r, size * 4); q.d = p - q.o; }
            if (r.chance(.25)) { int ax = (int)r.below(3); double s = r.chance(.5) ? 1 : -1; q.d = Vec3(0); q.d[ax] = s; if (!tris.empty()) { auto& T = tris[r.below(tris.size())]; Vec3 p = (T.a + T.b * .7 + T.c * .3) * .5; double dist = 1 + r.unit() * 10 + glm::length(T.b - T.a); q.o = p - q.d * dist; } }
            if (deep_axis >= 0 && r.chance(.3)) { double sg = r.chance(.5) ? 1 : -1; q.d = Vec3(0); q.d[deep_axis] = sg; q.o = Vec3(r.chance(.6) ? std::ldexp(.05, -250) : .05 * r.unit() + .01); q.o[deep_axis] = r.chance(.5) ? -sg * 3 * r.unit() : -sg * std::exp(r.unit() * 60); }      // along the axis of a deep tree
            if (!tris.empty() && r.chance(.08)) { int ax = (int)r.below(3); auto& T = tris[r.below(tris.size())]; double u = .1 + .6 * r.unit(), v = (1 - u) * (.1 + .8 * r.unit()); Vec3 p = T.a + (T.b - T.a) * u + (T.c - T.a) * v; q.d = rv(r, 2); q.d[ax] = 0; q.o = p - q.d * Float(1 + 3 * r.unit()); }     // within an axis-aligned plane
            double len = glm::length(q.d); if (!(len > 1e-6)) q.d = Vec3(0, 0, 1); else if (r.chance(.85)) q.d = q.d / Float(len);
            for (int a = 0; a < 3; a++) if (q.d[a] == 0 && r.chance(.5)) { q.d[a] = -0.0; probe("negative_zero_directions"); }
            if (r.chance(.3)) q.lo = r.unit() * 6; if (r.chance(.4)) q.hi = q.lo + r.unit() * 8; if (r.chance(.1)) q.lo = 1e-4;
            qs.push_back(q);
        }
        auto ask = [&](size_t i) {
            auto& q = qs[i]; auto h = lib([&] { return acc->intersect({ q.o, q.d }, q.lo, q.hi); });
            double best = std::numeric_limits<double>::infinity(); const T3* bt = nullptr; bool matched = false; const T3* hit_tri = nullptr; double hit_cond = 0; Cand hit_c{};
            for (auto& T : tris) {
                Cand c; if (!mt(T, q.o, q.d, c)) continue; double sc = std::max({ 1., std::fabs(c.t), (double)glm::length(q.o) }); double eps = 1e-7 * sc / std::max(1e-6, (double)glm::length(q.d)); if (glm::length(T.a) > 1e3) eps = 1e-6 * std::max(sc, (double)glm::length(T.a));
                bool robust = c.det > 1e-6 && c.u > 1e-6 && c.v > 1e-6 && c.u + c.v < 1 - 1e-6 && c.t > q.lo + eps && (std::isinf(q.hi) || c.t < q.hi - eps);
                // nearly edge-on triangles have ill-conditioned distances
                Vec3 e1 = T.b - T.a, e2 = T.c - T.a; double cond = c.det / (std::max(1e-30, (double)(glm::length(e1) * glm::length(e2) * glm::length(q.d)))); if (cond < 1e-4) { robust = false; eps *= 1e4; }
                if (robust && c.t < best) { best = c.t; bt = &T; }
                double bt_ = 1e-5 + 1e-12 / std::max(1e-30, cond) * (1 + glm::length(q.o - T.a) / std::max(1e-300, std::min((double)glm::length(e1), (double)glm::length(e2))));
                if (h && h->primitive == T.prim && h->face == T.face && std::fabs(h->t - c.t) <= eps * 10 && c.u > -bt_ && c.v > -bt_ && c.u + c.v < 1 + bt_) { bool tr = true; for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (std::fabs(h->global_transform.M[a][b] - T.M[a][b]) > 1e-9 * std::max(1., std::fabs((double)T.M[a][b]))) tr = false; if (tr) { matched = true; hit_tri = &T; hit_cond = cond; hit_c = c; if (cond > 1e-3) CHECK(std::fabs(h->uv.x - c.u) < 1e-5 && std::fabs(h->uv.y - c.v) < 1e-5, "wrong-barycentric", "ray %zu: barycentric (%g,%g), expected (%g,%g)", i, h->uv.x, h->uv.y, c.u, c.v); } }
            }
            checked(); std::string ray = fmtv("ray from (%.6g,%.6g,%.6g) along (%.6g,%.6g,%.6g) in [%g,%g], %zu triangles", q.o.x, q.o.y, q.o.z, q.d.x, q.d.y, q.d.z, q.lo, q.hi, tris.size());
            if (!h) { CHECK(!bt, "hit-missed", "%s: no hit reported, but primitive %d face %d is hit at %.9g", ray.c_str(), bt->prim, bt->face, best); probe("misses"); }
            else {
                CHECK(matched, "wrong-hit", "%s: reported primitive %d face %d at %.9g is not what that triangle gives", ray.c_str(), h->primitive, h->face, h->t);
                CHECK(h->t >= q.lo && h->t <= q.hi, "out-of-range", "%s: hit at %.9g", ray.c_str(), h->t);
                if (bt) CHECK(h->t <= best + 1e-6 * std::max({ 1., std::fabs(best), (double)glm::length(bt->a) }), "not-nearest", "%s: hit at %.9g reported, but primitive %d face %d is nearer at %.9g", ray.c_str(), h->t, bt->prim, bt->face, best);
                probe("hits");
            }
            // the scene's view of the same ray
            auto si = lib([&] { return scene->intersect({ q.o, q.d }, q.lo, q.hi); });
            if (h) { CHECK(si && !si->geom.infinite && si->primitive == h->primitive, "scene-hit", "%s: scene and acceleration structure disagree", ray.c_str()); Vec3 p = q.o + q.d * h->t; double sc = std::max({ 1., (double)glm::length(p), (double)glm::length(q.o) }); if (hit_cond > 1e-3 && hit_tri) { Vec3 gn = glm::cross(hit_tri->b - hit_tri->a, hit_tri->c - hit_tri->a); double gl = glm::length(gn); if (gl > 1e-6 && std::isfinite(gl)) { CHECK(glm::length(si->geom.gn - gn / gl) < 1e-6, "scene-hit-normal", "%s: geometry normal of the hit is off", ray.c_str()); Vec3 ln(0, 0, 1); Vec2 te(0); int pi = g.n[h->primitive].idx; if (pi >= 0 && !prims[pi].ix.empty()) { auto& P = prims[pi]; double b0 = 1 - hit_c.u - hit_c.v; auto* x = &P.ix[3 * h->face]; ln = P.vn[x[0][0]] * b0 + P.vn[x[1][0]] * hit_c.u + P.vn[x[2][0]] * hit_c.v; te = P.vt[x[0][1]] * b0 + P.vt[x[1][1]] * hit_c.u + P.vt[x[2][1]] * hit_c.v; } CHECK(glm::length(si->geom.t - te) < 1e-4, "scene-hit-texcoord", "%s: texture coordinate of the hit is (%g,%g), expected (%g,%g)", ray.c_str(), si->geom.t.x, si->geom.t.y, te.x, te.y); Vec3 ne = glm::normalize(glm::transpose(glm::inverse(lm::Mat3(hit_tri->M))) * ln); CHECK(glm::length(si->geom.n - ne) < 1e-4, "scene-hit-normal", "%s: shading normal of the hit is off", ray.c_str()); } bool isl = lib([&] { return scene->is_light(*si); }); CHECK(isl == g.n[h->primitive].light, "scene-hit-light", "%s: the hit surface is %sa light", ray.c_str(), isl ? "" : "not "); }
              CHECK(glm::length(si->geom.p - p) < 1e-5 * sc || glm::length(q.o) > 1e3, "scene-hit-point", "%s: surface point is %g away from the hit", ray.c_str(), (double)glm::length(si->geom.p - p)); }
            else CHECK(bool(si) == (env && std::isinf(q.hi)), "scene-miss", "%s: scene reports %s", ray.c_str(), si ? "an interaction" : "nothing");
        };
        if (r.chance(.3)) { std::vector<int> tids; int nt = (int)r.range(2, 3); for (int t = 0; t < nt; t++) tids.push_back(spawn([&, t] { for (size_t i = t; i < qs.size(); i += nt) ask(i); })); for (int t : tids) join(t); probe("concurrent_queries"); }
        else for (size_t i = 0; i < qs.size(); i++) ask(i);
    }
}
