// P13: meshes, models and textures read from files
#include "world.h"
#include <lm/objloader.h>
#include <lm/model.h>
#include <lm/texture.h>
using namespace sim;
namespace {
struct Img { int w, h, c; std::vector<float> d; std::string bytes, ext; };      // d: expected values, top row first
struct Mtl { std::string name, map; Vec3 Kd, Ks, Ke; int illum = 0; double Ni = 1.5, Ns = 0; };
bool g_tiny = false;       // the alternative OBJ loader: rounds numbers in the last digits and splits meshes in its own way
struct Ix { int p, t, n; };
struct Prim { int mat = 0; std::vector<std::array<Ix, 3>> f; };
struct Obj { std::string text; std::vector<std::pair<std::string, std::string>> libs; std::vector<Vec3> ps, ns; std::vector<Vec2> ts; std::vector<Mtl> ms; std::vector<Prim> prims; std::map<std::string, Img> imgs; bool valid = true; std::string why; };
// an uncompressed PNG file (stored deflate blocks) of 1 to 4 channels
std::string png(int w, int h, int ch, const std::vector<unsigned char>& px) {
    auto be = [](u32 v) { return std::string{ (char)(v >> 24), (char)(v >> 16), (char)(v >> 8), (char)v }; };
    auto crc = [](const std::string& s) { u32 c = ~0u; for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; } return ~c; };
    auto chunk = [&](const std::string& ty, const std::string& d) { return be((u32)d.size()) + ty + d + be(crc(ty + d)); };
    static const char ct[] = { 0, 0, 4, 2, 6 }; std::string raw, z("\x78\x01"); for (int y = 0; y < h; y++) { raw += '\0'; raw.append((const char*)px.data() + (size_t)y * w * ch, (size_t)w * ch); }
    for (size_t i = 0; i < raw.size();) { size_t n = std::min<size_t>(65535, raw.size() - i); z += (char)(i + n == raw.size()); z += (char)n; z += (char)(n >> 8); z += (char)~n; z += (char)(~n >> 8); z.append(raw, i, n); i += n; }
    u32 a = 1, b = 0; for (unsigned char q : raw) { a = (a + q) % 65521; b = (b + a) % 65521; } z += be(b << 16 | a);
    return std::string("\x89PNG\r\n\x1a\n") + chunk("IHDR", be(w) + be(h) + std::string{ 8, ct[ch], 0, 0, 0 }) + chunk("IDAT", z) + chunk("IEND", "");
}
Img gen_img(Rng& r) {
    if (r.chance(.3)) {
        Img m; m.w = (int)r.range(1, r.chance(.2) ? 70 : 6); m.h = (int)r.range(1, r.chance(.2) ? 60 : 5); m.ext = "png"; int ch = (int)r.range(1, 4); std::vector<unsigned char> px((size_t)m.w * m.h * ch); for (auto& p : px) p = (unsigned char)r.next(); m.bytes = png(m.w, m.h, ch, px); m.c = ch % 2 ? 3 : 4;
        for (int i = 0; i < m.w * m.h; i++) { const unsigned char* q = &px[(size_t)i * ch]; for (int j = 0; j < 3; j++) m.d.push_back((float)std::pow(q[ch < 3 ? 0 : j] / 255.f, 2.2f)); if (m.c == 4) m.d.push_back(q[ch - 1] / 255.f); }
        return m;
    }
    Img m; m.w = (int)r.range(1, r.chance(.15) ? 70 : 6); m.h = (int)r.range(1, r.chance(.15) ? 60 : 5); int k = (int)r.below(5); if (r.chance(.2)) { m.w = (int)r.range(35, 70); m.h = (int)r.range(35, 60); if (r.chance(.5)) k = 1; } m.c = k == 0 ? 1 : k == 1 ? 4 : 3; m.ext = k == 0 ? "pgm" : k == 1 ? "tga" : k == 2 ? "hdr" : "ppm";
    if (k == 2) {
        if (m.w >= 8) m.w = (int)r.range(1, 7);      // flat scanlines
        m.bytes = fmtv("#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y %d +X %d\n", m.h, m.w);
        for (int i = 0; i < m.w * m.h; i++) { int e = (int)r.range(120, 134); unsigned char q[4] = { (unsigned char)r.range(3, 255), (unsigned char)r.below(256), (unsigned char)r.below(256), (unsigned char)e }; m.bytes.append((char*)q, 4); for (int j = 0; j < 3; j++) m.d.push_back((float)(q[j] * std::ldexp(1., e - 136))); }
        return m;
    }
    if (r.chance(.01)) { m.w = (int)r.range(100, 300); m.h = (int)r.range(80, 200); probe("large_textures"); }
    m.bytes = make_ppm(r, m.w, m.h, m.c); size_t n = (size_t)m.w * m.h * m.c, off = m.bytes.size() - n;
    auto lin = [](unsigned char v) { return (float)std::pow(v / 255.f, 2.2f); };
    for (int i = 0; i < m.w * m.h; i++) { const unsigned char* q = (const unsigned char*)m.bytes.data() + off + (size_t)i * m.c; if (m.c == 1) for (int j = 0; j < 3; j++) m.d.push_back(lin(q[0])); else if (m.c == 3) for (int j = 0; j < 3; j++) m.d.push_back(lin(q[j])); else { m.d.push_back(lin(q[2])); m.d.push_back(lin(q[1])); m.d.push_back(lin(q[0])); m.d.push_back(q[3] / 255.f); } }
    if (m.c == 1) m.c = 3;
    return m;
}
void check_tex(lm::Texture* t, const Img& m, bool flip, const char* what) {
    CHECK(t, "missing-asset", "%s: not a texture", what); auto s = t->size(); CHECK(s.w == m.w && s.h == m.h, "wrong-contents", "%s: size %dx%d, the file has %dx%d", what, s.w, s.h, m.w, m.h);
    CHECK(t->has_alpha() == (m.c == 4), "wrong-contents", "%s: alpha channel %s", what, t->has_alpha() ? "invented" : "lost");
    auto tb = t->buffer(); CHECK(tb.w == m.w && tb.h == m.h && tb.c == m.c && tb.data, "wrong-contents", "%s: buffer of %dx%dx%d, the file has %dx%dx%d", what, tb.w, tb.h, tb.c, m.w, m.h, m.c);
    // coordinates repeat with period one, also where they are negative or just below a whole number
    { auto at = [&](int x, int y) { return t->eval_by_pixel_coords(x, y); }; int X = m.w - 1, Y = m.h - 1; double below = std::nextafter(1., 0.), hx = .5 / m.w, hy = .5 / m.h;
      struct { double u, v; int x, y; } q[] = { { 0, 0, 0, 0 }, { 1, 1, 0, 0 }, { -1, 2, 0, 0 }, { below, below, X, Y }, { -hx, hy, X, 0 }, { hx, -hy, 0, Y }, { 3 - hx, -2 - hy, X, Y }, { hx - 2, hy + 5, 0, 0 }, { -1e-20, hy, X, 0 }, { hx, -1e-20, 0, Y } };
      for (auto& k : q) { Vec3 a = t->eval(Vec2(k.u, k.v)), b = at(k.x, k.y); bool same = a.x == b.x && a.y == b.y && a.z == b.z; CHECK(same, "wrong-contents", "%s: texture at (%g,%g) is not pixel (%d,%d)", what, k.u, k.v, k.x, k.y); if (m.c == 4) { double al = t->eval_alpha(Vec2(k.u, k.v)); CHECK(al == m.d[((flip ? m.h - 1 - k.y : k.y) * m.w + k.x) * 4 + 3] || std::fabs(al - m.d[((flip ? m.h - 1 - k.y : k.y) * m.w + k.x) * 4 + 3]) < 1e-5, "wrong-contents", "%s: alpha at (%g,%g) is not that of pixel (%d,%d)", what, k.u, k.v, k.x, k.y); } } }
    for (int y = 0; y < m.h; y++) for (int x = 0; x < m.w; x++) {
        { const float* e = &m.d[((flip ? m.h - 1 - y : y) * m.w + x) * m.c]; for (int k = 0; k < m.c; k++) CHECK(std::fabs(tb.data[(y * m.w + x) * m.c + k] - e[k]) <= 2e-5 * std::max(1.f, e[k]), "wrong-contents", "%s: buffer value (%d,%d,%d) differs from the file", what, x, y, k); }
        const float* e = &m.d[((flip ? m.h - 1 - y : y) * m.w + x) * m.c]; Vec2 uv((x + .5) / m.w + (x % 2), (y + .5) / m.h); Vec3 a = t->eval_by_pixel_coords(x, y), b = t->eval(uv);
        for (int k = 0; k < 3; k++) CHECK(std::fabs(a[k] - e[k]) <= 2e-5 * std::max(1.f, e[k]) && a[k] == b[k], "wrong-contents", "%s: pixel (%d,%d) channel %d is %g / %g, the file has %g", what, x, y, k, (double)a[k], (double)b[k], e[k]);
        if (m.c == 4) CHECK(std::fabs(t->eval_alpha(uv) - e[3]) <= 1e-5, "wrong-contents", "%s: alpha of pixel (%d,%d) is %g, the file has %g", what, x, y, (double)t->eval_alpha(uv), e[3]);
    }
}
// text of a valid OBJ file together with what it says
Obj gen_obj(Rng& r, const std::string& id, bool materials, bool tri) {
    Obj o; auto some = [&](double p) { return r.chance(p); }; bool crlf = some(.1), big = some(.2), huge = some(.015); if (huge) { big = true; probe("large_obj_files"); } std::string nl = crlf ? "\r\n" : "\n";
    auto num = [&](double lo, double hi) { double x = lo + (hi - lo) * r.unit(); return some(.4) ? std::round(x * 8) / 8 : x; };
    auto junk = [&](std::string& s) { if (some(.15)) s += "# comment f 1 2 3" + nl; if (some(.1)) s += nl; if (some(.05)) s += "s off" + nl; if (some(.03)) s += "o object" + nl; };
    auto sp = [&] { return some(.1) ? std::string("  ") : some(.05) ? std::string("\t") : std::string(" "); };
    if (materials) {
        int nlib = some(.2) ? 2 : 1;
        for (int l = 0; l < nlib; l++) {
            std::string t; junk(t); int n = (int)r.range(1, 3);
            for (int i = 0; i < n; i++) {
                Mtl m; m.name = fmtv("%s%d%d", some(.3) ? "mat_" : "m", l, i); if (some(.08)) m.name += std::string(r.chance(.5) ? r.range(200, 300) : r.range(300, 3900), 'x'); m.Kd = Vec3(0); m.Ks = Vec3(0); m.Ke = Vec3(0); t += "newmtl " + m.name + nl; junk(t);
                auto v3 = [&](const char* k, Vec3& v, double hi) { v = Vec3(num(0, hi), num(0, hi), num(0, hi)); t += (some(.2) ? "\t" : "") + std::string(k) + " " + fmtv("%.17g %.17g %.17g", (double)v.x, (double)v.y, (double)v.z) + nl; };
                if (some(.9)) v3("Kd", m.Kd, 1); if (some(.5)) v3("Ks", m.Ks, 1); if (some(.35)) { v3("Ke", m.Ke, 4); }
                if (some(.5) || tri) { m.Ns = (int)r.below(200); t += fmtv("Ns %g", m.Ns) + nl; } if (some(.4)) { m.illum = some(.5) ? 7 : some(.5) ? 5 : 2; t += fmtv("illum %d", m.illum) + nl; m.Ni = 1.25; t += "Ni 1.25" + nl; }
                if (!o.imgs.empty() && some(.25)) { m.map = o.imgs.begin()->first; t += "map_Kd " + m.map + nl; } else if (some(.4)) { Img g = gen_img(r); m.map = fmtv("%stex%d_%d.%s", id.c_str(), l, i, g.ext.c_str()); if (some(.25)) { std::string c = id + "tex." + g.ext; if (!o.imgs.count(c)) { m.map = c; for (auto& y : o.imgs) if (y.first.compare(0, id.size() + 4, id + "tex.") == 0) probe("textures_with_equal_stems"); } } o.imgs[m.map] = g; t += "map_Kd " + m.map + nl; }
                junk(t); if (big) for (int k = 0; k < 100; k++) t += "# " + std::string(80, 'c') + nl; o.ms.push_back(m);
            }
            o.libs.push_back({ fmtv("%slib%d.mtl", id.c_str(), l), t });
        }
    }
    std::string& t = o.text; junk(t); bool late = some(.2);
    for (auto& l : o.libs) t += "mtllib " + l.first + nl;
    auto verts = [&](int n) { for (int i = 0; i < n; i++) { Vec3 v(num(-4, 4), num(-4, 4), num(-4, 4)); o.ps.push_back(v); t += (some(.1) ? " v" : "v") + sp() + fmtv("%.17g", (double)v.x) + sp() + fmtv("%.17g", (double)v.y) + sp() + fmtv("%.17g", (double)v.z) + nl; if (some(.02)) junk(t); } };
    auto attrs = [&] { int a = (int)r.below(4), b = (int)r.below(4); for (int i = 0; i < a; i++) { Vec3 v = glm::normalize(Vec3(num(-1, 1), num(-1, 1), num(.1, 1))); o.ns.push_back(v); t += fmtv("vn %.17g %.17g %.17g", (double)v.x, (double)v.y, (double)v.z) + nl; } for (int i = 0; i < b; i++) { Vec2 v(num(0, 1), num(0, 1)); o.ts.push_back(v); t += fmtv("vt %.17g %.17g", (double)v.x, (double)v.y) + (some(.2) ? " 0" : "") + nl; } };
    verts(huge ? (int)r.range(1500, 5000) : big ? (int)r.range(100, 400) : (int)r.range(3, 9)); attrs();
    int ng = (int)r.range(1, 4), cur = 0; bool started = false; 
    for (int g = 0; g < ng; g++) {
        int z = (int)r.below(4); bool hasg = z != 1, hasm = materials && z != 0, order = some(.5); if (g == 0 && some(.3)) hasg = hasm = false;
        if (hasm) cur = (int)r.below(o.ms.size());
        std::string gs = fmtv("g grp%d", g) + (some(.03) ? std::string(r.range(200, 4000), 'g') : "") + nl, us = hasm ? "usemtl " + o.ms[cur].name + nl : "";
        if (hasg && hasm) t += order ? gs + us : us + gs; else if (hasg) t += gs; else if (hasm) t += us;
        if (!started || hasg || hasm) { o.prims.push_back({}); o.prims.back().mat = cur; started = true; }
        if (late && g) { verts((int)r.range(1, 3)); attrs(); }
        int nf = huge ? (int)r.range(200, 1500) : big ? (int)r.range(5, 60) : (int)r.range(1, 4);
        for (int k = 0; k < nf; k++) {
            int n = !tri && some(.3) && o.ps.size() >= 4 ? 4 : 3; if (!tri && o.ps.size() >= 8 && some(.06)) { n = (int)r.range(5, 8); probe("polygons"); } int form = (int)r.below(4); if (form & 1 && o.ts.empty()) form &= ~1; if (form & 2 && o.ns.empty()) form &= ~2; bool neg = some(.2); std::vector<Ix> ix; std::set<int> used; std::string ft;
            for (int c = 0; c < n; c++) { int p; do p = (int)r.below(o.ps.size()); while (used.count(p)); used.insert(p); Ix i{ p, form & 1 ? (int)r.below(o.ts.size()) : -1, form & 2 ? (int)r.below(o.ns.size()) : -1 }; ix.push_back(i); auto out = [&](int v, size_t sz) { return neg ? v - (int)sz : v + 1; };
                ft += sp() + fmtv("%d", out(i.p, o.ps.size())); if (form == 1) ft += fmtv("/%d", out(i.t, o.ts.size())); if (form == 2) ft += fmtv("//%d", out(i.n, o.ns.size())); if (form == 3) ft += fmtv("/%d/%d", out(i.t, o.ts.size()), out(i.n, o.ns.size())); }
            t += "f" + ft + (some(.1) ? " " : "") + nl; auto& F = o.prims.back().f; F.push_back({ ix[0], ix[1], ix[2] }); for (int c = 3; c < n; c++) F.push_back({ ix[0], ix[c - 1], ix[c] });
            if (big && some(.2)) t += "# " + std::string(r.below(200), '#') + nl;
        }
    }
    if (some(.1) && t.size() > 2) t.resize(t.size() - nl.size());      // no newline at the end
    return o;
}
void spoil(Rng& r, Obj& o, const std::vector<std::string>& earlier) {       // make the file say something it cannot mean
    int z = (int)r.below(5); if (z == 2 && g_tiny) z = 3;      // the other loader only warns about unknown materials
    switch (z) {
    case 0: o.text += fmtv("\nf 1 2 %d\n", (int)o.ps.size() + 1 + (int)r.below(1000)); o.why = "face refers to a missing vertex"; break;
    case 1: o.text += fmtv("\nf -1 -2 -%d\n", (int)o.ps.size() + 1 + (int)r.below(50)); o.why = "relative index before the first vertex"; break;
    case 2: { std::string nm = "nosuchmaterial"; if (!earlier.empty() && r.chance(.7)) { nm = earlier[r.below(earlier.size())]; for (auto& m : o.ms) if (m.name == nm) nm = "nosuchmaterial"; if (nm != "nosuchmaterial") probe("material_of_another_file"); } o.text += "\nusemtl " + nm + "\nf 1 2 3\n"; o.why = "unknown material"; break; }
    case 3: o.text += "\nmtllib nosuchfile.mtl\n"; o.why = "missing material library"; break;
    default: o.text += fmtv("\nf 1//%d 2//1 3//1\n", (int)o.ns.size() + 1 + (int)r.below(9)); o.why = "face refers to a missing normal"; }
    o.valid = false;
}
bool eq(const Vec3& a, const Vec3& b) { return g_tiny ? glm::length(a - b) <= 1e-11 * (1 + glm::length(b)) : a.x == b.x && a.y == b.y && a.z == b.z; }
void check_mesh(lm::Mesh* m, const Obj& o, const std::vector<std::array<Ix, 3>>& F, const char* what) {
    CHECK(m, "missing-asset", "%s: not a mesh", what); CHECK(m->num_triangles() == (int)F.size(), "wrong-contents", "%s: %d triangles, the file has %zu", what, m->num_triangles(), F.size()); int n = 0;
    m->foreach_triangle([&](int fi, const lm::Mesh::Tri& t) {
        CHECK(fi == n, "wrong-contents", "%s: face %d visited as %d", what, n, fi); auto& f = F[n++]; const lm::Mesh::Point* v[3] = { &t.p1, &t.p2, &t.p3 };
        for (int k = 0; k < 3; k++) { CHECK(eq(v[k]->p, o.ps[f[k].p]), "wrong-contents", "%s: vertex %d of face %d is (%g,%g,%g), the file has (%g,%g,%g)", what, k, fi, v[k]->p.x, v[k]->p.y, v[k]->p.z, o.ps[f[k].p].x, o.ps[f[k].p].y, o.ps[f[k].p].z); if (f[k].n >= 0) CHECK(eq(v[k]->n, o.ns[f[k].n]), "wrong-contents", "%s: normal %d of face %d differs from the file", what, k, fi); if (f[k].t >= 0) CHECK(eq(Vec3(v[k]->t, 0), Vec3(o.ts[f[k].t], 0)), "wrong-contents", "%s: texture coordinate %d of face %d differs from the file", what, k, fi); }
        if (fi % 7 == 0 || fi == (int)F.size() - 1) { auto sp = m->surface_point(fi, Vec2(.25, .5)); Vec3 e = o.ps[f[0].p] * .25 + o.ps[f[1].p] * .25 + o.ps[f[2].p] * .5; CHECK(glm::length(sp.p - e) < 1e-9, "wrong-contents", "%s: point on face %d is off", what, fi); Vec3 gn = glm::cross(o.ps[f[1].p] - o.ps[f[0].p], o.ps[f[2].p] - o.ps[f[0].p]); double gl = glm::length(gn); if (gl > 1e-3) { gn /= gl; CHECK(glm::length(sp.gn - gn) < 1e-6, "wrong-contents", "%s: geometry normal of face %d is off", what, fi); Vec3 ne = gn; if (f[0].n >= 0) ne = o.ns[f[0].n] * .25 + o.ns[f[1].n] * .25 + o.ns[f[2].n] * .5; double nl = glm::length(ne); if (nl > 1e-3) CHECK(glm::length(sp.n - ne / nl) < 1e-6, "wrong-contents", "%s: shading normal on face %d is off", what, fi); } if (f[0].t < 0) CHECK(sp.t.x == 0 && sp.t.y == 0, "wrong-contents", "%s: texture coordinate on face %d is invented", what, fi); if (f[0].t >= 0) { Vec2 te = o.ts[f[0].t] * .25 + o.ts[f[1].t] * .25 + o.ts[f[2].t] * .5; CHECK(glm::length(sp.t - te) < 1e-9, "wrong-contents", "%s: texture coordinate on face %d is off", what, fi); } }
    });
    CHECK(n == (int)F.size(), "wrong-contents", "%s: visited %d of %zu faces", what, n, F.size());
}
}
namespace {
// the texture of a model that a material looks like
lm::Texture* used_texture(lm::Component* m, lm::Material* mat) {
    std::vector<lm::Texture*> ts; lib([&] { m->foreach_underlying([&](lm::Component*& c, bool) { Quiet q; if (auto* t = dynamic_cast<lm::Texture*>(c)) ts.push_back(t); }); });
    for (auto* t : ts) { bool same = true; for (int k = 0; k < 12 && same; k++) { lm::PointGeometry g{}; g.degenerated = false; g.infinite = false; g.n = g.gn = Vec3(0, 0, 1); g.t = Vec2(.001 + k * .083, .001 + (k * 5 % 12) * .083); std::tie(g.u, g.v) = lm::math::orthonormal_basis(g.n); same = eq(lib([&] { return mat->reflectance(g); }), lib([&] { return t->eval(g.t); })); } if (same) return t; }
    return nullptr;
}
}
SCENARIO(P13, false) {
    sched.strategy = 3; Rng& r = W();
    lib([] { lm::init(); lm::log::set_severity(1000); }); g_tiny = false;
    if (r.chance(.3)) { bool have = false; lib([&] { lm::comp::detail::foreach_registered([&](const std::string& k) { Quiet q; have |= k == "objloader::tinyobjloader"; }); if (have) lm::objloader::init("tinyobjloader"); }); g_tiny = have; if (have) probe("tinyobjloader"); }
    std::vector<std::string> earlier;      // names of materials in earlier files
    bool base_mat = false; int steps = (int)r.range(1, 3); std::map<std::string, std::function<void(const char*)>> live;      // registered assets and how to verify them
    for (int st = 0; st < steps; st++) {
        int kind = (int)r.below(5); std::string id = fmtv("s%d", st), name = r.chance(.3) ? "a" : "a" + id; Obj o; Img im; std::string key, main; Json p; bool flip = true;
        if (kind <= 2) {
            o = gen_obj(r, id, kind == 1 || r.chance(.5), g_tiny); if (r.chance(.15)) spoil(r, o, earlier); for (auto& m : o.ms) earlier.push_back(m.name);
            for (auto& l : o.libs) write_text(l.first, l.second); for (auto& i : o.imgs) write_text(i.first, i.second.bytes);
            if (r.chance(.05)) { o.text += "\n# " + std::string(5000, 'x') + "\nf 1 2 3\n"; o.prims.back().f.push_back({ Ix{ 0, -1, -1 }, Ix{ 1, -1, -1 }, Ix{ 2, -1, -1 } }); o.why = "long line"; }
            main = write_text(id + ".obj", o.text); p = { {"path", main} }; key = kind == 1 ? "model::wavefrontobj" : kind == 0 ? "mesh::wavefrontobj" : "direct";
            if (kind == 1 && r.chance(.2)) p["skip_specular_mat"] = true;
            if (kind == 1 && r.chance(.15) && o.valid && o.why.empty()) {      // parameters naming components or assets that do not exist, and a material for every part
                bool maps = false, lit = false; for (auto& m : o.ms) maps |= !m.map.empty(); for (auto& q : o.prims) lit |= !o.ms.empty() && std::max({ o.ms[q.mat].Ke.x, o.ms[q.mat].Ke.y, o.ms[q.mat].Ke.z }) > 0;
                switch (r.below(4)) {
                case 0: p["texture"] = "texture::nope"; if (maps) { o.valid = false; o.why = "unknown texture type"; } break;
                case 1: p["light"] = "light::nope"; if (lit) { o.valid = false; o.why = "unknown light type"; } break;
                case 2: p["base_material"] = "$.assets.nope"; o.valid = false; o.why = "unknown base material"; break;
                default: if (!base_mat) { base_mat = true; lib([] { lm::load<lm::Material>("base_mat", "material::diffuse", Json{ {"Kd", { .25, .5, .75 }} }); }); } p["base_material"] = "$.assets.base_mat"; } probe("model_parameters");
            }
        } else { im = gen_img(r); main = write_text(id + "." + im.ext, im.bytes); p = { {"path", main} }; if (r.chance(.5)) p["flip"] = flip = r.chance(.5); key = "texture::bitmap"; if (r.chance(.1)) { std::string b = im.bytes; for (char& c : b) if (r.chance(.5)) c = (char)r.next(); b[0] = 'Q'; b[1] = 'Q'; write_text(id + "." + im.ext, b); o.valid = false; o.why = "not an image"; } }
        int fk = (int)r.below(7); u64 z = r.next(); bool gone = false;
        if (!op_enabled(st)) continue;
        disable_all(); fs_reset_stats(); fs_error_reset(); std::string hidden;
        switch (fk) { case 0: break; case 1: enable(F_OPEN_ERR, .6); break; case 2: enable(F_READ_ERR, 1, 1); break; case 3: enable(F_READ_ERR, z % 3 ? .3 : .08, 2); if (z & 1) enable(F_READ_SHORT, .6); break; case 4: enable(F_READ_SHORT, .8); enable(F_READ_EINTR, .3); break;
            case 5: { std::vector<std::string> fs{ main }; for (auto& l : o.libs) fs.push_back(scratch_file(l.first)); if (kind == 1 && !p.count("base_material")) for (auto& i : o.imgs) fs.push_back(scratch_file(i.first)); hidden = fs[z % fs.size()]; ::rename(hidden.c_str(), (hidden + ".away").c_str()); gone = true; break; }
            default: enable(F_READ_SHORT, .5); enable(F_READ_EINTR, .2); enable(F_READ_ERR, .1); enable(F_OPEN_ERR, .05); }
        describe(fmtv("%s (%zu bytes, %zu libs, %zu images)%s fault %d", key.c_str(), kind <= 2 ? o.text.size() : im.bytes.size(), o.libs.size(), kind <= 2 ? o.imgs.size() : 1, o.valid ? "" : (" invalid: " + o.why).c_str(), fk));
        auto verify = [=](const char* when) {
            std::string what = fmtv("%s %s %s", when, key.c_str(), name.c_str()); auto* c = lib([&] { return lm::comp::get<lm::Component>(aref(name)); }); CHECK(c, "missing-asset", "%s is not registered", what.c_str()); CHECK(c->key() == key, "wrong-asset", "%s is a %s", what.c_str(), c->key().c_str());
            if (kind >= 3) { check_tex(dynamic_cast<lm::Texture*>(c), im, flip, what.c_str()); return; }
            if (kind == 0) { std::vector<std::array<Ix, 3>> all; for (auto& q : o.prims) all.insert(all.end(), q.f.begin(), q.f.end()); check_mesh(dynamic_cast<lm::Mesh*>(c), o, all, what.c_str()); return; }
            auto* m = dynamic_cast<lm::Model*>(c); CHECK(m, "missing-asset", "%s is not a model", what.c_str()); size_t n = 0, np = 0; bool skip = p.count("skip_specular_mat"); Prim run; std::vector<std::pair<int, std::array<Ix, 3>>> flat; for (auto& q : o.prims) for (auto& f : q.f) flat.push_back({ q.mat, f });
            m->create_primitives([&](lm::Component* me, lm::Component* ma, lm::Component* li) {
                if (g_tiny) { auto* M = dynamic_cast<lm::Mesh*>(me); CHECK(M && M->num_triangles() > 0 && np + M->num_triangles() <= flat.size(), "wrong-contents", "%s has more faces than the file", what.c_str()); run.f.clear(); run.mat = flat[np].first; for (int i = 0; i < M->num_triangles(); i++, np++) { CHECK(flat[np].first == run.mat, "wrong-contents", "%s: face %zu is in a part with another material", what.c_str(), np); run.f.push_back(flat[np].second); } }
                CHECK(g_tiny || n < o.prims.size(), "wrong-contents", "%s has more primitives than the file", what.c_str()); auto& q = g_tiny ? run : o.prims[n]; n++; check_mesh(dynamic_cast<lm::Mesh*>(me), o, q.f, what.c_str());
                std::string mn = o.ms.empty() ? "default" : o.ms[q.mat].name; CHECK(ma && ma->loc() == aref(name) + "." + mn, "wrong-contents", "%s: primitive %zu has material %s, the file says %s", what.c_str(), n - 1, ma ? ma->loc().c_str() : "none", mn.c_str());
                bool lit = !o.ms.empty() && std::max({ o.ms[q.mat].Ke.x, o.ms[q.mat].Ke.y, o.ms[q.mat].Ke.z }) > 0; CHECK(bool(li) == lit, "wrong-contents", "%s: primitive %zu %s", what.c_str(), n - 1, lit ? "lost its light" : "has a light the file does not mention");
                auto* mat = dynamic_cast<lm::Material*>(ma); CHECK(mat, "wrong-contents", "%s: material is not a material", what.c_str());
                if (p.count("base_material")) { lm::PointGeometry g{}; g.n = g.gn = Vec3(0, 0, 1); CHECK(eq(lib([&] { return mat->reflectance(g); }), Vec3(.25, .5, .75)), "wrong-contents", "%s: the given base material is not used", what.c_str()); }
                else if (!o.ms.empty()) { auto& M = o.ms[q.mat]; std::string k = ma->key(); bool glass = k == "material::glass", mirror = k == "material::mirror"; CHECK(glass == (M.illum == 7 && !skip) && mirror == (M.illum == 5 && !skip), "wrong-contents", "%s: material %s of illumination model %d became %s", what.c_str(), mn.c_str(), M.illum, k.c_str());
                    if (M.illum != 5 && M.illum != 7) { lm::PointGeometry g{}; g.degenerated = false; g.infinite = false; g.n = g.gn = Vec3(0, 0, 1); g.t = Vec2(.001, .001); std::tie(g.u, g.v) = lm::math::orthonormal_basis(g.n); Vec3 R = mat->reflectance(g);
                        if (M.map.empty()) CHECK(eq(R, M.Kd), "wrong-contents", "%s: material %s has reflectance (%g,%g,%g), the file says (%g,%g,%g)", what.c_str(), mn.c_str(), R.x, R.y, R.z, M.Kd.x, M.Kd.y, M.Kd.z);
                        else { auto* t = used_texture(m, mat); CHECK(t, "wrong-contents", "%s: material %s uses no texture of the model", what.c_str(), mn.c_str()); check_tex(t, o.imgs.at(M.map), true, (what + " texture " + M.map).c_str()); Vec3 e = t->eval(g.t); CHECK(eq(R, e), "wrong-contents", "%s: material %s does not use its texture", what.c_str(), mn.c_str()); } }
                    // the rest of the material's parameters, through a reference material made from what the file says
                    lm::PointGeometry g{}; g.degenerated = false; g.infinite = false; g.n = g.gn = Vec3(0, 0, 1); g.t = Vec2(.001, .001); std::tie(g.u, g.v) = lm::math::orthonormal_basis(g.n); Vec3 wi = glm::normalize(Vec3(.3, .2, .8)), wo = glm::normalize(Vec3(-.4, .1, .7));
                    if (M.illum != 5 && M.illum != 7) lib([&] {
                        double ro = std::max(1e-3, 2. / (2. + M.Ns)); auto gl = lm::comp::create<lm::Material>("material::glossy", "", Json{ {"Ks", { M.Ks.x, M.Ks.y, M.Ks.z }}, {"ax", ro}, {"ay", ro} }); Vec3 e = gl->eval(g, wi, wo, {}, lm::Material::TransDir::EL, false); double al = 1; Vec3 kd = M.Kd; if (!M.map.empty()) { auto* t = used_texture(m, mat); kd = t->eval(g.t); if (t->has_alpha() && !skip) al = t->eval_alpha(g.t); }
                        e = (e + kd / 3.14159265358979323846) * al; Vec3 v = mat->eval(g, wi, wo, 0, lm::Material::TransDir::EL, false); Quiet q; CHECK(glm::length(v - e) <= 1e-5 * (1 + glm::length(e)), "wrong-contents", "%s: material %s evaluates to (%g,%g,%g), the file's parameters give (%g,%g,%g)", what.c_str(), mn.c_str(), v.x, v.y, v.z, e.x, e.y, e.z); });
                    else if (glass) lib([&] { auto gl = lm::comp::create<lm::Material>("material::glass", "", Json{ {"Ni", M.Ni} }); lm::Material::DirectionSampleU u{}; u.ud = Vec2(.3, .6); u.udc = Vec2(.9, .5); auto a = gl->sample_direction(u, g, wi, 0, lm::Material::TransDir::EL), b = mat->sample_direction(u, g, wi, 0, lm::Material::TransDir::EL); Quiet q; CHECK(bool(a) == bool(b) && (!a || glm::length(a->wo - b->wo) < 1e-9), "wrong-contents", "%s: glass %s refracts differently from the file's index", what.c_str(), mn.c_str()); });
                    if (lit) lib([&] { auto ar = lm::comp::create<lm::Light>("light::area", "", Json{ {"Ke", { M.Ke.x, M.Ke.y, M.Ke.z }}, {"mesh", me->loc()} }); auto* L = dynamic_cast<lm::Light*>(li); bool ok = L != nullptr; Vec3 a(0), b(0); if (ok) { a = ar->eval(g, wo, false); b = L->eval(g, wo, false); } Quiet q; CHECK(ok && eq(a, b), "wrong-contents", "%s: the light of material %s emits (%g,%g,%g), the file says (%g,%g,%g)", what.c_str(), mn.c_str(), b.x, b.y, b.z, M.Ke.x, M.Ke.y, M.Ke.z); });
                }
            });
            if (g_tiny) CHECK(np == flat.size(), "wrong-contents", "%s has %zu faces, the file has %zu", what.c_str(), np, flat.size()); else
            CHECK(n == o.prims.size(), "wrong-contents", "%s has %zu primitives, the file has %zu", what.c_str(), n, o.prims.size());
        };
        auto attempt = [&](std::string& what) {       // true: loaded
            phase("loading " + key); 
            try {
                if (kind == 2) {
                    lm::objloader::OBJSurfaceGeometry geo; std::vector<std::pair<std::string, lm::objloader::OBJMeshFace>> got; std::vector<std::string> mats;
                    bool ok = lib([&] { return lm::objloader::load(main, geo, [&](const lm::objloader::OBJMeshFace& f, const lm::objloader::MTLMatParams& m) { Quiet q; got.push_back({ m.name, f }); return true; }, [&](const lm::objloader::MTLMatParams& m) { Quiet q; mats.push_back(m.name); return true; }); });
                    if (!ok) { what = "returned false"; return false; }
                    CHECK(geo.ps.size() == o.ps.size() && geo.ns.size() == o.ns.size() && geo.ts.size() == o.ts.size(), "wrong-contents", "loader found %zu/%zu/%zu positions/normals/texture coordinates, the file has %zu/%zu/%zu", geo.ps.size(), geo.ns.size(), geo.ts.size(), o.ps.size(), o.ns.size(), o.ts.size());
                    for (size_t i = 0; i < o.ps.size(); i++) CHECK(eq(geo.ps[i], o.ps[i]), "wrong-contents", "position %zu differs from the file", i);
                    for (size_t i = 0; i < o.ns.size(); i++) CHECK(eq(geo.ns[i], o.ns[i]), "wrong-contents", "normal %zu differs from the file", i); for (size_t i = 0; i < o.ts.size(); i++) CHECK(eq(Vec3(geo.ts[i], 0), Vec3(o.ts[i], 0)), "wrong-contents", "texture coordinate %zu differs from the file", i);
                    if (g_tiny) { size_t np = 0, nf = 0; for (auto& q : o.prims) nf += q.f.size(); std::vector<std::pair<int, std::array<Ix, 3>>> flat; for (auto& q : o.prims) for (auto& f : q.f) flat.push_back({ q.mat, f });
                        for (auto& g : got) { CHECK(!g.second.empty() && g.second.size() % 3 == 0 && np + g.second.size() / 3 <= nf, "wrong-contents", "a part of %zu corners after %zu of %zu faces", g.second.size(), np, nf); for (size_t k = 0; k < g.second.size(); k++) { auto& f = flat[np + k / 3]; auto& a = g.second[k]; auto& b = f.second[k % 3]; CHECK(a.p == b.p && a.t == b.t && a.n == b.n, "wrong-contents", "corner %zu of face %zu differs from the file", k % 3, np + k / 3); if (!o.ms.empty()) CHECK(g.first == o.ms[f.first].name, "wrong-contents", "face %zu has material %s", np + k / 3, g.first.c_str()); } np += g.second.size() / 3; }
                        CHECK(np == nf, "wrong-contents", "loader found %zu faces, the file has %zu", np, nf); CHECK(mats.size() == std::max<size_t>(1, o.ms.size()), "wrong-contents", "loader found %zu materials, the file has %zu", mats.size(), o.ms.size()); return true; }
                    CHECK(got.size() == o.prims.size(), "wrong-contents", "loader found %zu primitives, the file has %zu", got.size(), o.prims.size()); CHECK(mats.size() == std::max<size_t>(1, o.ms.size()), "wrong-contents", "loader found %zu materials, the file has %zu", mats.size(), o.ms.size());
                    for (size_t i = 0; i < got.size(); i++) { CHECK(got[i].second.size() == 3 * o.prims[i].f.size(), "wrong-contents", "primitive %zu has %zu indices, the file has %zu", i, got[i].second.size(), 3 * o.prims[i].f.size()); for (size_t k = 0; k < got[i].second.size(); k++) { auto& a = got[i].second[k]; auto& b = o.prims[i].f[k / 3][k % 3]; CHECK(a.p == b.p && a.t == b.t && a.n == b.n, "wrong-contents", "index %zu of primitive %zu differs from the file", k, i); } if (!o.ms.empty()) CHECK(got[i].first == o.ms[o.prims[i].mat].name, "wrong-contents", "primitive %zu has material %s", i, got[i].first.c_str()); }
                    return true;
                }
                auto* c = lib([&] { return lm::load<lm::Component>(name, key, p); }); if (!c) what = "returned null"; return c != nullptr;
            } catch (std::exception& e) { what = e.what(); return false; }
        };
        auto others = [&](const char* when) { for (auto& l : live) l.second(when); };
        fs_faults_on = true; std::string what; bool ok = attempt(what); fs_faults_on = false; bool seen = fs_error_seen() || gone; std::string ferr = gone ? hidden.substr(hidden.rfind('/') + 1) + " missing" : fs_error_text();
        disable_all(); CHECK(fs_open_count() == 0, "file-leak", "loading left a file open: %s", fs_open_paths().c_str());
        if (gone) { ::rename((hidden + ".away").c_str(), hidden.c_str()); }
        if (ok) {
            CHECK(o.valid, "invalid-accepted", "loading %s succeeded although the file is invalid: %s", key.c_str(), o.why.c_str()); CHECK(!gone, "missing-accepted", "loading %s succeeded although %s", key.c_str(), ferr.c_str());
            if (kind != 2) { verify("loaded"); live[name] = verify; } others("after another load"); probe("loaded"); if (seen) probe("loaded_despite_error"); if (fk == 4) nontrivial();
        } else {
            CHECK(seen || !o.valid || o.why == "long line", "spurious-failure", "loading a valid %s on healthy storage failed: %s", key.c_str(), what.c_str()); probe("failed_loads"); nontrivial();
            auto* c = lib([&] { return lm::comp::get<lm::Component>(aref(name)); }); if (kind != 2 && !live.count(name)) CHECK(!c, "partial-asset", "a failed load (%s) left %s registered", ferr.c_str(), name.c_str()); others("after a failed load");
            fs_error_reset(); ok = attempt(what); if (o.valid && o.why.empty()) { CHECK(ok, "no-recovery", "loading %s again after %s failed: %s", key.c_str(), ferr.c_str(), what.c_str()); if (kind != 2) { verify("loaded again"); live[name] = verify; } others("after the second attempt"); } else if (o.valid && ok) { if (kind != 2) { verify("loaded again"); live[name] = verify; } } else if (!o.valid) CHECK(!ok, "invalid-accepted", "loading %s succeeded although the file is invalid: %s", key.c_str(), o.why.c_str());
        }
    }
    lib([] { lm::shutdown(); });
}
