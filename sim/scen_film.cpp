// P06 (film updates) and P07 (film saves)
#include "world.h"
#include <cfloat>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <stb/stb_image.h>
using namespace sim;
namespace sfs = std::filesystem;
namespace {
bool near(double a, double b, double rel = 1e-9) { return a == b || std::fabs(a - b) <= rel * std::max({ std::fabs(a), std::fabs(b), 1e-3 }); }
struct V { double x = 0, y = 0, z = 0; bool same(const V& o, double rel = 1e-9) const { return near(x, o.x, rel) && near(y, o.y, rel) && near(z, o.z, rel); } bool operator==(const V& o) const { return same(o); } bool operator<(const V& o) const { return std::tie(x, y, z) < std::tie(o.x, o.y, o.z); } };
struct Op { int kind; int px; V a; double s; u64 b, e; long long idx; int th; bool f32; };   // 0 set 1 splat 2 update 3 average 4 read(a); f32: read through a single-precision file
V apply(const V& c, const Op& o) {
    switch (o.kind) {
    case 0: return o.a;
    case 1: return { c.x + o.a.x, c.y + o.a.y, c.z + o.a.z };
    case 2: return { c.x * o.s + o.a.x, c.y * o.s + o.a.y, c.z * o.s + o.a.z };
    default: { double n = (double)(o.idx + 1); return { c.x + (o.a.x - c.x) / n, c.y + (o.a.y - c.y) / n, c.z + (o.a.z - c.z) / n }; }
    }
}
// Is there an order of the operations on one pixel, consistent with real time, that explains every read?
struct Lin {
    std::vector<Op> ops; std::set<std::pair<u64, V>> seen; u64 work = 0;
    bool go(u64 done, const V& cur) {
        if (done + 1 == (1ull << ops.size())) return true;
        if (++work > 300000) return true;       // give up: counted as undecided
        if (!seen.insert({ done, cur }).second) return false;
        u64 min_end = ~0ull; for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) min_end = std::min(min_end, ops[i].e);
        for (size_t i = 0; i < ops.size(); i++) {
            if (done >> i & 1 || ops[i].b > min_end) continue;
            if (ops[i].kind == 4) { if (ops[i].a.same(cur, ops[i].f32 ? 1e-6 : 1e-9) && go(done | 1ull << i, cur)) return true; }
            else if (go(done | 1ull << i, apply(cur, ops[i]))) return true;
        }
        return false;
    }
};
std::string show(const std::vector<Op>& ops) { std::string s; static const char* k[] = { "set", "splat", "update", "average", "read" }; for (auto& o : ops) s += fmtv("[t%d %s (%g,%g,%g)%s @%llu-%llu] ", o.th, k[o.kind], o.a.x, o.a.y, o.a.z, o.kind == 2 ? fmtv("*%g", o.s).c_str() : "", (unsigned long long)o.b, (unsigned long long)o.e); return s.substr(0, 2500); }
bool parse_pfm(const std::string& s, int& w, int& h, std::vector<float>& d) { int n = 0; float sc; if (sscanf(s.c_str(), "PF\n%d %d\n%f%n", &w, &h, &sc, &n) != 3 || sc >= 0) return false; n++; size_t need = (size_t)w * h * 12; if (w <= 0 || h <= 0 || s.size() != n + need) return false; d.resize((size_t)w * h * 3); memcpy(d.data(), s.data() + n, need); return true; }
// a film of the user's own: a bitmap film cannot take it over and must say so without changing anything
struct UserFilm final : lm::Film {
    Vec3 v[4]{};
    lm::FilmSize size() const override { return { 2, 2 }; } long long num_pixels() const override { return 4; } void set_pixel(int x, int y, Vec3 c) override { v[y * 2 + x] = c; } bool save(const std::string&) const override { return false; }
    lm::FilmBuffer buffer() override { return { 2, 2, &v[0].x }; } void accum(const lm::Film*) override {} void splat_pixel(int x, int y, Vec3 c) override { v[y * 2 + x] += c; } void update_pixel(int x, int y, const PixelUpdateFunc& f) override { v[y * 2 + x] = f(v[y * 2 + x]); } void rescale(Float s) override { for (auto& c : v) c *= s; } void clear() override { for (auto& c : v) c = Vec3(0); }
};
}

// ------------------------------------------------------------------------------------------------ P06
SCENARIO(P06, false) {
    randomize_sched(400); if (W().chance(.7)) enable(F_SPURIOUS_CAS, W().chance(.5) ? .1 : .4); if (W().chance(.3)) enable(F_STALL, .05); if (W().chance(.2)) enable(F_TEAM_SIZE, .3);
    lib([] { lm::init(); lm::log::set_severity(1000); });
    Json pp = { {"num_threads", (int)W().range(1, 4)} }; lib([&] { lm::parallel::init("openmp", pp); });
    int w = (int)W().range(1, 4), h = (int)W().range(1, 3); if (W().chance(.02)) { w = (int)W().range(20, 50); h = (int)W().range(10, 30); probe("large_films"); } bool vast = W().chance(.004); if (vast) { w = (int)W().range(300, 500); h = (int)W().range(220, 300); probe("vast_films"); }
    auto* film = lib([&] { return lm::load<lm::Film>("film", "film::bitmap", Json{ {"w", w}, {"h", h} }); });
    auto* other = lib([&] { return lm::load<lm::Film>("other", "film::bitmap", Json{ {"w", w}, {"h", h} }); });
    int ow = w, oh = h; switch (W().below(4)) { case 0: ow++; break; case 1: oh++; break; case 2: ow++; if (oh > 1) oh--; break; default: if (w != h) std::swap(ow, oh); else oh += 2; }
    auto* odd = lib([&] { return lm::load<lm::Film>("odd", "film::bitmap", Json{ {"w", ow}, {"h", oh} }); }); lib([&] { for (int i = 0; i < ow * oh; i++) odd->set_pixel(i % ow, i / ow, Vec3(100 + i, 7, 3)); });
    int rounds = (int)W().range(1, 3); std::vector<V> model(w * h), omodel(w * h); u32 opn = 0;
    auto read_film = [&](lm::Film* f) { std::vector<V> r; lib([&] { auto b = f->buffer(); for (int i = 0; i < w * h; i++) r.push_back({ (double)b.data[3 * i], (double)b.data[3 * i + 1], (double)b.data[3 * i + 2] }); }); return r; };
    for (int rd = 0; rd < rounds; rd++) {
        int mode = (int)W().below(4);
        std::vector<Op> hist; std::vector<std::vector<Op>> plan;
        int nt = (int)W().range(2, 4); if (W().chance(.03)) nt = (int)W().range(5, 10); plan.resize(nt); bool hot = W().chance(.7); bool conserve = mode == 3; int per = conserve ? (int)W().range(10, 40) : (int)W().range(1, 4); bool reader = W().chance(.5), saver = W().chance(.2), acc = W().chance(.2), viaraster = W().chance(.4);
        for (int t = 0; t < nt; t++) for (int k = 0; k < per; k++) { Op o{}; o.kind = conserve ? 1 : (int)W().below(4); o.px = hot ? 0 : (int)W().below(w * h); double b = (double)W().range(1, 60); o.a = { b, 64 * b + 1, -4 * b }; static const double ss[] = { 2, .5, 1, -1 }; o.s = ss[W().below(4)]; static const long long ix[] = { 1, 3, 0, 1, 3, (1ll << 33) - 1 }; o.idx = ix[W().below(6)]; o.th = t; bool en = op_enabled(opn++); if (en) plan[t].push_back(o); }
        if (vast) { reader = saver = acc = false; hot = W().chance(.2); }
        if (reader) { Op o{}; o.kind = 4; o.th = nt; plan.push_back({ o }); if (W().chance(.4)) plan.back().push_back(o); }
        if (saver) { Op o{}; o.kind = 5; o.th = nt + 1; plan.push_back({ o }); }
        if (acc) { Op o{}; o.kind = 6; o.th = nt + 2; plan.push_back({ o }); }
        describe(fmtv("round %d: %d threads x %d ops%s%s%s%s", rd, nt, per, conserve ? " splat" : "", reader ? " reader" : "", saver ? " save" : "", acc ? " accum" : ""));
        std::vector<int> tids; std::vector<V> start = model;
        auto exec = [&](Op o) {
            Quiet q; int x = o.px % w, y = o.px / w; Vec3 a(o.a.x, o.a.y, o.a.z); Vec2 rp((x + .5) / w, (y + .5) / h);
            if (viaraster) { if (x == 0 && (o.idx & 1)) rp.x = -.3; if (x == w - 1 && !(o.idx & 1)) rp.x = 1.; if (y == h - 1) rp.y = 1.25f; else if (y == 0) rp.y = 0; }
            o.b = seq();
            if (o.kind == 0) lib([&] { film->set_pixel(x, y, a); });
            else if (o.kind == 1) lib([&] { if (viaraster) film->splat(rp, a); else film->splat_pixel(x, y, a); });
            else if (o.kind == 2) lib([&] { film->update_pixel(x, y, [&](Vec3 c) -> Vec3 { return c * Float(o.s) + a; }); });
            else if (o.kind == 3) lib([&] { if (viaraster) film->inc_ave(rp, o.idx, a); else film->inc_ave(x, y, o.idx, a); });
            else if (o.kind == 4) { auto r = read_film(film); o.e = seq(); for (int i = 0; i < w * h; i++) { Op p = o; p.px = i; p.a = r[i]; hist.push_back(p); } event(0xF4); return; }
            else if (o.kind == 5) { std::string f = scratch_file("s.pfm"); bool ok = lib([&] { return film->save(f); }); o.e = seq(); CHECK(ok, "save-failed", "saving the film while it is updated failed"); int ww, hh; std::vector<float> d; CHECK(parse_pfm(read_all(f), ww, hh, d) && ww == w && hh == h, "save-corrupt", "saved image cannot be decoded"); for (int i = 0; i < w * h; i++) { Op p = o; p.kind = 4; p.f32 = true; p.px = i; p.a = { d[3 * i], d[3 * i + 1], d[3 * i + 2] }; hist.push_back(p); } return; }
            else { lib([&] { film->accum(other); }); o.e = seq(); for (int i = 0; i < w * h; i++) { Op p = o; p.kind = 1; p.px = i; p.a = omodel[i]; hist.push_back(p); } return; }
            o.e = seq(); event(0xF0 + o.kind, o.px, o.th); hist.push_back(o);
        };
        for (auto& pl : plan) tids.push_back(spawn([&, pl] { for (auto& o : pl) exec(o); }));
        for (int t : tids) join(t);
        auto fin = read_film(film);
        if (conserve && !hot) probe("conservation_rounds");
        for (int p = 0; p < w * h; p++) {
            std::vector<Op> ops; for (auto& o : hist) if (o.px == p) ops.push_back(o);
            bool only_splat = true; for (auto& o : ops) if (o.kind != 1) only_splat = false;
            checked();
            if (only_splat) { V s = start[p]; for (auto& o : ops) { s.x += o.a.x; s.y += o.a.y; s.z += o.a.z; } auto close = [](double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max({ std::fabs(a), std::fabs(b), 64. }); };
                CHECK(close(s.x, fin[p].x) && close(s.y, fin[p].y) && close(s.z, fin[p].z), "splat-lost", "pixel %d: %zu splats sum to (%g,%g,%g) but the pixel holds (%g,%g,%g)", p, ops.size(), s.x, s.y, s.z, fin[p].x, fin[p].y, fin[p].z); }
            else if (ops.size() < 40) {
                Op f{}; f.kind = 4; f.px = p; f.a = fin[p]; f.b = f.e = ~0ull - 1; f.th = -1; ops.push_back(f);
                Lin l; l.ops = ops; bool ok = l.go(0, start[p]); if (l.work > 300000) probe("undecided"); else probe("linearised");
                if (!ok) violate("not-linearizable", fmtv("pixel %d starting at (%g,%g,%g): no order explains %s", p, start[p].x, start[p].y, start[p].z, show(ops).c_str()));
            }
            if (ops.size() > 2) nontrivial();
        }
        model = fin;
        // quiescent whole-film operations
        int nq = (int)W().below(4); if (vast && nq > 1) nq = 1;
        for (int k = 0; k < nq; k++) {
            int q = (int)W().below(8); if (q > 6) q = 4; static const double ss[] = { 2, .5, .25, 0, 4 }; double s = ss[W().below(5)]; double fill = (double)W().range(1, 9);
            if (!op_enabled(opn++)) continue;
            if (q == 0) { lib([&] { film->rescale(s); }); for (auto& m : model) { m.x *= s; m.y *= s; m.z *= s; } }
            else if (q == 1) { lib([&] { film->clear(); }); for (auto& m : model) m = V(); }
            else if (q == 2) { lib([&] { for (int i = 0; i < w * h; i++) other->set_pixel(i % w, i / w, Vec3(fill + i - 4, i * (s - .5), 3 - fill)); film->accum(other); }); for (int i = 0; i < w * h; i++) { omodel[i] = { fill + i - 4, i * (s - .5), 3 - fill }; model[i].x += omodel[i].x; model[i].y += omodel[i].y; model[i].z += omodel[i].z; } }
            else if (q == 3) { UserFilm uf; uf.set_pixel(0, 0, Vec3(5)); lib([&] { try { if (fill > 4) film->accum(odd); else film->accum(&uf); } catch (std::exception&) {} }); }
            else if (q == 5) { lib([&] { film->accum(film); }); for (auto& m : model) { m.x += m.x; m.y += m.y; m.z += m.z; } }
            else if (q == 6) {      // single values of every magnitude
                static const double sv[] = { 0, -0., 1e300, -1e300, 1e-300, 5e-324, .1, 1. / 3, 16777217, 4503599627370497., INFINITY, -INFINITY, -1 };
                for (int n = 0; n < 6; n++) { int i = (int)W().below(w * h); V v{ sv[W().below(13)], sv[W().below(13)], sv[W().below(13)] }; Vec3 lv(v.x, v.y, v.z); V want = v; V base{ 1, 2, 3 };
                    switch (W().below(3)) { case 0: lib([&] { film->set_pixel(i % w, i / w, lv); }); break; case 1: lib([&] { film->set_pixel(i % w, i / w, Vec3(1, 2, 3)); film->splat_pixel(i % w, i / w, lv); }); want = { base.x + v.x, base.y + v.y, base.z + v.z }; break; default: lib([&] { film->update_pixel(i % w, i / w, [&](Vec3) { return lv; }); }); }
                    auto now = read_film(film); CHECK(now[i].x == want.x && now[i].y == want.y && now[i].z == want.z, "wrong-value", "pixel %d holds (%g,%g,%g), expected (%g,%g,%g)", i, now[i].x, now[i].y, now[i].z, want.x, want.y, want.z); lib([&] { film->set_pixel(i % w, i / w, Vec3(1, 2, 3)); }); model[i] = base; if (vast) break; }
                probe("special_values");
            }
            else { auto sz = film->size(); CHECK(sz.w == w && sz.h == h && film->num_pixels() == w * h, "film-size", "film size changed to %dx%d", sz.w, sz.h); }
            auto now = read_film(film), oth = read_film(other);
            for (int i = 0; i < w * h; i++) { CHECK(now[i] == model[i], "whole-film-op", "after operation %d (factor %g) pixel %d of a %dx%d film holds (%g,%g,%g), expected (%g,%g,%g)", q, s, i, w, h, now[i].x, now[i].y, now[i].z, model[i].x, model[i].y, model[i].z); CHECK(oth[i] == omodel[i], "other-film-changed", "operation %d changed another film", q); }
            probe("whole_film_ops");
        }
    }
}

// ------------------------------------------------------------------------------------------------ P07
namespace {
bool eqv(double a, double b) { return a == b || (a != a && b != b); }
std::string verify_image(const std::string& path, int w, int h, const std::vector<V>& px) {
    bool ok; std::string s = read_all(path, &ok); if (!ok) return "file does not exist";
    std::string ext = path.substr(path.rfind('.')); std::vector<float> d((size_t)w * h * 3);
    if (ext == ".pfm") { int a, b; std::vector<float> f; if (!parse_pfm(s, a, b, f)) return fmtv("not a complete pfm file (%zu bytes)", s.size()); if (a != w || b != h) return fmtv("image is %dx%d", a, b); for (int i = 0; i < w * h; i++) if (!eqv(f[3 * i], px[i].x) || !eqv(f[3 * i + 1], px[i].y) || !eqv(f[3 * i + 2], px[i].z)) return fmtv("pixel %d is (%g,%g,%g), expected (%g,%g,%g)", i, f[3 * i], f[3 * i + 1], f[3 * i + 2], px[i].x, px[i].y, px[i].z); return ""; }
    int a, b, c; stbi_set_flip_vertically_on_load(0);
    if (ext == ".png") {
        if (s.size() < 20 || s.compare(s.size() - 8, 4, "IEND")) return fmtv("png file without end marker (%zu bytes)", s.size());
        unsigned char* q = stbi_load_from_memory((const unsigned char*)s.data(), (int)s.size(), &a, &b, &c, 3); if (!q) return fmtv("cannot be decoded: %s", stbi_failure_reason()); if (a != w || b != h) return fmtv("image is %dx%d", a, b);
        for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const V& p = px[y * w + x]; for (int k = 0; k < 3; k++) { float v = k == 0 ? p.x : k == 1 ? p.y : p.z; double ex = 256 * std::pow((double)v, 1 / 2.2); auto cl = [](double t) { return std::min(255, std::max(0, (int)std::min(t, 1e6))); }; int e = cl(ex), g = q[3 * ((h - 1 - y) * w + x) + k]; if (g < cl(ex - .01) || g > cl(ex + .01)) return fmtv("pixel (%d,%d) channel %d is %d, expected %d", x, y, k, g, e); } }
        stbi_image_free(q); return "";
    }
    if (s.compare(0, 10, "#?RADIANCE")) return "not a Radiance file";
    float* q = stbi_loadf_from_memory((const unsigned char*)s.data(), (int)s.size(), &a, &b, &c, 3); if (!q) return fmtv("cannot be decoded: %s", stbi_failure_reason()); if (a != w || b != h) return fmtv("image is %dx%d", a, b);
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { const V& p = px[y * w + x]; float m = std::max({ p.x, p.y, p.z }); for (int k = 0; k < 3; k++) { float v = k == 0 ? p.x : k == 1 ? p.y : p.z; float g = q[3 * ((h - 1 - y) * w + x) + k]; if (std::fabs(v - g) > m / 100 + 1e-5) return fmtv("pixel (%d,%d) channel %d is %g, expected %g", x, y, k, g, v); } }
    stbi_image_free(q);
    // stb fills missing data silently: require that no trailing part of the file is unused by checking that a shorter file decodes differently or not at all
    return "";
}
}
SCENARIO(P07, false) {
    randomize_sched(200);
    lib([] { lm::init(); lm::log::set_severity(1000); lm::parallel::init("openmp", { {"num_threads", 1} }); });
    int w = W().chance(.2) ? (int)W().range(8, 40) : (int)W().range(1, 9), h = (int)W().range(1, 12); if (W().chance(.1)) { w = (int)W().range(40, 90); h = (int)W().range(20, 60); } if (W().chance(.02)) { w = (int)W().range(150, 300); h = (int)W().range(100, 200); probe("large_images"); } if (W().chance(.02)) { if (W().chance(.5)) { w = (int)W().range(500, 5000); h = (int)W().range(1, 3); } else { h = (int)W().range(500, 5000); w = (int)W().range(1, 3); } probe("long_images"); }
    auto* film = lib([&] { return lm::load<lm::Film>("film", "film::bitmap", Json{ {"w", w}, {"h", h} }); });
    std::vector<V> px(w * h); double scale = W().chance(.3) ? 40 : 1; for (auto& p : px) { p.x = (float)(W().unit() * scale); p.y = (float)(W().unit() * scale); p.z = W().chance(.2) ? 0. : (float)(W().unit() * scale); }
    // values at the edge of the number range; only the floating-point format can hold them
    bool special = W().chance(.25); static const float sv[] = { INFINITY, -INFINITY, FLT_MAX, -FLT_MAX, 1e-42f, -1.5f, -0.f, NAN, 3e38f, 65504.f };
    if (special) { int k = (int)W().range(1, 4); for (int i = 0; i < k; i++) { auto& p = px[W().below(px.size())]; double v = sv[W().below(10)]; switch (W().below(4)) { case 0: p.x = v; break; case 1: p.y = v; break; case 2: p.z = v; break; default: p = { v, v, v }; } } probe("special_values"); }
    for (int i = 0; i < w * h; i++) film->set_pixel(i % w, i / w, Vec3(px[i].x, px[i].y, px[i].z));
    auto check_film = [&](const char* when) { auto b = film->buffer(); CHECK(b.w == w && b.h == h, "film-changed", "%s: film size changed", when); for (int i = 0; i < w * h; i++) CHECK(eqv(b.data[3 * i], px[i].x) && eqv(b.data[3 * i + 1], px[i].y) && eqv(b.data[3 * i + 2], px[i].z), "film-changed", "%s: pixel %d of the film changed", when, i); };
    int nops = (int)W().range(1, 4); static const char* exts[] = { ".pfm", ".png", ".hdr" };
    for (int o = 0; o < nops; o++) {
        std::string ext = exts[W().below(3)]; int dirs = (int)W().below(4); bool same = W().chance(.3); int fk = (int)W().below(8); u64 r = W().next();
        if (special) ext = ".pfm";
        if (!op_enabled(o)) continue;
        std::string path = scratch_file(""); for (int i = 0; i < dirs; i++) path += fmtv("d%d/", same ? 0 : o * 10 + i); path += fmtv("img%d%s", same ? 0 : o, ext.c_str());
        disable_all(); fs_capacity = ~0ull;
        bool blocked = false;
        switch ((r >> 40) % 12) {   // what is at the path before: something longer, a directory, or a file where a directory is needed
        case 0: { if (dirs) sfs::create_directories(sfs::path(path).parent_path()); std::ofstream g(path, std::ios::binary); g << std::string((size_t)w * h * 16 + 5000, 'x'); probe("over_longer_file"); break; }
        case 1: if (!sfs::exists(path)) { sfs::create_directories(path); blocked = true; } break;
        case 2: if (dirs && !same && !sfs::exists(sfs::path(path).parent_path())) { auto pp = sfs::path(path).parent_path(); if (dirs > 1) sfs::create_directories(pp.parent_path()); std::ofstream g(pp); g << "file"; blocked = true; } break;
        default: break; }
        fs_faults_on = true; fs_reset_stats(); fs_error_reset();
        static const double rates[] = { .05, .2, 1 }; double rt = rates[(r >> 3) % 3];
        switch (fk) { case 0: break; case 1: enable(F_OPEN_ERR, .5); break; case 2: enable(F_WRITE_ERR, rt, 1 + r % 3); break; case 3: fs_capacity = (r >> 8) % ((u64)w * h * 12 + 60); break; case 4: enable(F_CLOSE_ERR, .7); enable(F_RENAME_ERR, .5); enable(F_FSYNC_ERR, .5); break; case 5: enable(F_MKDIR_ERR, .5, 1 + r % 2); break; case 6: enable(F_WRITE_SHORT, .7); enable(F_WRITE_EINTR, .3); break; default: enable(F_OPEN_ERR, .05); enable(F_WRITE_ERR, .1); enable(F_CLOSE_ERR, .1); enable(F_MKDIR_ERR, .1); enable(F_WRITE_SHORT, .3); enable(F_WRITE_EINTR, .1); }
        describe(fmtv("save %dx%d %s dirs=%d fault=%d", w, h, ext.c_str(), dirs, fk));
        bool ok = false, threw = false; std::string what; phase("saving a film");
        try { ok = lib([&] { return film->save(path); }); } catch (std::exception& e) { threw = true; what = e.what(); }
        fs_faults_on = false; fs_capacity = ~0ull; std::string ferr = fs_error_text(); bool seen = fs_error_seen();
        CHECK(fs_open_count() == 0, "file-leak", "save left a file open: %s", fs_open_paths().c_str());
        if (ok) { std::string e = verify_image(path, w, h, px); CHECK(e.empty(), "success-but-incomplete", "save of a %dx%d film as %s reported success but the file is wrong: %s (injected: %s)", w, h, ext.c_str(), e.c_str(), ferr.c_str()); probe("saved"); if (seen) probe("saved_despite_error"); }
        else { CHECK(seen || blocked, "spurious-failure", "save failed on healthy storage (%s)", what.c_str()); probe("failed_saves"); nontrivial(); }
        check_film(ok ? "after a successful save" : "after a failed save");
        if (blocked) { CHECK(!ok, "success-but-incomplete", "saving to a path that cannot be written reported success"); probe("blocked_paths"); auto pp = sfs::path(path).parent_path(); if (dirs && sfs::is_regular_file(pp)) sfs::remove(pp); else sfs::remove(path); }
        if (!ok) { phase("saving again"); disable_all(); fs_error_reset(); ok = lib([&] { return film->save(path); }); CHECK(ok, "no-recovery", "saving again to healthy storage failed after %s", ferr.c_str()); std::string e = verify_image(path, w, h, px); CHECK(e.empty(), "no-recovery", "the image saved after a failure is wrong: %s", e.c_str()); }
        if (fk == 6) nontrivial();
    }
    // unknown extensions are refused
    { disable_all(); bool ok = true; try { ok = lib([&] { return film->save(scratch_file("x.xyz")); }); } catch (std::exception&) { ok = false; } CHECK(!ok, "bad-extension", "saving with an unsupported extension reported success"); }
}
