// Seeded scenes made of every built-in component, and behavioural fingerprints of components.
#pragma once
#include "scen.h"
#include <lm/lm.h>
namespace sim {
using lm::Json; using lm::Vec2; using lm::Vec3; using lm::Vec4; using lm::Mat4; using lm::Float;

struct Def { std::string name, key; Json prop; };                    // an asset: name, component key, parameters
struct SOp { int kind; int parent; Json prop; Mat4 M; std::string model; };   // scene edit: 0 primitive, 1 group, 2 instance group, 3 model
struct World {
    std::vector<Def> defs; std::vector<SOp> sops;
    std::string scene, film; std::vector<std::string> renderers;
    const Def* find(const std::string& n) const { for (auto& d : defs) if (d.name == n) return &d; return nullptr; }
};
struct WorldCfg { bool media = true, models = true, files = true, envs = true, big = false; int renderers = 1; std::string sched = "sample"; bool extras = true; };
World gen_world(const WorldCfg& c);
std::string aref(const std::string& n);                                // "$.assets.<n>"
void load_defs(const World& w);                                       // in library context: loads all assets
void build_scene(const World& w, bool build = true);
Json gen_renderer(const World& w, const std::string& kind, const std::string& sched);

struct FP {
    std::vector<std::string> n; std::vector<double> v;
    void add(const std::string& k, double x) { n.push_back(k); v.push_back(x); }
    void add(const std::string& k, const Vec3& x) { add(k + ".x", x.x); add(k + ".y", x.y); add(k + ".z", x.z); }
    void add(const std::string& k, const std::string& s);
    std::string write() const; void read(const std::string& s);
};
std::string fp_diff(const FP& a, const FP& b, double rel = 0);        // empty if equal
void fingerprint(FP& f, lm::Component* c, bool refs = true);          // behaviour of one component
void fingerprint_tree(FP& f, lm::Component* c, int depth = 0);        // owned tree below c: names, locators, types, behaviour
void fp_film(FP& f, lm::Film* film);
Json mesh_json(Rng& r, int tris, const Vec3& off, bool attrs, double size = 1);
std::string write_text(const std::string& name, const std::string& s);
std::string read_all(const std::string& path, bool* ok = nullptr);
std::string make_ppm(Rng& r, int w, int h, int chans);                // chans 1: pgm, 3: ppm, 4: tga with alpha
// the invariant of P10: every reference reachable from the root points to the live owner of its locator
void check_refs(const char* what);
}
