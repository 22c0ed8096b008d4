// P14: component registry and plug-ins
#include "scen.h"
#include <lm/lm.h>
#include <lm/material.h>
#include <lm/texture.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace sim; using lm::Json;
static int live_instances = 0;
extern "C" int sim_plugin_live(int d) { return live_instances += d; }
namespace {
struct User : lm::Component { int ver; User(int v) : ver(v) { live_instances++; } ~User() { live_instances--; } lm::Json underlying_value(const std::string&) const override { return fmtv("u%d", ver); } };
std::string exe_dir() { char b[4096]; const char* e = getenv("SIM_EXE_DIR"); if (e) return e; ssize_t n = readlink("/proc/self/exe", b, sizeof b); std::string s(b, n > 0 ? n : 0); return s.substr(0, s.rfind('/')); }
std::string slurp(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
void spit(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "wb"); if (!f) violate("harness", "cannot write " + p); fwrite(s.data(), 1, s.size(), f); fclose(f); }
}
SCENARIO(P14, false) {
    sched.strategy = 3; Rng& r = W(); lib([] { lm::log::init("default", Json::object()); lm::log::set_severity(1000); });
    // plug-in files: directory of the user
    std::string dir = scratch_file("plugins"), dir2 = scratch_file("more"); ::mkdir(dir.c_str(), 0755); ::mkdir(dir2.c_str(), 0755); ::mkdir((dir + "/folder.so").c_str(), 0755);
    std::map<std::string, char> file;      // path without extension -> plug-in letter, '!' broken
    bool links = r.chance(.3), digits = r.chance(.3); std::string dir3 = scratch_file("real"); ::mkdir(dir3.c_str(), 0755);
    for (char x : std::string("abc")) { std::string p = (x == 'c' ? dir2 : dir) + (digits ? "/p2_0" : "/plug_") + x, at = (links && x != 'a' ? dir3 + "/impl" + x : p) + ".so"; spit(at, slurp(exe_dir() + "/plug_" + x + ".so")); if (at != p + ".so") { if (::symlink(("../real/impl" + std::string(1, x) + ".so").c_str(), (p + ".so").c_str())) violate("harness", "symlink"); probe("linked_plugins"); } file[p] = x; }
    bool broken = r.chance(.6); if (broken) { std::string p = dir + (r.chance(.5) ? "/aaa" : "/zzz"); spit(p + ".so", r.chance(.5) ? "not a library" : std::string("\x7f") + "ELF" + std::string(500, 1)); file[p] = '!'; }
    spit(dir + "/readme.txt", "x"); std::string missing = dir + "/nothere"; file[missing] = '?';
    std::vector<std::string> paths; for (auto& f : file) paths.push_back(f.first);
    std::set<std::string> builtin; lib([&] { lm::comp::detail::foreach_registered([&](const std::string& k) { Quiet q; builtin.insert(k); }); });
    CHECK(builtin.count("film::bitmap") && builtin.count("material::diffuse") && builtin.count("scene::default"), "builtin-missing", "built-in components are not registered");
    std::set<std::string> loaded, unsure; std::map<std::string, int> regs; std::map<std::string, std::string> alias; std::set<std::string> foggy; int ver = 0; bool dirty = false;
    auto verify = [&](const char* when) {
        std::map<std::string, std::string> expect;       // key -> marker
        std::set<char> on, skip; for (auto& p : loaded) on.insert(file[p]); for (auto& p : unsure) skip.insert(file[p]);
        for (char x : on) { expect[fmtv("simplug::%c1", x)] = fmtv("%c1", x); expect[fmtv("simplug::%c2", x)] = fmtv("%c2", x); }
        for (auto& g : regs) expect[g.first] = fmtv("u%d", g.second);
        std::set<std::string> have; lib([&] { lm::comp::detail::foreach_registered([&](const std::string& k) { Quiet q; CHECK(have.insert(k).second, "enumerated-twice", "%s: %s enumerated twice", when, k.c_str()); }); });
        auto skipk = [&](const std::string& k) { return foggy.count(k) || (k.size() == 11 && k.compare(0, 9, "simplug::") == 0 && skip.count(k[9])); };
        for (auto& k : builtin) CHECK(have.count(k), "builtin-lost", "%s: built-in %s is gone", when, k.c_str());
        for (auto& e : expect) if (!skipk(e.first)) CHECK(have.count(e.first), "not-enumerated", "%s: %s is not enumerated", when, e.first.c_str());
        for (auto& k : have) if (!builtin.count(k) && !skipk(k)) CHECK(expect.count(k), "stale-registration", "%s: %s is still enumerated", when, k.c_str());
        std::vector<std::string> keys{ "simplug::a1", "simplug::a2", "simplug::b1", "simplug::b2", "simplug::c1", "simplug::c2", "simuser::x", "simuser::y", "simuser::z" }; std::map<std::string, std::string> al = alias; for (char x : std::string("abc")) al[fmtv("simalias_%c", x)] = fmtv("simplug::%c2", x);
        auto try_create = [&](const std::string& name, const std::string& key) {
            if (skipk(key)) return; int before = live_instances; auto it = expect.find(key);
            lib([&] { auto p = lm::comp::create<lm::Component>(name, "", {}); Quiet q; CHECK(bool(p) == (it != expect.end()), it != expect.end() ? "cannot-create" : "created-unregistered", "%s: creating %s (%s) gives %s", when, name.c_str(), key.c_str(), p ? "an instance" : "nothing");
                if (p) { std::string m = p->underlying_value("").get<std::string>(); CHECK(m == it->second, "wrong-component", "%s: creating %s gives %s, expected %s", when, name.c_str(), m.c_str(), it->second.c_str()); CHECK(p->key() == key, "wrong-component", "%s: instance of %s has key %s", when, name.c_str(), p->key().c_str()); CHECK(live_instances == before + 1, "instance-count", "%s: %d instances made for %s", when, live_instances - before, name.c_str()); } });
            CHECK(live_instances == before, "instance-count", "%s: the instance of %s was not released exactly once (%d alive, %d before)", when, name.c_str(), live_instances, before);
            if (it != expect.end()) { lib([&] { auto p = lm::comp::create<lm::Texture>(name, "", {}); Quiet q; CHECK(!p, "wrong-component", "%s: %s was created as a texture", when, name.c_str()); }); CHECK(live_instances == before, "instance-leak", "%s: an instance of %s requested through another interface was not released", when, name.c_str()); }
        };
        for (auto& k : keys) try_create(k, k);
        for (char x : std::string("xyz")) { std::string a = fmtv("simalias_%c", x); if (!al.count(a)) lib([&] { auto p = lm::comp::create<lm::Component>(a, "", {}); Quiet q; CHECK(!p, "stale-alias", "%s: %s is no longer an alias but creates a %s", when, a.c_str(), p ? p->key().c_str() : ""); }); }
        for (auto& a : al) try_create(a.first, a.second);
        lib([&] { auto p = lm::comp::create<lm::Component>("simuser::never", "", {}); Quiet q; CHECK(!p, "created-unknown", "an unknown key was created"); auto m = lm::comp::create<lm::Material>("material::mirror", "", Json::object()); CHECK(bool(m), "builtin-lost", "%s: material::mirror cannot be created", when); });
    };
    auto attempt = [&](std::function<void()> f) { bool ok = true; dl_faults_on = true; try { lib([&] { f(); }); } catch (std::exception&) { ok = false; } dl_faults_on = false; return ok; };
    auto fired = [&](Fault f) { return shm->r.faults[f]; };
    int n = (int)r.range(2, 14); bool flt = r.chance(.6); double po = r.chance(.5) ? .3 : .7, pc = r.chance(.5) ? .3 : .7;
    for (int i = 0; i < n; i++) {
        int op = (int)r.below(13); if (op >= 10) op = op == 10 ? 7 : op == 11 ? 8 : 9; std::string p = r.pick(paths); std::string k = std::vector<std::string>{ "simuser::x", "simuser::y", "simuser::z" }[r.below(3)]; bool useal = r.chance(.5), second = r.chance(.5); std::string p2 = r.pick(paths); u64 z = r.next(); if ((op == 3 || op == 4) && z % 8 < 5 && !loaded.empty()) { auto it = loaded.begin(); std::advance(it, (z >> 8) % loaded.size()); p = *it; }
        if (!op_enabled(i)) continue; disable_all(); if (flt) { enable(F_DLOPEN_ERR, po); enable(F_DLCLOSE_ERR, pc); }
        u64 fo = fired(F_DLOPEN_ERR), fc = fired(F_DLCLOSE_ERR); std::string when; phase(fmtv("plugin operation %d", op));
        if (op <= 2) {      // load
            when = fmtv("after loading %s", p.substr(p.rfind('/') + 1).c_str()); describe(when); bool was = loaded.count(p), ok = attempt([&] { lm::comp::load_plugin(p); }); bool inj = fired(F_DLOPEN_ERR) != fo, good = file[p] != '!' && file[p] != '?';
            if (was) { CHECK(ok, "reload-refused", "loading a loaded plug-in again failed"); CHECK(fired(F_DLOPEN_ERR) == fo, "loaded-twice", "a loaded plug-in was opened again"); }
            else { CHECK(ok == (good && !inj), ok ? "failure-not-reported" : "load-refused", "loading %s: %s (loader %s)", p.c_str(), ok ? "succeeded" : "failed", inj || !good ? "failed" : "worked"); if (ok) { loaded.insert(p); } else { nontrivial(); probe("failed_loads"); } }
        } else if (op <= 4) {      // unload
            when = fmtv("after unloading %s", p.substr(p.rfind('/') + 1).c_str()); describe(when); bool was = loaded.count(p), ok = attempt([&] { lm::comp::unload_plugin(p); }); bool inj = fired(F_DLCLOSE_ERR) != fc;
            if (unsure.count(p)) { if (ok) loaded.erase(p); }
            else { CHECK(ok == (was && !inj), ok ? "failure-not-reported" : "unload-refused", "unloading %s (%s): %s", p.c_str(), was ? "loaded" : "not loaded", ok ? "succeeded" : "failed"); if (ok) { loaded.erase(p); probe("unloads"); } else if (was) { nontrivial(); probe("failed_unloads"); } }
        } else if (op == 5) {      // directory
            std::string d = second ? dir : z & 1 ? dir2 : scratch_file("absent"); when = "after loading a directory"; describe(when + " " + d.substr(d.rfind('/') + 1)); 
            // which of the files of the directory the loader refuses is known only afterwards: record each attempt
            std::vector<std::string> cand; for (auto& f : file) if (f.first.compare(0, d.size() + 1, d + "/") == 0 && f.second != '?' && !loaded.count(f.first)) cand.push_back(f.first);
            bool ok = attempt([&] { lm::comp::load_plugin_directory(z & 2 ? d : d + "/"); }); u64 inj = fired(F_DLOPEN_ERR) - fo; CHECK(ok, "directory-failed", "loading a directory failed as a whole"); probe("directories"); if (inj) nontrivial();
            std::set<std::string> have; lib([&] { lm::comp::detail::foreach_registered([&](const std::string& k) { Quiet q; have.insert(k); }); });
            u64 got = 0, good = 0; for (auto& c : cand) { if (file[c] == '!' || unsure.count(c)) continue; good++; if (have.count(fmtv("simplug::%c1", file[c]))) { got++; loaded.insert(c); } }
            CHECK(good - got <= inj, "plugin-skipped", "%llu of %llu loadable plug-ins of a directory were loaded, the loader refused %llu", (unsigned long long)got, (unsigned long long)good, (unsigned long long)inj);
        } else if (op == 6) {      // everything
            when = "after unloading everything"; describe(when); attempt([&] { lm::comp::detail::unload_all_plugins(); }); u64 inj = fired(F_DLCLOSE_ERR) - fc; probe("unload_all");
            if (inj) { for (auto& l : loaded) unsure.insert(l); } loaded.clear();
        } else if (op == 7) {      // registration
            when = "after registering " + k; describe(when); int v = ++ver; std::string a = useal && !foggy.count(k) ? "simalias_" + k.substr(k.size() - 1) : ""; bool had = regs.count(k); dirty |= had;
            attempt([&] { lm::comp::detail::reg(k, a, [v]() -> lm::Component* { Quiet q; return new User(v); }, [](lm::Component* c) { Quiet q; delete c; }); }); regs[k] = v; if (!a.empty()) alias[a] = k; if (had) probe("overrides");
        } else if (op == 8) {      // unregistration
            when = "after unregistering " + k; describe(when); std::string a = "simalias_" + k.substr(k.size() - 1); bool ha = alias.count(a); attempt([&] { lm::comp::detail::unreg(k, ha ? a : ""); }); regs.erase(k); if (ha) alias.erase(a); probe("unregistrations");
        } else {      // scope
            when = "after a plug-in scope"; describe(when); bool l1 = loaded.count(p), l2 = loaded.count(p2); bool g1 = file[p] != '!' && file[p] != '?', g2 = file[p2] != '!' && file[p2] != '?'; if (l1 || l2 || p == p2 || unsure.count(p) || unsure.count(p2)) continue;
            bool entered = false; bool ok = attempt([&] { lm::comp::detail::ScopedLoadPlugin sc{ p, p2 }; Quiet q; entered = true; loaded.insert(p); loaded.insert(p2); dl_faults_on = false; verify("inside a plug-in scope"); dl_faults_on = true; }); loaded.erase(p); loaded.erase(p2);
            bool inj = fired(F_DLOPEN_ERR) != fo; CHECK(ok == entered && entered == (g1 && g2 && !inj), "scope", "plug-in scope %s although the loader %s", entered ? "entered" : "not entered", inj || !g1 || !g2 ? "failed" : "worked"); if (fired(F_DLCLOSE_ERR) != fc) { if (g1) unsure.insert(p); if (g2) unsure.insert(p2); for (auto& x : { p, p2 }) { std::string key = fmtv("simplug::%c1", file[x]); (void)key; } }
            probe("scopes");
        }
        disable_all(); verify(when.c_str());
    }
    if (loaded.size() > 1) nontrivial();
    disable_all(); phase("final unload"); lib([] { lm::comp::detail::unload_all_plugins(); }); loaded.clear(); verify("at the end");
}
