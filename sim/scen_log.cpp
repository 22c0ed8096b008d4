// P12: the logger
#include "scen.h"
#include <lm/lm.h>
#include <lm/logger.h>
#include <lm/parallel.h>
using namespace sim; using lm::Json; using lm::log::LogLevel;
namespace {
struct Msg { int th, no; int level; int sev; std::string file; int line; std::vector<std::string> lines; u64 b, e; bool prog, end; };
struct SevCh { int v; u64 b, e; };
struct Scope { u64 ib, ie, ob, oe; };        // interval of the increment and of the decrement
std::string strip(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') { while (i < s.size() && s[i] != 'm') i++; continue; } o += s[i]; } return o; }
void rtrim(std::string& s) { while (!s.empty() && s.back() == ' ') s.pop_back(); }
struct Line { char tag; std::string pos; int depth; std::string body; bool cr; std::string raw; };
std::string stem(const std::string& f) { std::string b = f.substr(f.rfind('/') == std::string::npos ? 0 : f.rfind('/') + 1); size_t d = b.rfind('.'); return d == std::string::npos || d == 0 ? b : b.substr(0, d); }
}
SCENARIO(P12, false) {
    randomize_sched(300); Rng& r = W(); if (r.chance(.3)) enable(F_STALL, .05);
    bool color = r.chance(.5), pos = r.chance(.7); Json p = Json::object(); if (r.chance(.7)) { p["color"] = color; p["show_line_and_filename"] = pos; } else pos = true;
    capture_stdout();
    lib([&] { lm::log::init("default", p); });
    int nt = (int)r.range(1, 4), base_indent = (int)r.below(3); if (r.chance(.04)) nt = (int)r.range(5, 7); if (r.chance(.05)) base_indent = (int)r.range(3, 20); bool scopes = r.chance(.5), sevs = r.chance(.5), viapar = r.chance(.25); if (viapar) lib([&] { lm::parallel::init("openmp", { {"num_threads", nt} }); });
    std::vector<Msg> msgs; std::vector<SevCh> sc; std::vector<Scope> ss; u32 opn = 0;
    static const char* files[] = { "/a/b/renderer.cpp", "x.h", "src/very_long_file_name.cpp", "main", "/q/a.b.cpp" }; static const int levels[] = { -10, 10, 20, 30, 100, 101 }; const int PROG = (int)LogLevel::Progress, PEND = (int)LogLevel::ProgressEnd; bool progs = r.chance(.3);
    for (int i = 0; i < base_indent; i++) { u64 b = seq(); lib([] { lm::log::update_indentation(1); }); ss.push_back({ b, seq(), ~0ull, ~0ull }); }
    int sev0 = W().chance(.3) ? (int)W().range(-20, 40) : 0; if (sev0) { u64 b = seq(); lib([&] { lm::log::set_severity(sev0); }); sc.push_back({ sev0, b, seq() }); } else sc.push_back({ 0, 0, 0 });
    bool blank = false;      // at most one message starts with an empty line, so that lines identify their message
    struct Step { int kind; Msg m; int sev; bool en; bool thr; };   // 0 message, 1 open scope, 2 close scope, 3 severity
    std::vector<std::vector<Step>> plan(nt);
    for (int t = 0; t < nt; t++) {
        int n = (int)r.range(1, 7), open = 0;
        for (int k = 0; k < n; k++) {
            Step s{}; int z = (int)r.below(10); s.kind = scopes && z == 0 ? 1 : scopes && z == 1 && open ? 2 : sevs && z == 2 ? 3 : 0; s.sev = std::vector<int>{ -30, 0, 10, 15, 30, 50 }[r.below(6)]; s.thr = r.chance(.5);
            auto& m = s.m; m.th = t; m.no = k; int li = (int)r.below(r.chance(progs ? .7 : .2) ? 6 : 4); m.level = li == 4 ? PROG : li == 5 ? PEND : levels[li]; m.prog = li >= 4; m.end = li == 5; m.sev = r.chance(.75) ? m.level : (int)r.range(-40, 60); m.file = files[r.below(5)]; m.line = (int)r.pick(std::vector<int>{ 1, 42, 1234, 123456 }); int nl = m.prog ? 1 : r.chance(.3) ? (int)r.range(2, 4) : 1;
            for (int l = 0; l < nl; l++) { std::string tok = fmtv("T%dM%dL%d", t, k, l); if (!(nl > 2 && l == 1 && r.chance(.5))) { if (r.chance(m.prog ? .7 : .3)) tok += std::string(r.chance(.03) ? r.range(200, 5000) : r.below(60), 'x'); if (r.chance(.2)) tok += " {} %s [a|b] "; } else tok = ""; m.lines.push_back(tok); }
            if (!m.prog && r.chance(.15)) { if (!blank && r.chance(.6)) { blank = true; m.lines[0] = ""; if (r.chance(.6)) m.lines.resize(1); } else m.lines.assign(1, std::string(1, (char)('a' + t * 7 + k < 'z' + 1 ? 'a' + t * 7 + k : 'A' + t * 7 + k - 26))); }
            s.en = op_enabled(opn++);
            if (s.kind == 1) open++; if (s.kind == 2) open--; plan[t].push_back(s);
        }
        while (open-- > 0) { Step s{}; s.kind = 2; s.en = true; plan[t].push_back(s); }
    }
    auto run = [&](int t) {
        std::vector<size_t> stack;
        for (auto& s : plan[t]) {
            if (s.kind == 0) {
                if (!s.en) continue; Msg m = s.m; std::string text; for (size_t l = 0; l < m.lines.size(); l++) text += (l ? "\n" : "") + m.lines[l]; if (m.no % 3 == 1 && !m.prog) text += "\n";
                m.b = seq(); bool asfmt = m.no % 2 && text.size() > 3 && text.find('{') == std::string::npos;
                lib([&] { if (asfmt) lm::log::log((LogLevel)m.level, m.sev, m.file.c_str(), m.line, std::string("{}{}"), text.substr(0, 3), text.substr(3)); else lm::log::log((LogLevel)m.level, m.sev, m.file.c_str(), m.line, text.c_str()); });
                m.e = seq(); Quiet q; if (nt == 1) CHECK(unflushed_output() == 0, "not-flushed", "a message was accepted but %llu bytes of it are still in a buffer when the call returns", (unsigned long long)unflushed_output()); msgs.push_back(m);
            } else if (s.kind == 1) { u64 b = seq(); lib([] { lm::log::update_indentation(1); }); stack.push_back(ss.size()); ss.push_back({ b, seq(), ~0ull, ~0ull }); }
            else if (s.kind == 2) { size_t i = stack.back(); stack.pop_back(); ss[i].ob = seq(); lib([] { lm::log::update_indentation(-1); }); ss[i].oe = seq(); }
            else if (s.en) { u64 b = seq(); lib([&] { lm::log::set_severity(s.sev); }); sc.push_back({ s.sev, b, seq() }); }
            if (s.kind == 0 && s.thr && scopes) {      // a scope left by an exception
                u64 b = seq(); size_t i = ss.size(); ss.push_back({ b, ~0ull, ~0ull, ~0ull });
                try { Lib l; LM_INDENT(); ss[i].ie = seq(); ss[i].ob = seq(); throw std::runtime_error("x"); } catch (std::exception&) {} ss[i].oe = seq();
            }
        }
    };
    if (viapar) lib([&] { lm::parallel::foreach(nt, [&](long long i, int) { Quiet q; run((int)i); }); });
    else { std::vector<int> tids; for (int t = 1; t < nt; t++) tids.push_back(spawn([&, t] { run(t); })); run(0); for (int t : tids) join(t); }
    // closing message: the depth is back to the base
    if (sc.size() > 1 || sev0) { u64 b = seq(); lib([] { lm::log::set_severity(0); }); sc.push_back({ 0, b, seq() }); }
    { Msg m{}; m.th = nt; m.no = 0; m.level = 30; m.sev = 30; m.file = "end.cpp"; m.line = 7; m.lines = { "TEND" }; m.b = seq(); lib([&] { lm::log::log(LogLevel::Err, 30, "end.cpp", 7, "TEND"); }); m.e = seq(); msgs.push_back(m); }
    std::string out = captured(); release_stdout(); for (char c : out) event(c);
    // parse
    std::vector<Line> lines; size_t at = 0; std::string cur;
    while (at < out.size()) {
        size_t e = out.find_first_of("\n\r", at); CHECK(e != std::string::npos, "unterminated", "output ends in the middle of a line: '%s'", out.substr(at, 200).c_str());
        std::string l = strip(out.substr(at, e - at)); Line x{}; x.cr = out[e] == '\r'; at = e + 1; x.raw = l;
        size_t rb = l.find("] "); bool ok = l.size() > 4 && l[0] == '[' && l[2] == '|' && rb != std::string::npos; CHECK(ok, "malformed-line", "log line is not well-formed: '%s'", l.substr(0, 200).c_str());
        x.tag = l[1]; std::string h = l.substr(3, rb - 3); size_t bar = h.find('|'); if (bar != std::string::npos) x.pos = h.substr(bar + 1); std::string rest = l.substr(rb + 2); int dots = 0; while (dots < (int)rest.size() && rest[dots] == '.') dots++;
        if (dots) { CHECK(dots % 2 == 0 && dots < (int)rest.size() && rest[dots] == ' ', "malformed-indent", "indentation of '%s'", l.substr(0, 200).c_str()); rest = rest.substr(dots + 1); } x.depth = dots / 2; x.body = rest; rtrim(x.body); lines.push_back(x);
    }
    auto must = [&](const Msg& m, bool& can) {     // surely passes / can pass the threshold
        // the thresholds that may be in force during the call: the last one set before it, and any set concurrently
        bool all = true; can = false;
        for (auto& s : sc) { if (s.b > m.e) continue; bool superseded = false; for (auto& z : sc) if (&z != &s && z.b > s.e && z.e < m.b) superseded = true; if (superseded) continue; if (m.sev >= s.v) can = true; else all = false; }
        return all;
    };
    auto depth_range = [&](u64 b, u64 e, int& lo, int& hi) { lo = hi = 0; for (auto& s : ss) { if (s.ie < b && s.ob > e) lo++; if (s.ib < e && s.oe > b) hi++; } };
    // every line belongs to a message, messages are contiguous
    std::string row; size_t longest = 0; std::vector<int> seen(msgs.size(), 0); std::map<int, std::vector<int>> order;
    for (size_t i = 0; i < lines.size();) {
        int found = -1; for (size_t k = 0; k < msgs.size(); k++) { std::string want = msgs[k].lines[0]; rtrim(want); if (lines[i].body == want) { found = (int)k; break; } }
        CHECK(found >= 0, "foreign-line", "a line is not the start of any message (torn or interleaved message?): '%s'", lines[i].body.c_str()); auto& m = msgs[found];
        CHECK(++seen[found] == 1, "duplicate-message", "message '%s' written twice", m.lines[0].c_str()); order[m.th].push_back(m.no);
        int lo, hi; depth_range(m.b, m.e, lo, hi); int d0 = lines[i].depth;
        for (size_t l = 0; l < m.lines.size(); l++) {
            CHECK(i + l < lines.size(), "truncated-message", "message '%s' is cut after %zu of %zu lines", m.lines[0].c_str(), l, m.lines.size()); auto& x = lines[i + l]; std::string want = m.lines[l]; rtrim(want);
            CHECK(x.body == want, "interleaved-message", "line %zu of message '%s' is '%s'", l, m.lines[0].c_str(), x.body.c_str());
            char tag = m.level < 10 ? 'D' : m.level == 10 ? 'I' : m.level == 20 ? 'W' : m.level == 30 ? 'E' : 'I'; CHECK(x.tag == tag, "wrong-tag", "message '%s' of level %d carries tag %c", m.lines[0].c_str(), m.level, x.tag);
            CHECK(x.cr == (m.prog && !m.end), "wrong-end", "message '%s' of level %d ends with %s", m.lines[0].c_str(), m.level, x.cr ? "\\r" : "\\n");
            if (pos) { std::string w = fmtv("%d@%s", m.line, stem(m.file).c_str()).substr(0, 10); std::string g = x.pos; while (!g.empty() && g.back() == ' ') g.pop_back(); CHECK(g == w, "wrong-position", "message '%s' carries position '%s', expected '%s'", m.lines[0].c_str(), g.c_str(), w.c_str()); }
            CHECK(x.depth >= lo && x.depth <= hi, "wrong-indent", "message '%s' line %zu has indentation %d, expected %d..%d", m.lines[0].c_str(), l, x.depth, lo, hi); CHECK(x.depth == d0, "wrong-indent", "lines of message '%s' have different indentation", m.lines[0].c_str());
        }
        // a progress report replaces the one shown before it on the same row of the terminal
        for (size_t l = 0; l < m.lines.size(); l++) {
            std::string t = lines[i + l].raw; if (!m.prog) { row.clear(); continue; }
            std::string shown = t; if (row.size() > shown.size()) shown += row.substr(shown.size());
            std::string a = shown, b = t; rtrim(a); rtrim(b); CHECK(a == b, "progress-remnants", "after progress message '%s' the row reads '%s'", b.c_str(), a.c_str());
            rtrim(b); longest = std::max(longest, b.size()); CHECK(t.size() <= longest + 2, "progress-padding", "progress message '%s' is written as %zu characters, the longest of this report has %zu", b.c_str(), t.size(), longest);
            probe("progress_messages"); if (!lines[i + l].cr) { row.clear(); longest = 0; probe("progress_ends"); } else row = shown;
        }
        i += m.lines.size();
    }
    for (auto& o : order) for (size_t i = 1; i < o.second.size(); i++) CHECK(o.second[i] > o.second[i - 1], "out-of-order", "messages of thread %d are out of order", o.first);
    for (size_t k = 0; k < msgs.size(); k++) { bool can, all = must(msgs[k], can); if (all) CHECK(seen[k], "message-lost", "message '%s' (severity %d) was not written", msgs[k].lines[0].c_str(), msgs[k].sev); if (!can) CHECK(!seen[k], "message-not-filtered", "message '%s' (severity %d) is below the threshold but was written", msgs[k].lines[0].c_str(), msgs[k].sev); if (seen[k]) probe("messages"); else probe("filtered"); }
    describe(fmtv("%d threads, %zu messages, %zu scopes, %zu thresholds%s", nt, msgs.size(), ss.size(), sc.size(), viapar ? ", parallel loop" : "")); if (nt > 1 && msgs.size() > 3) nontrivial();
}
