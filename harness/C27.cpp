// several subsystems, any pattern and timing of resynchronisation requests; what is read back at start
#include "fix.hpp"
static const std::vector<std::string> SUBS = {"test", "s1", "s2", "s3"}, SYN = {"p", "q", "k/x", "k/y", "m"}, LEAF = {"p", "q", "k/x", "k/y", "m/u", "m/v"}, ELEM = {"p", "q", "k", "k/x", "k/y", "m", "m/u", "m/v"};
static bool in(const std::string &a, const std::string &b) { return a == b || (a.size() > b.size() && a.compare(0, b.size() + 1, b + "/") == 0); }
static std::string ip(const std::string &n, const std::string &m, int min) { return "<IntegerParameter Signed=\"false\" Size=\"8\" Name=\"" + n + "\" Min=\"" + std::to_string(min) + "\"" + (m.empty() ? "" : " Mapping=\"Obj\"") + "/>"; }
static int def(const std::string &l) { return l == "p" ? 3 : l == "q" ? 0 : l == "k/x" ? 5 : l == "k/y" ? 6 : l == "m/u" ? 7 : 8; }
static std::string inst(bool mapped) { std::string M = mapped ? "x" : ""; return ip("p", M, def("p")) + ip("q", M, def("q")) + "<ParameterBlock Name=\"k\">" + ip("x", M, def("k/x")) + ip("y", M, def("k/y")) + "</ParameterBlock><ParameterBlock Name=\"m\"" + (mapped ? " Mapping=\"Obj\"" : "") + ">" + ip("u", "", def("m/u")) + ip("v", "", def("m/v")) + "</ParameterBlock>"; }
struct Dom { std::string name; bool seq; std::vector<std::string> elems; int mode; int last = -1; };   // mode: 0 no default configuration, 1 with one
static std::string full(const std::string &s, const std::string &l) { return "/test/" + s + "/" + l; }
static std::string xmlOf(const std::string &e, int base) { size_t c = e.find('/', 6), d; std::string rel = e.substr(c + 1), last = e.substr(e.rfind('/') + 1); (void)d; auto leaf = [&](const std::string &n, int v) { return "<IntegerParameter Name=\"" + n + "\">" + std::to_string(v) + "</IntegerParameter>"; };
    if (rel == "k" || rel == "m") return "<ConfigurableElement Path=\"" + e + "\"><ParameterBlock Name=\"" + rel + "\">" + leaf(rel == "k" ? "x" : "u", base) + leaf(rel == "k" ? "y" : "v", base + 1) + "</ParameterBlock></ConfigurableElement>";
    return "<ConfigurableElement Path=\"" + e + "\">" + leaf(last, base + (last == "y" || last == "v")) + "</ConfigurableElement>"; }
struct World {
    std::vector<std::string> subs = SUBS, leafs, syncers; std::vector<Dom> doms; std::map<std::string, int> cur; std::unique_ptr<FW> f; int crit = 0; bool tuning = false; std::string trace;
    bool covered(const std::string &l, bool applicable) const { for (auto &d : doms) if (!applicable || conf(d) >= 0) for (auto &e : d.elems) if (in(l, e)) return true; return false; }
    int conf(const Dom &d) const { return crit == 1 ? 0 : crit == 2 ? 1 : d.mode ? 2 : -1; }
    std::set<std::string> syn(const std::string &e) const { std::set<std::string> r; for (auto &s : syncers) if (in(e, s)) return {s}; for (auto &s : syncers) if (in(s, e)) r.insert(s); return r; }
    int value(const Dom &d, const std::string &e, const std::string &l) const { int i = 0; for (auto &x : d.elems) { if (x == e) break; i++; } std::string n = l.substr(l.rfind('/') + 1); return 20 + 60 * conf(d) + 6 * i + (n == "y" || n == "v"); }
    void note(const std::string &s) { trace += s + "; "; if (trace.size() > 2500) trace = "..." + trace.substr(trace.size() - 2300); INPUT(trace); }
    std::string xml() { std::string r; for (auto &d : doms) { r += "<ConfigurableDomain Name='" + d.name + "' SequenceAware='" + (d.seq ? "true" : "false") + "'><Configurations>"; for (int c = 0; c < 2 + d.mode; c++) { r += "<Configuration Name='c" + std::to_string(c) + "'><CompoundRule Type='All'>"; if (c < 2) r += std::string("<SelectionCriterionRule SelectionCriterion='c' MatchesWhen='Is' Value='") + (c ? "two" : "one") + "'/>"; r += "</CompoundRule></Configuration>"; }
        r += "</Configurations><ConfigurableElements>"; for (auto &e : d.elems) r += "<ConfigurableElement Path='" + e + "'/>"; r += "</ConfigurableElements><Settings>"; for (int c = 0; c < 2 + d.mode; c++) { r += "<Configuration Name='c" + std::to_string(c) + "'>"; int i = 0; for (auto &e : d.elems) r += xmlOf(e, 20 + 60 * c + 6 * i++); r += "</Configuration>"; } r += "</Settings></ConfigurableDomain>"; } return r; }
    World(bool back) {
        for (auto &s : SUBS) { for (auto &l : LEAF) leafs.push_back(full(s, l)); for (auto &l : SYN) syncers.push_back(full(s, l)); }
        for (auto &l : LEAF) leafs.push_back(full("virt", l));
        int nd = h::rnd(4); for (int i = 0; i < nd; i++) { Dom d; d.name = "D" + std::to_string(i); d.seq = h::rnd(2); d.mode = h::rnd(2); for (int k = 1 + h::rnd(4); k--;) { auto e = full(h::rnd(6) ? SUBS[h::rnd(4)] : "virt", ELEM[h::rnd(ELEM.size())]); bool ok = true; for (auto &x : doms) for (auto &y : x.elems) if (in(e, y) || in(y, e)) ok = false; for (auto &y : d.elems) if (in(e, y) || in(y, e)) ok = false; if (ok) d.elems.push_back(e); } if (!d.elems.empty()) doms.push_back(d); }
        FWOpt o; o.start = false; o.instances = inst(true); for (size_t i = 1; i < SUBS.size(); i++) o.extraSubsystems += "<Subsystem Name='" + SUBS[i] + "' Type='H'><ComponentLibrary/><InstanceDefinition>" + inst(true) + "</InstanceDefinition></Subsystem>"; o.extraSubsystems += "<Subsystem Name='virt' Type='Virtual'><ComponentLibrary/><InstanceDefinition>" + inst(false) + "</InstanceDefinition></Subsystem>"; o.domains = xml();
        crit = h::rnd(3); hw = HW(); f.reset(new FW(o, {{"c", false, {{"zero", 0}, {"one", 1}, {"two", 2}}}})); f->setCrit("c", crit); std::string pend; for (auto &s : SUBS) if (h::rnd(2)) { hw.resync[s] = true; pend += s + " "; }
        if (back) for (auto &s : syncers) { if (h::rnd(4) == 0) hw.failing.insert(s); else { std::vector<uint8_t> b; for (auto &l : leafs) if (in(l, s)) b.push_back(100 + h::rnd(100)); hw.back[s] = b; } } else hw.alive = false;
        std::string dt; for (auto &d : doms) { dt += d.name + (d.seq ? "(sequence aware)" : "") + ":"; for (auto &e : d.elems) dt += " " + e; dt += ", "; } note("domains " + dt + "criterion " + std::to_string(crit) + ", start with requests of " + pend);
        bool r = f->start(); CHECK(r, f->err);
        for (auto &s : SUBS) CHECK(!hw.resync[s], "the request of " << s << " before start is still pending");
        std::map<std::string, int> nb, nf; for (auto &e : hw.evs) (e.back ? nb : nf)[e.path]++;
        for (auto &l : leafs) { cur[l] = 0; bool c = covered(l, true); if (!c) { std::string s; for (auto &x : syncers) if (in(l, x)) s = x; if (s.empty() || !back || hw.failing.count(s)) cur[l] = def(l.substr(l.find('/', 6) + 1)); else { size_t i = 0; for (auto &x : leafs) { if (x == l) break; if (in(x, s)) i++; } cur[l] = hw.back[s][i]; } } }
        for (auto &d : doms) if (conf(d) >= 0) { d.last = conf(d); for (auto &e : d.elems) for (auto &l : leafs) if (in(l, e)) cur[l] = value(d, e, l); }
        hw.alive = true; values(); for (auto &s : syncers) { bool need = false, app = false; for (auto &l : leafs) if (in(l, s) && !covered(l, true)) need = true; for (auto &d : doms) if (conf(d) >= 0) for (auto &e : d.elems) if (syn(e).count(s)) app = true; if (back) { CHECK(nb[s] == need, s << " was read back " << nb[s] << " times"); CHECK((nf[s] > 0) == app, s << " was synchronised " << nf[s] << " times at start"); } }
        hw.failing.clear(); hw.back.clear(); hw.clear();
    }
    void values() { for (auto &l : leafs) CHECK(f->get(l) == std::to_string(cur[l]), l << " is " << f->get(l) << ", not " << cur[l]); }
    void application(bool force, std::function<void()> go) {
        std::set<std::string> all, asked; std::map<std::string, int> want; for (auto &s : SUBS) if (hw.resync[s]) { asked.insert(s); for (auto &l : SYN) all.insert(full(s, l)); }
        for (int pass = 0; pass < 2; pass++) { for (auto &d : doms) if (d.seq == (pass == 1)) { int c = conf(d); if (c < 0 || (!force && c == d.last)) { if (force) d.last = -1; continue; } d.last = c; for (auto &e : d.elems) { for (auto &l : leafs) if (in(l, e)) cur[l] = value(d, e, l); for (auto &s : syn(e)) if (d.seq) want[s]++; else all.insert(s); } } if (!pass) for (auto &s : all) want[s]++; }
        std::string again; int when = h::rnd(5) ? -1 : h::rnd(8); std::string who = SUBS[h::rnd(4)]; bool raised = false; hw.onSync = [&](const std::string &) { if (when-- == 0) { hw.resync[who] = true; raised = true; } };
        hw.clear(); go(); hw.onSync = nullptr; if (raised) note(who + " asks again meanwhile"); std::map<std::string, int> n; std::map<std::string, std::vector<uint8_t>> seen; for (auto &e : hw.evs) { n[e.path]++; seen[e.path] = e.bytes; CHECK(!e.back, e.path << " was read back"); }
        for (auto &s : syncers) { CHECK(n[s] == want[s], s << " was synchronised " << n[s] << " times, not " << want[s]); if (n[s]) CHECK(seen[s] == f->slice(s), s << " was given " << h::hex(seen[s])); }
        for (auto &s : SUBS) CHECK(hw.resync[s] == (raised && s == who), "the request of " << s << (hw.resync[s] ? " was not consumed" : " made meanwhile is lost")); values(); }
    void step() {
        int k = h::rnd(10);
        if (k < 3) { auto s = SUBS[h::rnd(4)]; note(s + " asks"); hw.resync[s] = true; }
        else if (k < 5) { crit = h::rnd(3); note("criterion " + std::to_string(crit)); f->setCrit("c", crit); }
        else if (k < 6) { bool on = !tuning; note(on ? "tuning on" : "tuning off"); if (on) { auto was = hw.resync; hw.clear(); CHECK(f->tune(true), f->err); CHECK(hw.evs.empty() && hw.resync == was, "entering tuning mode synchronises"); } else application(true, [&] { CHECK(f->tune(false), f->err); }); tuning = on; }
        else { note("apply"); if (tuning) { auto was = hw.resync; hw.clear(); f->apply(); CHECK(hw.evs.empty() && hw.resync == was, "applied in tuning mode"); } else application(false, [&] { f->apply(); }); }
    }
};
SCEN(start) { for (int i = 0; i < (h::thorough ? 400 : 60); i++) World w(true); }
SCEN(start_dead) { for (int i = 0; i < (h::thorough ? 60 : 15); i++) World w(false); }
SCEN(requests) { for (int i = 0; i < (h::thorough ? 200 : 25); i++) { World w(h::rnd(2)); for (int k = 0; k < 60; k++) w.step(); } }
