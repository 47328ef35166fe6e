// the C interface: success, failure and messages; state machine; criteria as listed
#include "fix.hpp"
#include "ParameterFramework.h"
static long logged;
static void logCb(void *, PfwLogLevel, const char *) { logged++; }
static PfwLogger logger = {nullptr, &logCb}, noLog = {nullptr, nullptr};
static std::string conf(const std::string &domains, bool good = true, int extra = 0) {
    static int n; FWOpt o; o.tuning = false; o.start = false; o.instances = "<IntegerParameter Name='i' Signed='true' Size='32' Min='-1000' Max='100000' Mapping='Obj'/><IntegerParameter Name='u' Signed='false' Size='8' Mapping='Obj'/><StringParameter Name='s' MaxLength='8' Mapping='Obj'/><BooleanParameter Name='b' Mapping='Obj'/><IntegerParameter Name='o' Signed='true' Size='32' Mapping='Obj'/>";
    (void)n; (void)extra; o.domains = domains; if (!good) o.instances += "<Nothing/>"; FW f(o); return f.mgr->_xmlConfigurationUri; }
struct Crit { std::string name; bool incl; std::vector<std::string> vals; bool nullName = false, nullVals = false; };
struct Table { std::vector<Crit> c; std::vector<std::vector<const char *>> v; std::vector<PfwCriterion> t;
    Table(const std::vector<Crit> &cs) : c(cs) { for (auto &x : c) { v.emplace_back(); for (auto &s : x.vals) v.back().push_back(s.c_str()); v.back().push_back(nullptr); } for (size_t i = 0; i < c.size(); i++) t.push_back({c[i].nullName ? nullptr : c[i].name.c_str(), c[i].incl, c[i].nullVals ? nullptr : v[i].data()}); }
    Table(const Table &o) : Table(o.c) {}
    bool ok() const { std::set<std::string> n; for (auto &x : c) { if (x.nullName || x.nullVals || !n.insert(x.name).second) return false; std::set<std::string> w(x.vals.begin(), x.vals.end()); if (w.size() != x.vals.size()) return false; if (x.incl && x.vals.size() > 31) return false; } return true; } };
static std::string show(const Table &t) { std::string s; for (auto &x : t.c) { s += x.nullName ? "NULL" : x.name; s += x.incl ? "(incl)" : ""; s += x.nullVals ? "=NULL " : "={"; for (auto &v : x.vals) s += v + ","; s += "} "; } return s; }
// what each call says is what the same call says at any other time
struct Run {
    PfwHandler *h = pfwCreate(); bool started = false; std::map<std::string, int> crit; std::map<std::string, PfwParameterHandler *> hd; int i = 0, o = 0; unsigned u = 0; std::string s; bool b = false; std::string trace;
    static std::map<std::string, std::string> &said() { static std::map<std::string, std::string> m; return m; }
    ~Run() { for (auto &x : hd) pfwUnbindParameter(x.second); pfwDestroy(h); }
    void res(const std::string &op, bool got, bool want) {
        trace += op + (got ? "; " : " fails; "); if (trace.size() > 600) trace = "... " + trace.substr(trace.size() - 500); INPUT("calls: " << trace); std::string e = pfwGetLastError(h);
        CHECK(got == want, op << " returns " << got << " with error \"" << e << "\""); CHECK(got == e.empty(), op << (got ? " succeeded" : " failed") << " with error \"" << e << "\"");
        if (!got) { auto r = said().insert({op + (started ? " started" : ""), e}); CHECK(r.first->second == e, op << " says \"" << e << "\", and \"" << r.first->second << "\" another time"); } }
    void start(const std::string &f, bool fileOk, const Table &t, const PfwLogger *l = &logger) {
        bool want = !started && fileOk && t.ok(); bool r = pfwStart(h, f.c_str(), t.t.data(), t.t.size(), l); trace += "[" + show(t) + "]"; res("start " + f + " " + show(t), r, want); if (r) { started = true; for (auto &x : t.c) crit[x.name] = 0; } }
    void set(const std::string &n, int v) { bool w = started && crit.count(n); res("set " + n, pfwSetCriterion(h, n.c_str(), v), w); if (w) crit[n] = v; }
    void get(const std::string &n) { int v = 4242; bool w = started && crit.count(n); res("get " + n, pfwGetCriterion(h, n.c_str(), &v), w); CHECK(v == (w ? crit[n] : 4242), n << " is " << v); }
    void apply() { res("apply", pfwApplyConfigurations(h), started); }
    void bind(const std::string &p) { bool w = started && p.size() > 11 && p.compare(0, 11, "/test/test/") == 0 && p.size() == 12 && strchr("iusbo", p[11]); auto x = pfwBindParameter(h, p.c_str()); res("bind " + p, x != nullptr, w); if (x) { if (hd.count(p)) pfwUnbindParameter(x); else hd[p] = x; } }
    PfwParameterHandler *at(char c) { auto it = hd.find(std::string("/test/test/") + c); return it == hd.end() ? nullptr : it->second; }
    void access(char c, unsigned k) {
        auto x = at(c); if (!x) return; std::string n(1, c); int v; char *t;
        switch (k % 6) {
        case 0: { v = 4242; bool w = c == 'i'; res("getint " + n, pfwGetIntParameter(x, &v), w); if (w) CHECK(v == i, v); break; }
        case 1: { v = (int)h::rnd(4000) - 2000; bool w = c == 'i' && v >= -1000; res("setint " + n + (w ? "" : h::str(v)), pfwSetIntParameter(x, v), w); if (w) i = v; break; }
        case 2: { t = (char *)1; res("getstr " + n, pfwGetStringParameter(x, &t), true); CHECK(t && (c == 's' ? s : c == 'i' ? h::str(i) : "0") == t, "not the value set"); pfwFree(t); break; }
        case 3: { static const char *T[] = {"", "abc", "12345678", "123456789", "a b"}; const char *w = T[h::rnd(5)]; bool ok = c == 's' && strlen(w) <= 8; res("setstr " + n + w, pfwSetStringParameter(x, w), ok); if (ok) s = w; break; }
        default: break; } }
};
static const Table &good() { static Table t({{"A", false, {"x", "y", "z"}}, {"B", true, {"p", "q", "r"}}}); return t; }
static std::vector<Table> bads() { std::vector<std::string> many; for (int i = 0; i < 32; i++) many.push_back("v" + h::str(i)); return {Table({{"", false, {}, true}}), Table({{"A", false, {}, false, true}}), Table({{"A", false, {"x"}}, {"A", true, {"x"}}}), Table({{"A", false, {"x", "y", "x"}}}), Table({{"B", true, {"x", "y", "x"}}}), Table({{"A", false, {"x"}}, {"B", true, many}}), Table({{"A", false, {"x", "y", "z"}}, {"B", true, {"p"}}, {"", false, {}, true}})}; }
// every short sequence of calls, then random long ones
static void step(Run &r, unsigned k, const std::string &f, const std::string &bad) {
    switch (k) { case 0: r.start(f, true, good()); break; case 1: r.start(bad, false, good()); break; case 2: { static auto B = bads(); r.start(f, true, B[h::rnd(B.size())], h::rnd(2) ? &logger : &noLog); break; } case 3: r.set("A", h::rnd(3)); break; case 4: r.set("none", 1); break; case 5: r.get("A"); break; case 6: r.get("none"); break; case 7: r.apply(); break; case 8: r.bind("/test/test/i"); break; case 9: r.bind("/test/test/s"); break; case 10: r.bind("/test/test/no"); break; case 11: r.bind(h::rnd(2) ? "/test/test" : h::rnd(2) ? "" : "test/test/i"); break; case 12: r.bind("/test/test/b"); break; case 13: r.access('i', h::rnd(6)); break; case 14: r.access('s', h::rnd(6)); break; case 15: r.access('b', h::rnd(6)); break; case 16: r.set("B", h::rnd(8)); break; case 17: r.get("B"); break; } }
SCEN(short_sequences) { std::string f = conf(""), bad = conf("", false); for (unsigned a = 0; a < 18; a++) for (unsigned b = 0; b < 18; b++) for (unsigned c = 0; c < (h::thorough ? 18u : 1u); c++) { Run r; step(r, a, f, bad); step(r, b, f, bad); step(r, h::thorough ? c : h::rnd(18), f, bad); step(r, 7, f, bad); } }
SCEN(long_sequences) { std::string f = conf(""), bad = conf("", false), none = "/nowhere/at/all"; for (int n = 0; n < (h::thorough ? 200 : 25); n++) { Run r; for (int k = 0; k < 60; k++) { if (k == 10 && !r.started) r.start(f, true, good()); step(r, h::rnd(18), f, h::rnd(2) ? bad : none); } } }
SCEN(refused_tables) { std::string f = conf(""); for (auto &t : bads()) { Run r; r.start(f, true, t); r.get("A"); r.set("A", 1); r.apply(); r.bind("/test/test/i"); r.start(f, true, good()); r.get("A"); r.set("A", 2); r.get("A"); r.get("B"); r.apply(); } }
SCEN(last_values) { std::string f = conf(""); for (unsigned n = 0; n <= 34; n++) for (bool inc : {false, true}) { std::vector<std::string> v; for (unsigned i = 0; i < n; i++) v.push_back("v" + h::str(i)); Run r; r.start(f, true, Table({{"C", inc, v}})); r.get("C"); r.set("C", 1); r.get("C"); } }
// a criterion has exactly the values listed, in order: seen through the rules
static void values(bool inc, unsigned n) {
    std::string d; auto rule = [&](unsigned i) { return "<SelectionCriterionRule SelectionCriterion='C' MatchesWhen='" + std::string(inc ? "Includes" : "Is") + "' Value='v" + h::str(i) + "'/>"; };
    for (unsigned i = 0; i < n; i++) d += "<ConfigurableDomain Name='d" + h::str(i) + "'><Configurations><Configuration Name='on'><CompoundRule Type='All'>" + rule(i) + "</CompoundRule></Configuration><Configuration Name='off'><CompoundRule Type='All'/></Configuration></Configurations><ConfigurableElements><ConfigurableElement Path='/test/test/a" + h::str(i) + "'/></ConfigurableElements><Settings>"
        "<Configuration Name='on'><ConfigurableElement Path='/test/test/a" + h::str(i) + "'><IntegerParameter Name='a" + h::str(i) + "'>1</IntegerParameter></ConfigurableElement></Configuration><Configuration Name='off'><ConfigurableElement Path='/test/test/a" + h::str(i) + "'><IntegerParameter Name='a" + h::str(i) + "'>0</IntegerParameter></ConfigurableElement></Configuration></Settings></ConfigurableDomain>";
    FWOpt o; o.tuning = false; o.start = false; for (unsigned i = 0; i < n; i++) o.instances += "<IntegerParameter Name='a" + h::str(i) + "' Signed='true' Size='32' Mapping='Obj'/>"; o.instances += "<IntegerParameter Name='z' Signed='true' Size='32' Mapping='Obj'/>"; o.domains = d; FW f(o);
    std::vector<std::string> v; for (unsigned i = 0; i < n; i++) v.push_back("v" + h::str(i)); Table t({{"C", inc, v}}); PfwHandler *h = pfwCreate();
    CHECK(pfwStart(h, f.mgr->_xmlConfigurationUri.c_str(), t.t.data(), 1, &logger), pfwGetLastError(h)); f.pf.reset();
    // what is applied can not be read through a handle, only out of the domains: through the recorded synchronisations
    for (int k = 0; k < 12; k++) { int x = inc ? (int)(h::rng()() & ((n >= 31 ? 0x7fffffffu : (1u << n) - 1))) : (int)h::rnd(n); if (k < 2) x = k ? (inc ? (int)(1u << (n - 1)) : (int)n - 1) : (inc ? 1 : 0); INPUT((inc ? "inclusive " : "exclusive ") << n << " values, state " << x); CHECK(pfwSetCriterion(h, "C", x), "set"); CHECK(pfwApplyConfigurations(h), "apply");
        for (unsigned i = 0; i < n; i++) { std::string e; auto p = pfwBindParameter(h, ("/test/test/a" + h::str(i)).c_str()); CHECK(p, "bind"); int y = 7; CHECK(pfwGetIntParameter(p, &y), pfwGetLastError(h)); pfwUnbindParameter(p); CHECK(y == (inc ? (x >> i) & 1 : x == (int)i), "value v" << i << " is " << y); } }
    pfwDestroy(h); }
SCEN(exclusive_values) { for (unsigned n : {1u, 2u, 5u, 33u}) values(false, n); }
SCEN(inclusive_values) { for (unsigned n : {1u, 2u, 5u, 31u}) values(true, n); }
