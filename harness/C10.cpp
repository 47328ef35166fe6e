#include "rules.hpp"
SCEN(meaning) {     // random rules against an independent evaluator
    auto cs = rcrits(); FWOpt o; o.instances = ALLPARAMS; FW f(o, cs); std::string e;
    for (int n = 0; n < (h::thorough ? 20000 : 2500); n++) { RT r = rgen(1 + h::rnd(4), cs); std::string t = rtext(r, cs); INPUT(t); auto p = rparse(f, t, e); CHECK(p, "refused: " << e);
        for (int k = 0; k < 12; k++) { std::vector<int> st; for (auto &c : cs) { int v = 0; if (c.incl) for (auto &x : c.vals) { if (h::rnd(2)) v |= x.second; } else v = c.vals[h::rnd(c.vals.size())].second; if (!h::rnd(12)) v = h::rng()(); st.push_back(v); f.setCrit(c.name, v); } std::string d; for (auto v : st) d += std::to_string(v) + " "; INPUT(t << " in states " << d); CHECK(p->matches() == rmean(r, st), "matches: " << p->matches()); } }
}
SCEN(verbs) {       // inclusive-only verbs
    auto cs = rcrits(); FWOpt o; o.instances = ALLPARAMS; FW f(o, cs); std::string e; for (auto &c : cs) for (int v = 0; v < 4; v++) { std::string t = "All{" + c.name + " " + VERBS[v] + " " + c.vals[0].first + "}"; INPUT(t); bool r = !!rparse(f, t, e); CHECK(r == (v < 2 || c.incl), (r ? "accepted" : "refused " + e)); }
    for (const char *v : {"is", "IS", "Isnot", "Include", "Contains", "==", "IsN", "Is Not"}) { std::string t = std::string("All{Mode ") + v + " Normal}"; INPUT(t); CHECK(!rparse(f, t, e), "accepted"); }
}
SCEN(applicability) {   // the rule of a configuration decides its application
    auto cs = rcrits(); FWOpt o; o.instances = ALLPARAMS; FW f(o, cs); f.tune(true); f.domain("D"); f.add("D", "/test/test/u8"); f.conf("D", "C"); CHECK(f.tune(false), f.err);
    for (int n = 0; n < 150; n++) { RT r = rgen(3, cs); std::string t = rtext(r, cs); CHECK(f.tune(true), f.err); std::string e; std::vector<int> st; for (auto &c : cs) { int v = 0; if (c.incl) for (auto &x : c.vals) { if (h::rnd(2)) v |= x.second; } else v = c.vals[h::rnd(c.vals.size())].second; st.push_back(v); f.setCrit(c.name, v); } INPUT(t); f.rule("D", "C", t); CHECK(f.confSet("D", "C", "/test/test/u8", "42"), f.err); CHECK(f.set("/test/test/u8", "7"), f.err); CHECK(f.tune(false), f.err); CHECK(f.get("/test/test/u8") == (rmean(r, st) ? "42" : "7"), "value " << f.get("/test/test/u8")); }
}
