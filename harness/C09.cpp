#include "fix.hpp"
static std::vector<CritDef> crits() { return {{"ex", false, {{"a", 0}, {"b", 1}, {"c", 7}, {"neg", -3}}}, {"in", true, {{"x", 1}, {"y", 2}, {"z", 8}, {"top", INT_MIN}}}, {"other", false, {{"o0", 0}, {"o1", 1}}}}; }
static CSelectionCriterion *C(FW &f, const char *n) { return static_cast<CSelectionCriterion *>(f.crit[n]); }
SCEN(states) {
    FWOpt o; o.tuning = false; o.instances = ALLPARAMS; FW f(o, crits()); std::map<std::string, int> st, nb;
    for (auto &c : f.crit) { st[c.first] = 0; nb[c.first] = 0; CHECK(c.second->getCriterionState() == 0, "initial"); }
    f.apply(); for (auto &c : f.crit) nb[c.first] = 0;
    for (int i = 0; i < (h::thorough ? 40000 : 6000); i++) { auto it = f.crit.begin(); std::advance(it, h::rnd(3)); int k = h::rnd(8), v = k < 5 ? (int)h::rnd(10) : k == 5 ? (int)h::rng()() : k == 6 ? st[it->first] : INT_MIN; auto m = f.bb(); size_t ev = hw.evs.size();
        INPUT("criterion " << it->first << " from " << st[it->first] << " to " << v); it->second->setCriterionState(v); if (v != st[it->first]) nb[it->first]++; st[it->first] = v;
        for (auto &c : f.crit) { CHECK(c.second->getCriterionState() == st[c.first], c.first << " holds " << c.second->getCriterionState() << " not " << st[c.first]); CHECK(C(f, c.first.c_str())->_uiNbModifications == (unsigned)nb[c.first], c.first << " counts " << C(f, c.first.c_str())->_uiNbModifications << " changes not " << nb[c.first]); CHECK(C(f, c.first.c_str())->hasBeenModified() == (nb[c.first] != 0), "modified flag"); }
        CHECK(f.bb() == m && hw.evs.size() == ev, "setting a criterion changed settings");
        if (!h::rnd(9)) { f.apply(); for (auto &c : nb) c.second = 0; for (auto &c : f.crit) { CHECK(c.second->getCriterionState() == st[c.first], "state after application"); CHECK(!C(f, c.first.c_str())->hasBeenModified(), c.first << " still modified after an application"); } } }
}
SCEN(texts) {
    FWOpt o; o.tuning = false; o.instances = ALLPARAMS; FW f(o, crits()); auto cs = crits();
    for (int i = 0; i < 3000; i++) { int v = h::rnd(3) ? h::rnd(16) : (int)h::rng()(); f.setCrit("in", v); INPUT("inclusive state " << v); std::string s = C(f, "in")->getFormattedDescription(false, false); std::set<std::string> want, got; for (auto &x : cs[1].vals) if (v & x.second) want.insert(x.first); auto p = s.find("state: "); CHECK(p != s.npos, s); std::string q = s.substr(p + 7); q = q.substr(0, q.find_first_of(",\n")); std::stringstream ss(q); std::string w; size_t n = 0; while (std::getline(ss, w, '|')) { n++; got.insert(w); } if (want.empty()) CHECK(q == "<none>" || q == "none", "empty state is named " << q); else CHECK(got == want && n == want.size(), "named " << q); }
    for (auto &x : cs[0].vals) { f.setCrit("ex", x.second); INPUT("exclusive state " << x.second); CHECK(C(f, "ex")->getFormattedDescription(false, false).find("state: " + x.first) != std::string::npos, C(f, "ex")->getFormattedDescription(false, false)); }
}
SCEN(setting_applies_nothing) {    // even when it makes another configuration applicable
    FWOpt o; o.tuning = true; o.instances = ALLPARAMS; FW f(o, crits()); CHECK(f.tune(true), f.err); f.domain("D"); f.add("D", "/test/test/u8"); f.conf("D", "C0"); f.conf("D", "C1"); f.rule("D", "C0", "All{ex Is a}"); f.rule("D", "C1", "All{ex Is b}"); CHECK(f.confSet("D", "C0", "/test/test/u8", "10") && f.confSet("D", "C1", "/test/test/u8", "20"), f.err); CHECK(f.tune(false), f.err); CHECK(f.last("D") == "C0", "C0 applies");
    for (int i = 0; i < 200; i++) { std::string l = f.last("D"); auto m = f.bb(); hw.clear(); int v = h::rnd(2); INPUT("criterion set to " << v << " after " << l); f.setCrit("ex", v); CHECK(f.last("D") == l && f.bb() == m && hw.evs.empty(), "setting the criterion applied something"); if (h::rnd(2)) { f.apply(); CHECK(f.last("D") == (v ? "C1" : "C0"), "after application"); } }
    // in tuning mode applications do nothing: changes stay counted
    f.apply(); CHECK(f.tune(true), f.err); f.setCrit("ex", 5); f.setCrit("ex", 6); auto *c = C(f, "ex"); unsigned n = c->_uiNbModifications; CHECK(n == 2, n); f.apply(); CHECK(c->_uiNbModifications == n, "an application refused by tuning mode reset the changes"); CHECK(f.tune(false), f.err); CHECK(!c->hasBeenModified(), "reset on leaving tuning mode");
}
