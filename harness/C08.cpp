#include "fix.hpp"
static bool onebit(int v) { unsigned u = v; return u && !(u & (u - 1)); }
SCEN(pairs) {       // random additions against a model
    std::string e;
    for (int n = 0; n < (h::thorough ? 600 : 150); n++) { bool incl = n & 1; CParameterMgrFullConnector pf("/nonexistent"); auto *t = pf.createSelectionCriterionType(incl); CHECK(t->isTypeInclusive() == incl, "kind"); std::map<std::string, int> m; if (incl) m["none"] = 0;
        for (int i = 0; i < 40; i++) { int k = h::rnd(6), v = k == 0 ? 1 << h::rnd(32) : k == 1 ? (int)h::rng()() : k == 2 ? (int)h::rnd(5) : k == 3 ? -(int)h::rnd(5) : 1 << h::rnd(8); static const char *names[] = {"a", "b", "A", "a b", "", "none", "x|y", "|", "lit", "c", "aa", "0", "1", "a,b", "All", "\xc3\xa9"}; std::string s = h::rnd(3) ? names[h::rnd(16)] : "l" + std::to_string(h::rnd(30));
            bool dupl = m.count(s), dupn = false; for (auto &x : m) dupn |= x.second == v; bool ok = !dupl && !dupn && (!incl || onebit(v));
            INPUT((incl ? "inclusive" : "exclusive") << " type with " << m.size() << " pairs, adding " << v << " '" << s << "'"); e = ""; bool r = t->addValuePair(v, s, e); CHECK(r == ok, (r ? "accepted" : "refused: " + e)); CHECK(r || !e.empty(), "no error"); if (ok) m[s] = v;
            for (auto &x : m) { int g = -77; CHECK(t->getNumericalValue(x.first, g) && g == x.second, "'" << x.first << "' gives " << g << " instead of " << x.second); std::string l; CHECK(t->getLiteralValue(x.second, l) && l == x.first, x.second << " gives '" << l << "' instead of '" << x.first << "'"); }
            std::string l; int w = (int)h::rng()(); bool known = false; for (auto &x : m) known |= x.second == w; CHECK(t->getLiteralValue(w, l) == known, "number " << w); int g; if (!incl) for (const char *q : names) CHECK(t->getNumericalValue(q, g) == !!m.count(q), "literal '" << q << "'"); } }
}
SCEN(combinations) {    // texts naming several literals, and states named back
    CParameterMgrFullConnector pf("/nonexistent"); std::string e; auto *t = pf.createSelectionCriterionType(true); std::vector<std::pair<int, std::string>> v; for (int b = 0; b < 32; b += 1 + b % 3) { v.push_back({1 << b, "bit" + std::to_string(b)}); CHECK(t->addValuePair(1 << b, v.back().second, e), e); }
    for (int n = 0; n < 3000; n++) { int want = 0; std::string s; bool bad = !h::rnd(6); int k = 1 + h::rnd(5), at = h::rnd(k); for (int i = 0; i < k; i++) { if (i) s += "|"; if (bad && i == at) { s += h::rnd(2) ? "nope" : "bit" ; continue; } auto &x = v[h::rnd(v.size())]; s += x.second; want |= x.first; } INPUT("'" << s << "'"); int g = 0; bool r = t->getNumericalValue(s, g); CHECK(r == !bad, "known"); if (r) CHECK(g == want, g << " for " << want);
        int st = (int)h::rng()(); int known = 0; for (auto &x : v) if (st & x.first) known |= x.first; std::string f = t->getFormattedState(st); INPUT("state " << st << " named " << f); if (known) { CHECK(t->getNumericalValue(f, g), "not understood"); CHECK(g == known, g << " for " << known); } }
    int g; for (const char *q : {"", "|", "||", " ", "None"}) { INPUT("'" << q << "'"); CHECK(!t->getNumericalValue(q, g), "a text naming nothing has a number"); } CHECK(t->getNumericalValue("none", g) && g == 0, "none");
}
