#include "rules.hpp"
#include "XmlDomainExportContext.h"
SCEN(text_round_trip) {
    auto cs = rcrits(); FWOpt o; o.instances = ALLPARAMS; FW f(o, cs); std::string e;
    for (int n = 0; n < (h::thorough ? 30000 : 4000); n++) { RT r = rgen(1 + h::rnd(4), cs); std::string t = rtext(r, cs, n & 1); INPUT("'" << t << "'"); auto p = rparse(f, t, e); CHECK(p, "refused: " << e); CHECK(rsame(r, p.get(), cs), "parsed as " << p->dump()); std::string d = p->dump(); auto q = rparse(f, d, e); CHECK(q, "printed as '" << d << "', which is refused: " << e); CHECK(rsame(r, q.get(), cs), "printed as '" << d << "', which denotes another rule"); CHECK(q->dump() == d, "printed differently the second time"); }
}
SCEN(xml_round_trip) {
    auto cs = rcrits(); FWOpt o; o.instances = ALLPARAMS; FW f(o, cs); std::string e; int K = 40; f.tune(true); f.domain("D"); f.add("D", "/test/test/u8"); for (int i = 0; i < K; i++) f.conf("D", "C" + std::to_string(i));
    for (int n = 0; n < (h::thorough ? 120 : 12); n++) { std::vector<RT> rs; for (int i = 0; i < K; i++) { rs.push_back(rgen(1 + h::rnd(4), cs)); f.rule("D", "C" + std::to_string(i), rtext(rs[i], cs)); } std::string x; CHECK(f.pf->exportDomainsXml(x, n & 1, false, e), e); CHECK(f.pf->importDomainsXml(x, n & 1, false, e), e);
        for (int i = 0; i < K; i++) { std::string t = rtext(rs[i], cs); INPUT(t); auto c = static_cast<CDomainConfiguration *>(f.dom("D")->findChild("C" + std::to_string(i))); CHECK(c, "no configuration"); CHECK(c->getNbChildren() == 1 && rsame(rs[i], c->getChild(0), cs), "imported as " << c->getApplicationRule()); } }
}
SCEN(malformed) {   // refused with an error, the previous rule kept, the process alive
    auto cs = rcrits(); FWOpt o; o.instances = ALLPARAMS; FW f(o, cs); std::string e; f.tune(true); f.domain("D"); f.conf("D", "C"); f.rule("D", "C", "Any{Mode Is Ring, Dev Includes Ear|Bt}"); std::string keep; f.pf->getApplicationRule("D", "C", keep);
    auto refuse = [&](const std::string &t) { INPUT("'" << t << "'"); e = ""; bool r = f.pf->setApplicationRule("D", "C", t, e); CHECK(!r, "accepted"); CHECK(!e.empty(), "no error"); std::string k; CHECK(f.pf->getApplicationRule("D", "C", k) && k == keep, "the previous rule became " << k); };
    for (const char *t : {"", " ", "All", "All{", "All}", "{", "}", "{}", "All{}}", "All{{}}", "All{All}", "XX{}", "all{}", "Mode Is Ring", "All{Mode}", "All{Mode Is}", "All{Mode Is }", "All{Mode Ring}", "All{Mode Is Ring", "All{Mode Is Ring,}", "All{,Mode Is Ring}", "All{Mode Is Ring Mode Is Ring}", "All{Mode Is Ring}Any{}", "All{}, Mode Is Ring", "All{},", "All{} x", "All{}x", "x All{}", "All{Mode Is Ring}}", "All{Nope Is Ring}", "All{Mode Is Nope}", "All{Mode Nope Ring}", "All{Mode Includes Ring}", "All{Dev Is Nope}", "All{Dev Is Ear|Nope}", "All{Dev Includes }", "All{Dev Is |}", "All{Dev Includes}", "All{Dev Excludes ||}", "All{Any{}Any{}}", "All{Any{},,Any{}}", "All{Mode Is Ring,,Mode Is Ring}", "All{Mode IsRing}", "All{Mode, Is Ring}", "All{Mode Is Ring|Normal}", "All{ModeIs Ring}", "All {}", "All{Any {}}", "All{Mode Is{Ring}}", "All{}{}", "All{}{Mode Is Ring}", "All{{Mode Is Ring}}", "All{Mode Is Ring}, All{}", "All{Mode\tIs\tRing}"}) refuse(t);
    // unbalanced braces and unknown words, at every place of random rules
    for (int n = 0; n < (h::thorough ? 4000 : 600); n++) { RT r = rgen(1 + h::rnd(3), cs); std::string t = rtext(r, cs); size_t i = h::rnd(t.size() + 1); std::string b = t; switch (h::rnd(3)) { case 0: b.insert(i, h::rnd(2) ? "{" : "}"); break; case 1: { auto p = t.find_first_of("{}", i); if (p == t.npos) p = t.size() - 1; b.erase(p, 1); break; } default: { auto p = t.find_first_of("AIMDC", i); if (p == t.npos) p = 0; b.insert(p + (h::rnd(2) ? 1 : 0), "#"); } } if (b == t) continue; refuse(b); }
    // arbitrary texts never end the process; what is accepted is printed and parsed again
    static const char *tok[] = {"All", "Any", "{", "}", ",", " ", "Mode", "Dev", "Is", "IsNot", "Includes", "Excludes", "Ring", "Ear", "Bt|Ear", "|", "x", "", "All{", "Mode Is Ring", "}, "};
    for (int n = 0; n < (h::thorough ? 200000 : 30000); n++) { std::string t = h::rnd(2) ? "All{" : ""; int k = h::rnd(12); for (int i = 0; i < k; i++) t += tok[h::rnd(21)]; if (h::rnd(2)) t += "}"; INPUT("'" << t << "'"); auto p = rparse(f, t, e); if (p) { std::string d = p->dump(); auto q = rparse(f, d, e); CHECK(q && q->dump() == d, "accepted, printed as '" << d << "' and then " << (q ? "different" : "refused: " + e)); } }
}
SCEN(xml_refused) {
    auto cs = rcrits(); FWOpt o; o.instances = ALLPARAMS; FW f(o, cs); std::string e, x; f.tune(true); f.domain("D"); f.conf("D", "C"); f.rule("D", "C", "All{Mode Is Ring, Dev Includes Ear|Bt}"); CHECK(f.pf->exportDomainsXml(x, false, false, e), e);
    struct { const char *a, *b; } t[] = {{"Value=\"Ring\"", "Value=\"Nope\""}, {"Value=\"Ring\"", "Value=\"\""}, {"Value=\"Ear|Bt\"", "Value=\"\""}, {"Value=\"Ear|Bt\"", "Value=\"Ear|Nope\""}, {"MatchesWhen=\"Is\"", "MatchesWhen=\"Includes\""}, {"MatchesWhen=\"Is\"", "MatchesWhen=\"\""}, {"SelectionCriterion=\"Mode\"", "SelectionCriterion=\"None\""}};
    for (auto &m : t) { std::string y = x; auto p = y.find(m.a); CHECK(p != y.npos, "no " << m.a << " in " << x); y.replace(p, strlen(m.a), m.b); INPUT("rule with " << m.b << " for " << m.a); CHECK(!f.pf->importDomainsXml(y, false, false, e), "accepted"); CHECK(f.pf->importDomainsXml(x, false, false, e), e); }
}
