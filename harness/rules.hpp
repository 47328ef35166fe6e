// random application rules, their meaning and their canonical text
#pragma once
#include "fix.hpp"
#include "RuleParser.h"
#include "CompoundRule.h"
#include "SelectionCriterionRule.h"
#include "SelectionCriteriaDefinition.h"
struct RT { bool comp = true, all = true; std::vector<RT> kids; int crit = 0, verb = 0, val = 0; std::string lit; };
inline std::vector<CritDef> rcrits() { return {{"Mode", false, {{"Normal", 0}, {"InCall", 1}, {"Ring", 5}, {"Neg", -2}, {"All", 9}}}, {"Dev", true, {{"Ear", 1}, {"Spk", 2}, {"Hdm", 4}, {"Bt", 64}, {"Top", INT_MIN}}}, {"C.3-x", false, {{"v1", 1}, {"Is", 2}}}, {"Any", true, {{"b0", 1}, {"b5", 32}}}}; }
static const char *VERBS[] = {"Is", "IsNot", "Includes", "Excludes"};
inline RT rgen(int depth, const std::vector<CritDef> &cs, bool root = true) {
    RT r; if (root || (depth > 0 && h::rnd(3) == 0)) { r.all = h::rnd(2); int n = depth > 0 ? h::rnd(4) : h::rnd(2); for (int i = 0; i < n; i++) r.kids.push_back(rgen(depth - 1, cs, false)); return r; }
    r.comp = false; r.crit = h::rnd(cs.size()); auto &c = cs[r.crit]; r.verb = h::rnd(c.incl ? 4 : 2);
    if (c.incl && h::rnd(2)) { int k = 1 + h::rnd(3); for (int i = 0; i < k; i++) { auto &v = c.vals[h::rnd(c.vals.size())]; r.val |= v.second; r.lit += (i ? "|" : "") + v.first; } } else { auto &v = c.vals[h::rnd(c.vals.size())]; r.val = v.second; r.lit = v.first; }
    return r;
}
inline std::string sp(bool loose) { return loose && !h::rnd(3) ? std::string(1 + h::rnd(3), ' ') : ""; }
inline std::string rtext(const RT &r, const std::vector<CritDef> &cs, bool loose = false) {
    if (!r.comp) return sp(loose) + cs[r.crit].name + " " + sp(loose) + VERBS[r.verb] + " " + sp(loose) + r.lit + sp(loose);
    std::string s = sp(loose) + (r.all ? "All{" : "Any{"); for (size_t i = 0; i < r.kids.size(); i++) s += (i ? "," : "") + (i && !loose ? std::string(" ") : "") + rtext(r.kids[i], cs, loose) + sp(loose && r.kids[i].comp); return s + (r.kids.empty() ? sp(loose) : "") + "}";
}
inline bool rmean(const RT &r, const std::vector<int> &st) {
    if (!r.comp) { int s = st[r.crit], v = r.val; switch (r.verb) { case 0: return s == v; case 1: return s != v; case 2: return (s & v) == v; default: return (s & v) == 0; } }
    bool x = r.all; for (auto &k : r.kids) { bool m = rmean(k, st); if (r.all) x &= m; else x |= m; } return x;
}
inline bool rsame(const RT &r, const CElement *e, const std::vector<CritDef> &cs) {    // same structure as the parsed rule
    if (auto c = dynamic_cast<const CCompoundRule *>(e)) { if (!r.comp || c->_bTypeAll != r.all || c->getNbChildren() != r.kids.size()) return false; for (size_t i = 0; i < r.kids.size(); i++) if (!rsame(r.kids[i], c->getChild(i), cs)) return false; return true; }
    auto c = dynamic_cast<const CSelectionCriterionRule *>(e); return c && !r.comp && c->_pSelectionCriterion->getName() == cs[r.crit].name && (int)c->_eMatchesWhen == r.verb && c->_iMatchValue == r.val;
}
inline const CSelectionCriteriaDefinition *rdef(FW &f) { return f.mgr->getConstSelectionCriteria()->getSelectionCriteriaDefinition(); }
inline std::unique_ptr<CCompoundRule> rparse(FW &f, const std::string &t, std::string &e) { CRuleParser p(t, rdef(f)); if (!p.parse(nullptr, e)) return nullptr; return std::unique_ptr<CCompoundRule>(p.grabRootRule()); }
