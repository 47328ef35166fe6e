// exported domains and settings are imported back the same; failing imports; single domains
#include "rules.hpp"
#include "ConfigurableDomain.h"
#include "DomainConfiguration.h"
#include "AreaConfiguration.h"
static const std::string S = "/test/test/";
typedef std::vector<std::string> VS;
static bool NONEG; // a raw export: negative enumerated values are the known finding of scenario enumraw
struct Kind { std::string p; std::function<std::string()> v; };
static std::string num(long lo, long hi) { return std::to_string(lo + (long)h::rnd(hi - lo + 1)); }
static std::string pick(const VS &v) { return v[h::rnd(v.size())]; }
static std::string many(int n, const std::function<std::string()> &f) { std::string s; for (int i = 0; i < n; i++) s += (i ? " " : "") + f(); return s; }
static std::string q(long lo, long hi, double d) { char b[64]; snprintf(b, sizeof b, "%.10f", (lo + (long)h::rnd(hi - lo + 1)) / d); return b; }
static const VS TEXTS = {"", "a", "hello", "<&>\"'", " lead", "trail ", "  ", "a\tb", "x\ny", "]]>", "&amp;", "\xc3\xa9t\xc3\xa9", "0123456789a", "<a/>", "\"", "1 2", "\n"};
static std::vector<Kind> kinds() { return {{"bool", [] { return num(0, 1); }}, {"bool_array", [] { return many(2, [] { return num(0, 1); }); }}, {"u16", [] { return num(33, 123); }}, {"s8", [] { return num(-100, 100); }}, {"u8", [] { return num(0, 255); }}, {"s32", [] { return h::rnd(2) ? num(-2147483648L, 2147483647L) : pick({"-2147483648", "2147483647", "-1", "0"}); }}, {"u32", [] { return h::rnd(2) ? num(0, 4294967295L) : pick({"4294967295", "2147483648", "0"}); }},
    {"int_array", [] { return many(4, [] { return num(-10, 10); }); }}, {"fix", [] { return q(-128, 127, 16); }}, {"fix_array", [] { return many(3, [] { return q(-128, 127, 16); }); }}, {"float", [] { return h::rnd(2) ? q(-5500000, 100250000, 1000000) : pick({"-5.5", "100.25", "0", "-0", "1e-30", "-1.17549435e-38", "0.1", "33.3333321"}); }}, {"enum", [] { return NONEG ? pick({"five", "max"}) : pick({"min", "five", "max"}); }}, {"enum_array", [] { return many(4, [] { return NONEG ? std::string("eight") : pick({"eight", "min"}); }); }}, {"string", [] { return pick(TEXTS); }},
    {"bits/one", [] { return num(0, 1); }}, {"bits/four", [] { return num(0, 10); }}, {"bits/eight", [] { return num(0, 255); }}, {"block/a", [] { return num(0, 255); }}, {"block/b", [] { return num(0, 65535); }}, {"block/c", [] { return num(0, 255); }}, {"blocks/0/x", [] { return num(0, 255); }}, {"blocks/1/y", [] { return num(0, 65535); }}}; }
static const VS ELEMS = {"bool", "bool_array", "u16", "s8", "u8", "s32", "u32", "int_array", "fix", "fix_array", "float", "enum", "enum_array", "string", "bits", "block", "blocks", "blocks/0", "blocks/1", "blocks/1/y", "block/a", ""};
static FWOpt opt() { FWOpt o; o.instances = ALLPARAMS; return o; }
static std::string path(const std::string &e) { return e.empty() ? "/test/test" : S + e; }
static void params(FW &f, bool some) { f.raw(false); for (auto &k : kinds()) if (!some || h::rnd(3) == 0) { auto v = k.v(); CHECK(f.set(S + k.p, v), k.p << " := " << v << ": " << f.err); } }
static const VS NAMES = {"plain", "with space", "<tag>", "a&b", "quote\"", "apos'", "\xc3\xa9", "Configurations", "x.y-z", "tab\tname", "nl\nname", "slash/name", "1", "A", "a", "#1"};
static std::string name(std::set<std::string> &used) { std::string n = pick(NAMES); while (!used.insert(n).second) n += num(0, 9); return n; }
static std::string hex(const std::vector<uint8_t> &v) { std::string s; char b[4]; for (auto x : v) { snprintf(b, sizeof b, "%02x", x); s += b; } return s; }
// the bytes which carry the settings of an area: string parameters are held apart
static std::string dumpArea(FW &f, const std::string &d, const std::string &c, CAreaConfiguration *a) { auto e = a->getConfigurableElement(); std::vector<uint8_t> b(a->_blackboard.mBlackboard.begin(), a->_blackboard.mBlackboard.end()); std::string p = e->getPath(); if (p == S + "string" || p == "/test/test") { size_t o = f.off(S + "string") - f.off(p), n = f.len(S + "string"); bool z = false; for (size_t i = 0; i < n; i++) { if (z) b[o + i] = 0; if (!b[o + i]) z = true; } } (void)d; (void)c; return p + "=" + hex(b) + (a->isValid() ? "" : " invalid"); }
static std::string dumpDom(FW &f, CConfigurableDomain *d, bool settings = true) { std::string s = "domain " + d->getName() + (d->getSequenceAwareness() ? " aware" : "") + "\n"; for (auto e : d->_configurableElementList) s += "  " + e->getPath() + "\n"; for (size_t i = 0; i < d->getNbChildren(); i++) { auto c = static_cast<CDomainConfiguration *>(d->getChild(i)); s += "  configuration " + c->getName() + " rule " + c->getApplicationRule() + "\n"; if (settings) for (auto &a : c->mAreaConfigurationList) s += "    " + dumpArea(f, d->getName(), c->getName(), a.get()) + "\n"; } return s; }
static std::string dump(FW &f, bool settings = true) { std::string s; auto ds = f.mgr->getConfigurableDomains(); for (size_t i = 0; i < ds->getNbChildren(); i++) s += dumpDom(f, static_cast<CConfigurableDomain *>(ds->getChild(i)), settings); return s; }
static std::string attached(FW &f) { std::string s; for (auto &e : ELEMS) { auto x = static_cast<CConfigurableElement *>(f.elem(path(e))); std::multiset<std::string> n; for (auto *d : x->_configurableDomainList) n.insert(d->getName()); s += e + ":"; for (auto &y : n) s += y + ","; s += "\n"; } return s; }
static void sane(FW &f, bool valid = true) { auto ds = f.mgr->getConfigurableDomains(); std::string want; std::set<std::string> dn; for (auto &e : ELEMS) { std::multiset<std::string> n; for (size_t i = 0; i < ds->getNbChildren(); i++) { auto d = static_cast<CConfigurableDomain *>(ds->getChild(i)); for (auto x : d->_configurableElementList) if (x->getPath() == path(e)) n.insert(d->getName()); } want += e + ":"; for (auto &y : n) want += y + ","; want += "\n"; } CHECK(attached(f) == want, "elements are attached to " << attached(f) << " not " << want);
    for (size_t i = 0; i < ds->getNbChildren(); i++) { auto d = static_cast<CConfigurableDomain *>(ds->getChild(i)); CHECK(dn.insert(d->getName()).second, "two domains " << d->getName()); CHECK(d->_pParent == ds, "parent"); for (size_t j = 0; j < d->getNbChildren(); j++) for (auto &a : static_cast<CDomainConfiguration *>(d->getChild(j))->mAreaConfigurationList) CHECK(!valid || a->isValid(), "settings of " << d->getName() << " are not valid"); } }
static void fill(FW &f, int nd, const std::vector<CritDef> &cs, std::set<std::string> &dn) { std::string e;
    for (int i = 0; i < nd; i++) { auto d = name(dn); f.domain(d); f.pf->setSequenceAwareness(d, h::rnd(2), e); std::set<std::string> cn; int na = h::rnd(6), nc = h::rnd(4); VS cl;
        for (int k = 0; k < na; k++) { core::Results r; f.pf->addConfigurableElementToDomain(d, path(pick(ELEMS)), e); } e.clear();
        for (int k = 0; k < nc; k++) { auto c = name(cn); f.conf(d, c); cl.push_back(c); if (h::rnd(4)) { RT r = rgen(h::rnd(3), cs); f.rule(d, c, rtext(r, cs)); } params(f, true); CHECK(f.pf->saveConfiguration(d, c, e), e); VS s; for (auto x : f.dom(d)->_configurableElementList) s.push_back(x->getPath()); std::shuffle(s.begin(), s.end(), h::rng()); CHECK(f.pf->setElementSequence(d, c, s, e), e); } } }
static std::unique_ptr<FW> mk(const std::vector<CritDef> &cs) { std::unique_ptr<FW> f(new FW(opt(), cs)); CHECK(f->start(), f->err); f->tune(true); { std::string ae; f->pf->setAutoSync(false, ae); } params(*f, false); return f; }
static std::string readFile(const std::string &p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); return s.str(); }
SCEN(domains) { auto cs = rcrits(); for (int n = 0; n < (h::thorough ? 200 : 14); n++) { bool raw = NONEG = h::rnd(2); auto a = mk(cs), b = mk(cs); std::set<std::string> dn, dn2; fill(*a, h::rnd(4), cs, dn); if (h::rnd(2)) fill(*b, h::rnd(3), cs, dn2);
    bool hx = h::rnd(2), file = h::rnd(2), with = h::rnd(4); a->raw(raw); a->hexf(hx); b->raw(h::rnd(2)); b->hexf(h::rnd(2)); std::string x = file ? h::scratch() + "/x.xml" : "", e; auto before = dump(*a);
    INPUT(before << (raw ? " raw" : " real") << (hx ? " hex" : "") << (file ? " file" : "") << (with ? " settings" : "")); CHECK(a->pf->exportDomainsXml(x, with, file, e), e); CHECK(dump(*a) == before, "exporting changed the domains"); auto doc = file ? readFile(x) : x; INPUT(doc);
    CHECK(b->pf->importDomainsXml(x, with, file, e), e); sane(*b); CHECK(dump(*b, with) == dump(*a, with), "imported as " << dump(*b, with) << " from " << dump(*a, with));
    if (with) { std::string y; b->raw(raw); b->hexf(hx); CHECK(b->pf->exportDomainsXml(y, with, false, e), e); CHECK(y == doc, "exported again as " << y); params(*a, false); CHECK(a->pf->importDomainsXml(x, with, file, e), e); sane(*a); CHECK(dump(*a) == before, "imported over itself as " << dump(*a)); }
    b->tune(false); b->apply(); } }
SCEN(single) { auto cs = rcrits(); for (int n = 0; n < (h::thorough ? 200 : 14); n++) { bool raw = NONEG = h::rnd(2); auto a = mk(cs), b = mk(cs); std::set<std::string> dn, dn2; fill(*a, 1 + h::rnd(2), cs, dn); fill(*b, h::rnd(4), cs, dn2); auto d = *dn.begin();
    bool hx = h::rnd(2), file = h::rnd(2), with = h::rnd(3), over = h::rnd(2); if (h::rnd(2) && !b->dom(d)) { b->domain(d); } a->raw(raw); a->hexf(hx); std::string x = file ? h::scratch() + "/x.xml" : "", e; auto was = dump(*b), src = dumpDom(*a, a->dom(d), with); bool had = b->dom(d);
    INPUT(src << (raw ? " raw" : " real") << (file ? " file" : "") << (with ? " settings" : "") << (over ? " overwrite" : "") << " into " << was); CHECK(a->pf->exportSingleDomainXml(x, d, with, file, e), e); std::map<std::string, std::string> others; for (auto &o : dn2) if (b->dom(o) && o != d) others[o] = dumpDom(*b, b->dom(o)); size_t cnt = b->mgr->getConfigurableDomains()->getNbChildren();
    bool r = b->pf->importSingleDomainXml(x, over, with, file, e); CHECK(r == (over || !had), (r ? "accepted" : "refused " + e)); sane(*b);
    if (!r) { CHECK(!e.empty(), "no error"); CHECK(dump(*b) == was, "refused, but now " << dump(*b)); } else { CHECK(b->dom(d), "not there"); CHECK(dumpDom(*b, b->dom(d), with) == src, "imported as " << dumpDom(*b, b->dom(d), with)); CHECK(b->mgr->getConfigurableDomains()->getNbChildren() == cnt + !had, "number of domains"); } for (auto &o : others) CHECK(dumpDom(*b, b->dom(o.first)) == o.second, "domain " << o.first << " changed to " << dumpDom(*b, b->dom(o.first)));
    b->tune(false); b->apply(); } }
// settings exported in the raw value space carry negative enumerated values below 32 bits unsigned, with nothing which says so
SCEN(enumraw) { NONEG = false; auto cs = rcrits(); for (int hx = 0; hx < 2; hx++) { auto a = mk(cs), b = mk(cs); std::string e, x; a->domain("d"); a->conf("d", "c"); CHECK(a->pf->addConfigurableElementToDomain("d", S + "enum", e), e); a->raw(false); CHECK(a->set(S + "enum", "min"), a->err); CHECK(a->pf->saveConfiguration("d", "c", e), e); a->raw(true); a->hexf(hx); CHECK(a->pf->exportDomainsXml(x, true, false, e), e); INPUT(x); auto was = dump(*a); CHECK(b->pf->importDomainsXml(x, true, false, e), e); CHECK(dump(*b) == was, "imported as " << dump(*b)); } }
static VS breakages(const std::string &doc) { VS out; static const std::vector<std::pair<std::string, std::string>> R = {{"Path=\"/test/test", "Path=\"/test/nope"}, {"Path=\"/test/", "Path=\"/tes/"}, {"<ConfigurableElement ", "<Elem "}, {"SelectionCriterion=\"", "SelectionCriterion=\"No"}, {"MatchesWhen=\"", "MatchesWhen=\"No"}, {" Value=\"", " Value=\"No"}, {"SequenceAware=\"", "SequenceAware=\"maybe "}, {"<Configuration Name=\"", "<Configuration Name=\"No"}, {"<SelectionCriterionRule", "<Rule"}, {"<CompoundRule", "<Rulez"}, {"<IntegerParameter Name=\"", "<IntegerParameter Name=\"No"}, {"<BooleanParameter", "<BoolParameter"}, {"</IntegerParameter>", "x</IntegerParameter>"}, {"</EnumParameter>", "x</EnumParameter>"}, {"</BitParameter>", "9999</BitParameter>"}, {"</FixedPointParameter>", "x</FixedPointParameter>"}, {"</BooleanParameter>", "7</BooleanParameter>"}, {"</ConfigurableElement>", "<BooleanParameter Name=\"b\">1</BooleanParameter></ConfigurableElement>"}, {"</ConfigurableDomain", "</Configurable"}, {"SystemClassName=\"test\"", "SystemClassName=\"tess\""}, {"<Settings>", "<Settings><Configuration Name=\"zz\"/>"}};
    for (auto &r : R) { VS::size_type k = 0; std::vector<size_t> at; for (size_t p = doc.find(r.first); p != std::string::npos; p = doc.find(r.first, p + 1)) at.push_back(p); if (at.empty()) continue; (void)k; size_t p = at[h::rnd(at.size())]; std::string s = doc; s.replace(p, r.first.size(), r.second); out.push_back(s); } out.push_back(doc.substr(0, doc.size() / 2)); out.push_back(""); out.push_back("<x/>"); out.push_back("nothing"); return out; }
SCEN(broken) { NONEG = true; auto cs = rcrits(); for (int n = 0; n < (h::thorough ? 60 : 5); n++) { auto a = mk(cs), b = mk(cs); std::set<std::string> dn; fill(*a, 2 + h::rnd(2), cs, dn); std::string x, e; a->raw(h::rnd(2)); CHECK(a->pf->exportDomainsXml(x, true, false, e), e);
    for (auto &s : breakages(x)) { std::set<std::string> dn2; std::string e2; if (h::rnd(2)) { b->pf->deleteAllDomains(e2); fill(*b, 1 + h::rnd(2), cs, dn2); } auto was = dump(*b); INPUT(s); e.clear(); bool r; try { r = b->pf->importDomainsXml(s, true, false, e); } catch (std::exception &ex) { h::fail(std::string("exception ") + ex.what()); } sane(*b); if (!r) { CHECK(!e.empty(), "no error"); auto now = dump(*b); CHECK(now.empty() || now == was, "partly imported: " << now); } else { std::string y; CHECK(b->pf->exportDomainsXml(y, true, false, e), e); } }
    auto d = *dn.begin(); std::string y; CHECK(a->pf->exportSingleDomainXml(y, d, true, false, e), e); for (auto &s : breakages(y)) for (int over = 0; over < 2; over++) { if (!b->dom(d) && h::rnd(2)) b->domain(d); auto was = dump(*b); INPUT("single " << s); e.clear(); bool r; try { r = b->pf->importSingleDomainXml(s, over, true, false, e); } catch (std::exception &ex) { h::fail(std::string("exception ") + ex.what()); } sane(*b); if (!r) { CHECK(!e.empty(), "no error"); CHECK(dump(*b) == was, "a failing import changed the domains to " << dump(*b)); } } } }
