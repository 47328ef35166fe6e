// remote commands: found by name, refused without their arguments, the same as the operation they are named after
#include "rules.hpp"
#include <unistd.h>
static const std::string S = "/test/test/";
typedef std::vector<std::string> VS;
static const VS CMDS = {"version", "status", "setTuningMode", "getTuningMode", "setValueSpace", "getValueSpace", "setOutputRawFormat", "getOutputRawFormat", "setAutoSync", "getAutoSync", "sync", "listCriteria", "listDomains", "dumpDomains", "createDomain", "deleteDomain", "deleteAllDomains", "renameDomain", "setSequenceAwareness", "getSequenceAwareness", "listDomainElements", "addElement", "removeElement", "splitDomain", "listConfigurations", "createConfiguration", "deleteConfiguration", "renameConfiguration", "saveConfiguration", "restoreConfiguration", "setElementSequence", "getElementSequence", "setRule", "clearRule", "getRule", "listElements", "listParameters", "getElementStructureXML", "getElementBytes", "setElementBytes", "getElementXML", "setElementXML", "dumpElement", "getElementSize", "showProperties", "getParameter", "setParameter", "listBelongingDomains", "listAssociatedDomains", "getConfigurationParameter", "setConfigurationParameter", "showMapping", "listAssociatedElements", "listConflictingElements", "listRogueElements", "exportDomainsXML", "importDomainsXML", "exportDomainsWithSettingsXML", "exportDomainWithSettingsXML", "importDomainsWithSettingsXML", "importDomainWithSettingsXML", "getDomainsWithSettingsXML", "getDomainWithSettingsXML", "setDomainsWithSettingsXML", "setDomainWithSettingsXML", "getSystemClassXML", "getDomainsXML", "help"};
static std::string pick(const VS &v) { return v[h::rnd(v.size())]; }
static std::string num(long lo, long hi) { return std::to_string(lo + (long)h::rnd(hi - lo + 1)); }
static const VS ELEMS = {"u8", "u16", "block", "block/a", "string", "bits", "enum", "int_array", "blocks", "bool"};
static const VS DOMS = {"d", "e", "a b", "nope"}, CONFS = {"c", "k", "x y", "nope"};
static std::string elem() { return h::rnd(8) ? S + pick(ELEMS) : pick({"/", "/test", "/test/test", "/nope", "u8", "", "//"}); }
static std::string any(FW &f) { switch (h::rnd(8)) { case 0: case 1: return pick(DOMS); case 2: return pick(CONFS); case 3: case 4: return elem(); case 5: return pick({"on", "off", "true", "false", "raw", "real", "hex", "dec", "overwrite", "CSV", "XML", "pdf"}); case 6: return f.dir + pick({"/x.xml", "/y.xml", "/no/z.xml"}); default: return pick({"1", "0", "-1", "0x1F", "3.5", "max", "All{}", "Any{}", "<a/>", "", "All{c0 Is s0}"}); } }
static std::string dump(FW &f) { std::string x, e; bool raw = f.pf->isValueSpaceRaw(); f.pf->setValueSpace(false); CHECK(f.pf->exportDomainsXml(x, true, false, e), e); auto s = f.mgr->getConfigurableDomains(); std::stringstream o; o << x << f.pf->isTuningModeOn() << raw << f.pf->isOutputRawFormatHex() << f.pf->isAutoSyncOn() << s->getNbChildren(); f.pf->setValueSpace(raw); for (auto v : f.mgr->_pMainParameterBlackboard->mBlackboard) o << " " << (int)v; return o.str(); }
static FWOpt opt() { FWOpt o; o.instances = ALLPARAMS; return o; }
static std::unique_ptr<FW> mk(const std::vector<CritDef> &cs) { std::unique_ptr<FW> f(new FW(opt(), cs)); CHECK(f->start(), f->err); f->tune(true); std::string e; f->pf->setAutoSync(false, e); for (auto &p : std::vector<std::pair<std::string, std::string>>{{"u16", "50"}, {"enum", "five"}, {"enum_array", "eight min eight min"}, {"float", "1"}}) CHECK(f->set(S + p.first, p.second), f->err); f->domain("d"); f->conf("d", "c"); f->add("d", S + "u8"); f->pf->saveConfiguration("d", "c", e); f->dir = h::scratch(); if (chdir(f->dir.c_str())) h::fail("chdir"); return f; }
static std::string show(const std::string &c, const VS &a) { std::string s = c; for (auto &x : a) s += " [" + x + "]"; return s; }
SCEN(arguments) { auto cs = rcrits(); for (int n = 0; n < (h::thorough ? 40 : 4); n++) { auto f = mk(cs); std::unique_ptr<CommandHandlerInterface> ch(f->pf->createCommandHandler()); std::string help; CHECK(ch->process("help", {}, help), help); std::map<std::string, std::string> usage; { std::istringstream i(help); std::string l; while (std::getline(i, l)) { auto p = l.find("=> "); if (p == std::string::npos) continue; auto u = l.substr(0, p); usage[u.substr(0, u.find(' '))] = u; } }
    for (auto &c : CMDS) CHECK(usage.count(c), "help does not show " << c); std::map<std::string, size_t> least;
    for (auto &c : CMDS) { bool once = false; for (size_t k = 0; k < 7; k++) { VS a; for (size_t i = 0; i < k; i++) a.push_back(any(*f)); INPUT(show(c, a)); auto was = dump(*f); std::string out = "text left by the caller"; bool r; try { r = ch->process(c, a, out); } catch (std::exception &e) { h::fail(std::string("exception ") + e.what()); }
            bool few = out.compare(0, 37, "Not enough arguments supplied\nUsage:\n") == 0; if (few) { CHECK(!r && !once, "refused for too few arguments"); CHECK(dump(*f) == was, "refused, but something changed"); CHECK(out.substr(37, c.size() + 1) == c + " ", "usage is " << out); } else { once = true; if (!least.count(c)) least[c] = k; }
            if (!f->pf->isTuningModeOn()) f->tune(true); if (f->pf->isAutoSyncOn()) { std::string e; f->pf->setAutoSync(false, e); } } CHECK(once, "never accepted"); }
    for (auto &c : CMDS) { size_t m = 0; auto &u = usage[c]; for (size_t p = 0; (p = u.find('<', p)) != std::string::npos; p++) m++; if (u.find('[') != std::string::npos && c != "importDomainWithSettingsXML" && c != "setDomainWithSettingsXML") m = 0; static const std::set<std::string> WORD = {"setTuningMode", "setValueSpace", "setOutputRawFormat", "setAutoSync", "setSequenceAwareness"}; if (WORD.count(c)) m++; INPUT("least number of arguments of " << u); CHECK(least[c] == m, "is " << least[c]); }
    for (auto c : VS{"", "nope", "Status", "status ", " help", "versio", "versions", "setTuningMode on", "\n"}) { INPUT("unknown " << c); auto was = dump(*f); std::string out; std::string t = c; bool r = ch->process(c, {"d", "c"}, out); if (c == "status " || c == " help") continue; CHECK(!r && out == "Command not found!\nUse \"help\" to show available commands", "answered " << r << " " << out); CHECK(dump(*f) == was, "something changed"); } } }
struct Op { std::string c; VS a; std::function<int(FW &, std::string &)> api; bool value; };   // api: 1 done, 0 failed, -1 illegal words (usage)
static std::string join(const VS &a, size_t from) { std::string s; for (size_t i = from; i < a.size(); i++) s += (i > from ? " " : "") + a[i]; return s; }
static Op rop(FW &f, const std::vector<CritDef> &cs) { auto d = pick(DOMS), c = pick(CONFS), e = elem(), d2 = pick(DOMS), c2 = pick(CONFS); typedef std::string T; auto W = [](const T &w, const T &y, const T &n) { return w == y ? 1 : w == n ? 0 : -1; };
    switch (h::rnd(34)) {
    case 0: return {"createDomain", {d}, [=](FW &f, T &o) { return f.pf->createDomain(d, o); }, false}; case 1: return {"deleteDomain", {d}, [=](FW &f, T &o) { return f.pf->deleteDomain(d, o); }, false}; case 2: return {"renameDomain", {d, d2}, [=](FW &f, T &o) { return f.pf->renameDomain(d, d2, o); }, false};
    case 3: { auto w = pick({"true", "false", "TRUE", "1", "on"}); return {"setSequenceAwareness", {d, w}, [=](FW &f, T &o) { int b = W(w, "true", "false"); return b < 0 ? -1 : (int)f.pf->setSequenceAwareness(d, b, o); }, false}; }
    case 4: return {"getSequenceAwareness", {d}, [=](FW &f, T &o) { bool b; if (!f.pf->getSequenceAwareness(d, b, o)) return 0; o = b ? "true" : "false"; return 1; }, true};
    case 5: case 6: case 7: return {"addElement", {d, e}, [=](FW &f, T &o) { return f.pf->addConfigurableElementToDomain(d, e, o); }, false}; case 8: return {"removeElement", {d, e}, [=](FW &f, T &o) { return f.pf->removeConfigurableElementFromDomain(d, e, o); }, false}; case 9: return {"splitDomain", {d, e}, [=](FW &f, T &o) { return f.pf->split(d, e, o); }, false};
    case 10: case 11: return {"createConfiguration", {d, c}, [=](FW &f, T &o) { return f.pf->createConfiguration(d, c, o); }, false}; case 12: return {"deleteConfiguration", {d, c}, [=](FW &f, T &o) { return f.pf->deleteConfiguration(d, c, o); }, false}; case 13: return {"renameConfiguration", {d, c, c2}, [=](FW &f, T &o) { return f.pf->renameConfiguration(d, c, c2, o); }, false};
    case 14: case 15: return {"saveConfiguration", {d, c}, [=](FW &f, T &o) { return f.pf->saveConfiguration(d, c, o); }, false}; case 16: case 17: return {"restoreConfiguration", {d, c}, [=](FW &f, T &o) { core::Results r; if (f.pf->restoreConfiguration(d, c, r)) return 1; o = utility::asString(r); return 0; }, false};
    case 18: { VS a{d, c}; RT t = rgen(h::rnd(3), cs); std::istringstream i(rtext(t, cs)); T w; while (i >> w) a.push_back(w); if (h::rnd(6) == 0) a.push_back("x"); return {"setRule", a, [=](FW &f, T &o) { return f.pf->setApplicationRule(d, c, join(a, 2), o); }, false}; }
    case 19: return {"clearRule", {d, c}, [=](FW &f, T &o) { return f.pf->clearApplicationRule(d, c, o); }, false}; case 20: return {"getRule", {d, c}, [=](FW &f, T &o) { return f.pf->getApplicationRule(d, c, o); }, true};
    case 21: case 22: { VS a{e}; for (int i = 0, k = 1 + h::rnd(5); i < k; i++) a.push_back(pick({"1", "0", "7", "300", "-2", "max", "hello", "0x11"})); return {"setParameter", a, [=](FW &f, T &o) { T v = join(a, 1); return f.pf->accessParameterValue(e, v, true, o); }, false}; }
    case 23: return {"getParameter", {e}, [=](FW &f, T &o) { T v; if (!f.pf->accessParameterValue(e, v, false, o)) return 0; o = v; return 1; }, true};
    case 24: { VS a{d, c, e}; for (int i = 0, k = 1 + h::rnd(4); i < k; i++) a.push_back(pick({"1", "0", "7", "300", "-2", "five"})); return {"setConfigurationParameter", a, [=](FW &f, T &o) { T v = join(a, 3); return f.pf->accessConfigurationValue(d, c, e, v, true, o); }, false}; }
    case 25: return {"getConfigurationParameter", {d, c, e}, [=](FW &f, T &o) { T v; if (!f.pf->accessConfigurationValue(d, c, e, v, false, o)) return 0; o = v; return 1; }, true};
    case 26: { auto w = pick({"on", "off", "ON", ""}); return {"setTuningMode", {w}, [=](FW &f, T &o) { int b = W(w, "on", "off"); return b < 0 ? -1 : (int)f.pf->setTuningMode(b, o); }, false}; } case 27: { auto w = pick({"on", "off", "x"}); return {"setAutoSync", {w}, [=](FW &f, T &o) { int b = W(w, "on", "off"); return b < 0 ? -1 : (int)f.pf->setAutoSync(b, o); }, false}; }
    case 28: { auto w = pick({"raw", "real", "RAW"}); return {"setValueSpace", {w}, [=](FW &f, T &o) { int b = W(w, "raw", "real"); if (b >= 0) f.pf->setValueSpace(b); return b < 0 ? -1 : 1; }, false}; } case 29: { auto w = pick({"hex", "dec", "Hex"}); return {"setOutputRawFormat", {w}, [=](FW &f, T &o) { int b = W(w, "hex", "dec"); if (b >= 0) f.pf->setOutputRawFormat(b); return b < 0 ? -1 : 1; }, false}; }
    case 30: return {"sync", {}, [=](FW &f, T &o) { return f.pf->sync(o); }, false}; case 31: { VS a{d, c}; for (int i = 0, k = 1 + h::rnd(4); i < k; i++) a.push_back(elem()); return {"setElementSequence", a, [=](FW &f, T &o) { return f.pf->setElementSequence(d, c, VS(a.begin() + 2, a.end()), o); }, false}; }
    case 32: { bool s = h::rnd(2), one = h::rnd(2); if (one) return {"getDomainWithSettingsXML", {d}, [=](FW &f, T &o) { T x; if (!f.pf->exportSingleDomainXml(x, d, true, false, o)) return 0; o = x; return 1; }, true}; (void)s; return {"getDomainsWithSettingsXML", {}, [=](FW &f, T &o) { T x; if (!f.pf->exportDomainsXml(x, true, false, o)) return 0; o = x; return 1; }, true}; }
    default: { T x, err; bool one = h::rnd(2); bool raw = f.pf->isValueSpaceRaw(); f.pf->setValueSpace(false); bool ok = one ? f.pf->exportSingleDomainXml(x, d, true, false, err) : f.pf->exportDomainsXml(x, true, false, err); f.pf->setValueSpace(raw); if (!ok || h::rnd(4) == 0) x = "<broken"; auto w = pick({"", "", "overwrite", "over"}); if (!one) return {"setDomainsWithSettingsXML", {x}, [=](FW &f, T &o) { return f.pf->importDomainsXml(x, true, false, o); }, false}; VS a{x}; if (!w.empty()) a.push_back(w); return {"setDomainWithSettingsXML", a, [=](FW &f, T &o) { return w == "over" ? -1 : (int)f.pf->importSingleDomainXml(x, w == "overwrite", true, false, o); }, false}; } } }
SCEN(same) { auto cs = rcrits(); for (int n = 0; n < (h::thorough ? 60 : 6); n++) { auto a = mk(cs), b = mk(cs); std::unique_ptr<CommandHandlerInterface> ch(b->pf->createCommandHandler());
    for (int k = 0; k < (h::thorough ? 150 : 60); k++) { Op o = rop(*a, cs); INPUT(show(o.c, o.a)); std::string ea, out; int r = o.api(*a, ea); bool q = ch->process(o.c, o.a, out); CHECK(q == (r == 1), "command " << (q ? "succeeded" : "failed: " + out) << ", operation " << r << " " << ea);
        if (r == 1) CHECK(out == (o.value ? ea : "Done"), "answered " << out << " instead of " << (o.value ? ea : "Done")); else if (r == 0) CHECK(out == ea, "error " << out << " instead of " << ea); else CHECK(out.compare(0, o.c.size() + 1, o.c + " ") == 0, "usage expected: " << out); CHECK(dump(*a) == dump(*b), "after it: " << dump(*b) << " instead of " << dump(*a)); if (!a->pf->isTuningModeOn() && h::rnd(2)) { a->tune(true); b->tune(true); } } } }
SCEN(files) { auto cs = rcrits(); for (int n = 0; n < (h::thorough ? 30 : 4); n++) { auto a = mk(cs), b = mk(cs); std::unique_ptr<CommandHandlerInterface> ch(b->pf->createCommandHandler()); std::string e, x, y, out; for (int k = 0; k < 12; k++) { Op o = rop(*a, cs); std::string t; o.api(*a, t); t.clear(); o.api(*b, t); } a->tune(true); b->tune(true); a->raw(false); b->raw(false); if (!b->dom("d")) b->domain("d");
    auto rd = [](const std::string &p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); return s.str(); }; for (int with = 0; with < 2; with++) { INPUT("export of domains " << with); CHECK(ch->process(with ? "exportDomainsWithSettingsXML" : "exportDomainsXML", {b->dir + "/o.xml"}, out) && out == "Done", out); CHECK(b->pf->exportDomainsXml(x, with, false, e), e); CHECK(rd(b->dir + "/o.xml") == x, "file is " << rd(b->dir + "/o.xml"));
        auto c = mk(cs), d = mk(cs); std::unique_ptr<CommandHandlerInterface> ch2(c->pf->createCommandHandler()); bool q = ch2->process(with ? "importDomainsWithSettingsXML" : "importDomainsXML", {b->dir + "/o.xml"}, out), r = d->pf->importDomainsXml(b->dir + "/o.xml", with, true, e); CHECK(q == r, "import " << q << out << " / " << r << e); CHECK(dump(*c) == dump(*d), "imported as " << dump(*c)); }
    INPUT("one domain"); if (b->dom("d")) { CHECK(ch->process("exportDomainWithSettingsXML", {"d", b->dir + "/1.xml"}, out) && out == "Done", out); CHECK(b->pf->exportSingleDomainXml(x, "d", true, false, e), e); CHECK(rd(b->dir + "/1.xml") == x, "file"); for (auto w : VS{"", "overwrite", "nope"}) { auto c = mk(cs), d = mk(cs); std::unique_ptr<CommandHandlerInterface> ch2(c->pf->createCommandHandler()); VS g{b->dir + "/1.xml"}; if (!w.empty()) g.push_back(w); INPUT("import of one domain " << w); bool q = ch2->process("importDomainWithSettingsXML", g, out), r = w != "nope" && d->pf->importSingleDomainXml(b->dir + "/1.xml", w == "overwrite", true, true, e); CHECK(q == r, "import " << q << out << " / " << r << e); CHECK(dump(*c) == dump(*d), "imported as " << dump(*c)); } } } }
// the text made of the arguments from one on: those arguments, as received (trimmed, empty ones included), with one blank between two
SCEN(words) { FWOpt o; o.instances = "<StringParameter Name='s' MaxLength='60'/>"; FW f(o); CHECK(f.start(), f.err); f.tune(true); std::string e, out; f.pf->setAutoSync(false, e); f.domain("d"); f.conf("d", "c"); f.add("d", "/test/test/s"); std::unique_ptr<CommandHandlerInterface> ch(f.pf->createCommandHandler()); static const VS W{"", " ", "a", "bb", "x y", "", "1", "\t", " c "};
    for (int n = 0; n < (h::thorough ? 4000 : 400); n++) { VS a{"/test/test/s"}; std::string v; for (int k = 0, m = 1 + h::rnd(5); k < m; k++) { auto w = W[h::rnd(W.size())]; a.push_back(w); auto b = w.find_first_not_of(" \t"); v += (k ? " " : "") + (b == w.npos ? "" : w.substr(b, w.find_last_not_of(" \t") + 1 - b)); } INPUT(show("setParameter", a)); CHECK(ch->process("setParameter", a, out) && out == "Done", out); CHECK(ch->process("getParameter", {"/test/test/s"}, out) && out == v, "value is [" << out << "] instead of [" << v << "]");
        a.insert(a.begin(), {"d", "c"}); std::string was = v; CHECK(ch->process("setConfigurationParameter", a, out) && out == "Done", out); CHECK(ch->process("getConfigurationParameter", {"d", "c", "/test/test/s"}, out) && out == was, "value in the configuration is [" << out << "] instead of [" << was << "]"); } }
