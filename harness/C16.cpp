#include "model.hpp"
// every operation reserved to tuning, tried with tuning off: fails, says why, changes nothing
struct Snap { std::vector<uint8_t> bb; std::string xml; };
static Snap snap(MModel &m) { Snap s; s.bb = m.f.bb(); std::string e; CHECK(m.f.pf->exportDomainsXml(s.xml, true, false, e), e); return s; }
static std::string dompath(MModel &m, int &ci) { auto &d = m.doms[0]; ci = d.confs.empty() ? -1 : 0; return d.name; }
static void refused(MModel &m) {
    MModel x; x.build(2); std::string other, one, e; { core::Results r; x.f.pf->exportDomainsXml(other, true, false, e); x.f.pf->exportSingleDomainXml(one, x.doms[1].name, true, false, e); }
    std::string tag = "<ConfigurableDomain Name=\"" + x.doms[1].name; auto at = one.find(tag); if (at != std::string::npos) one.replace(at, tag.size(), "<ConfigurableDomain Name=\"New");
    auto fo = writeFile("domains.xml", other), f1 = writeFile("domain.xml", one); hw.clear();
    auto &pf = m.f.pf; const std::string R = m.R; std::unique_ptr<CommandHandlerInterface> ch(pf->createCommandHandler());
    for (auto &d : m.doms) { auto D = d.name; std::string C = d.confs.empty() ? "none" : d.confs[0].name, E = d.elems.empty() ? "p0" : d.elems[0], N; for (auto &l : m.ELEM) if (!m.overlap(d, l)) N = l; if (N.empty()) N = "p1";
        std::vector<std::string> seq; for (auto &x : d.elems) seq.insert(seq.begin(), R + x);
        typedef std::function<bool(std::string &)> Op;
        std::vector<std::pair<std::string, Op>> ops = {
            {"set parameter", [&](std::string &e) { std::string v = std::to_string(7 - (m.cur["p0"] == 7)); return pf->accessParameterValue(R + "p0", v, true, e); }},
            {"create domain", [&](std::string &e) { return pf->createDomain("Fresh", e); }}, {"delete domain", [&](std::string &e) { return pf->deleteDomain(D, e); }}, {"delete all domains", [&](std::string &e) { return pf->deleteAllDomains(e); }},
            {"sequence awareness", [&](std::string &e) { return pf->setSequenceAwareness(D, !d.seq, e); }}, {"create configuration", [&](std::string &e) { return pf->createConfiguration(D, "Fresh", e); }}, {"delete configuration", [&](std::string &e) { return pf->deleteConfiguration(D, C, e); }},
            {"save", [&](std::string &e) { return pf->saveConfiguration(D, C, e); }}, {"restore", [&](std::string &e) { core::Results r; bool b = pf->restoreConfiguration(D, C, r); for (auto &x : r) e += x; return b; }},
            {"add element", [&](std::string &e) { return pf->addConfigurableElementToDomain(D, R + N, e); }}, {"remove element", [&](std::string &e) { return pf->removeConfigurableElementFromDomain(D, R + E, e); }}, {"split", [&](std::string &e) { return pf->split(D, R + E, e); }},
            {"element sequence", [&](std::string &e) { return pf->setElementSequence(D, C, seq, e); }}, {"import", [&](std::string &e) { return pf->importDomainsXml(other, true, false, e); }}, {"import without settings", [&](std::string &e) { return pf->importDomainsXml(other, false, false, e); }},
            {"import one", [&](std::string &e) { return pf->importSingleDomainXml(one, false, true, false, e); }}, {"import one over", [&](std::string &e) { return pf->importSingleDomainXml(one, true, true, false, e); }}};
        auto cmd = [&](std::string c, std::vector<std::string> a) { ops.push_back({"command " + c, [&ch, c, a](std::string &e) { return ch->process(c, a, e); }}); };
        std::string S; for (auto &x : d.elems) S += x;
        cmd("setParameter", {R + "p0", std::to_string(7 - (m.cur["p0"] == 7))}); cmd("setElementBytes", {R + "p1", std::to_string(9 - (m.cur["p1"] == 9))}); std::string xml; ch->process("getElementXML", {R + "p2"}, xml); auto p = xml.find(">" + std::to_string(m.cur["p2"]) + "<"); CHECK(p != std::string::npos, xml); xml.replace(p, 1 + std::to_string(m.cur["p2"]).size(), ">" + std::to_string(9 - (m.cur["p2"] == 9))); cmd("setElementXML", {R + "p2", xml});
        cmd("createDomain", {"Fresh"}); cmd("deleteDomain", {D}); cmd("deleteAllDomains", {}); cmd("setSequenceAwareness", {D, d.seq ? "false" : "true"}); cmd("addElement", {D, R + N}); cmd("removeElement", {D, R + E}); cmd("splitDomain", {D, R + E}); cmd("createConfiguration", {D, "Fresh"}); cmd("deleteConfiguration", {D, C}); cmd("saveConfiguration", {D, C}); cmd("restoreConfiguration", {D, C}); std::vector<std::string> sa = {D, C}; sa.insert(sa.end(), seq.begin(), seq.end()); if (!seq.empty()) cmd("setElementSequence", sa);
        cmd("importDomainsXML", {fo}); cmd("importDomainsWithSettingsXML", {fo}); cmd("importDomainWithSettingsXML", {f1}); cmd("importDomainWithSettingsXML", {f1, "overwrite"}); cmd("setDomainsWithSettingsXML", {other}); cmd("setDomainWithSettingsXML", {one}); cmd("setDomainWithSettingsXML", {one, "overwrite"});
        auto before = snap(m);
        for (auto &o : ops) { INPUT(o.first << " with tuning off, after " << m.trace); std::string e; hw.clear(); bool r = o.second(e); CHECK(!r, "accepted"); CHECK(!e.empty(), "no error"); CHECK(hw.evs.empty(), "synchronised " << hw.evs[0].path); auto now = snap(m); CHECK(now.bb == before.bb, "settings changed"); CHECK(now.xml == before.xml, "domains changed"); }
        m.note("everything refused"); m.structure(); m.state(); if (!h::thorough && h::rnd(2)) break; }
}
SCEN(off) { for (int n = 0; n < (h::thorough ? 20 : 4); n++) { MModel m; m.build(1 + h::rnd(3)); m.tune(false); refused(m); m.crit(); m.apply(); m.tune(true); for (int i = 0; i < 20; i++) m.tuningStep(); m.tune(false); m.structure(); refused(m); } }
SCEN(never) { MModel m; m.newDomOff(); refused(m); }
SCEN(on) { for (int n = 0; n < (h::thorough ? 200 : 20); n++) { MModel m; m.build(1 + h::rnd(4)); for (int r = 0; r < 12; r++) { for (int i = 0; i < 4; i++) { m.crit(); auto b = m.f.bb(); m.apply(); CHECK(m.f.bb() == b, "an application in tuning mode changed the settings"); } m.tuningStep(); m.state(false); if (h::rnd(3) == 0) { m.tune(false); m.state(); if (h::rnd(2)) { m.crit(); m.apply(); m.state(); } m.tune(true); } } } }
SCEN(force) { for (int n = 0; n < 40; n++) { MModel m; m.build(2); m.tune(false); m.crit(); m.apply(); m.tune(true); for (int i = 0; i < 6; i++) m.setParam(); m.note("leaving must force"); m.tune(false); m.state(); } }
SCEN(same_state) { MModel m; std::string e; INPUT("off when off"); CHECK(!m.f.tune(false) && !m.f.err.empty(), "accepted"); m.tune(true); INPUT("on when on"); CHECK(!m.f.tune(true) && !m.f.err.empty(), "accepted"); CHECK(m.f.pf->isTuningModeOn(), "mode"); m.tune(false); CHECK(!m.f.pf->isTuningModeOn(), "mode"); }
SCEN(prohibited) { auto o = MModel::opt(); o.tuning = false; FW f(o, rcrits()); for (int i = 0; i < 3; i++) { INPUT("tuning prohibited"); CHECK(!f.tune(true), "entered"); CHECK(!f.err.empty(), "no error"); CHECK(!f.pf->isTuningModeOn(), "mode"); std::string e, v = "3"; CHECK(!f.set("/test/test/p0", "3"), "written"); CHECK(f.get("/test/test/p0") == "0", "changed"); CHECK(!f.pf->createDomain("D", e), "created"); } }
