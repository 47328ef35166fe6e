#include "model.hpp"
SCEN(histories) { for (int n = 0; n < (h::thorough ? 300 : 20); n++) { MModel m; m.build(1 + h::rnd(4)); for (int r = 0; r < 60; r++) { m.tuningStep(0x3e6 | 2); m.state(r % 4 == 0); } m.tune(false); m.state(false); } }
SCEN(every_kind) {      // save, disturb every byte, restore: the bytes of the element come back and no other changes
    FWOpt o; o.instances = ALLPARAMS; FW f(o); f.tune(true); std::string e; auto &mem = f.mgr->_pMainParameterBlackboard->mBlackboard; auto scramble = [&] { for (auto &b : mem) b = h::rng()(); };
    for (const char *x : {"bool", "bool_array", "u16", "s8", "u8", "s32", "u32", "int_array", "fix", "fix_array", "float", "enum", "enum_array", "string", "bits", "block", "block/b", "blocks", "blocks/1", "blocks/1/y", "blocks/0", ""}) { std::string p = std::string("/test/test") + (*x ? "/" : "") + x, d = "d" + std::to_string(f.mgr->getConfigurableDomains()->getNbChildren()); f.domain(d); bool first = h::rnd(2); if (first) f.conf(d, "c"); scramble(); auto m0 = f.bb(); f.add(d, p); CHECK(f.bb() == m0, "adding an element changed the settings"); if (!first) { f.conf(d, "c"); CHECK(f.bb() == m0, "creating a configuration changed the settings"); }
        core::Results rs; size_t off = f.off(p), len = f.len(p); INPUT("restore of a fresh configuration of " << p); scramble(); auto m1 = f.bb(); CHECK(f.pf->restoreConfiguration(d, "c", rs), "restore"); auto m2 = f.bb(); for (size_t i = 0; i < m2.size(); i++) CHECK(m2[i] == (i >= off && i < off + len ? m0[i] : m1[i]), "byte " << i << " of element at " << off << "+" << len);
        for (int n = 0; n < 6; n++) { INPUT("save and restore of " << p); scramble(); m0 = f.bb(); CHECK(f.pf->saveConfiguration(d, "c", e), e); CHECK(f.bb() == m0, "saving changed the settings"); for (int k = h::rnd(3); k >= 0; k--) { scramble(); m1 = f.bb(); CHECK(f.pf->restoreConfiguration(d, "c", rs), "restore"); m2 = f.bb(); for (size_t i = 0; i < m2.size(); i++) CHECK(m2[i] == (i >= off && i < off + len ? m0[i] : m1[i]), "byte " << i << " of element at " << off << "+" << len); } } f.pf->deleteDomain(d, e); }
}
SCEN(unknown) { MModel m; m.build(2); std::string e; core::Results rs; auto b = m.f.bb(); INPUT("unknown names"); CHECK(!m.f.pf->saveConfiguration("nope", "c", e), "saved"); CHECK(!m.f.pf->saveConfiguration(m.doms[0].name, "nope", e), "saved"); CHECK(!m.f.pf->restoreConfiguration("nope", "c", rs), "restored"); CHECK(!m.f.pf->restoreConfiguration(m.doms[0].name, "nope", rs), "restored"); CHECK(m.f.bb() == b, "changed"); m.state(); }
SCEN(missing) { // a configuration loaded without the settings of an element takes those of the first configuration which has them, the current ones if none has
    for (int n = 0; n < (h::thorough ? 200 : 24); n++) { const std::vector<std::pair<std::string, std::string>> P = {{"p0", "IntegerParameter"}, {"p1", "IntegerParameter"}, {"p2", "IntegerParameter"}, {"p3", "IntegerParameter"}}; std::vector<std::string> el; for (auto &p : P) if (h::rnd(4)) el.push_back(p.first); if (el.empty()) el.push_back("p1"); int nc = 1 + h::rnd(4); std::vector<std::map<std::string, int>> v(nc);
        std::string x = "<ConfigurableDomain Name='D'><Configurations>"; for (int c = 0; c < nc; c++) x += "<Configuration Name='c" + std::to_string(c) + "'/>"; x += "</Configurations><ConfigurableElements>"; for (auto &q : el) x += "<ConfigurableElement Path='/test/test/" + q + "'/>"; x += "</ConfigurableElements><Settings>"; std::string tr = x;
        std::vector<int> ord(nc); for (int c = 0; c < nc; c++) ord[c] = c; for (int c : ord) { if (h::rnd(5) == 0) continue; x += "<Configuration Name='c" + std::to_string(c) + "'>"; for (auto &q : el) if (h::rnd(2)) { v[c][q] = 1 + h::rnd(255); x += "<ConfigurableElement Path='/test/test/" + q + "'><IntegerParameter Name='" + q + "'>" + std::to_string(v[c][q]) + "</IntegerParameter></ConfigurableElement>"; } x += "</Configuration>"; }
        x += "</Settings></ConfigurableDomain>"; INPUT(x); bool imp = h::rnd(2); FWOpt o = MModel::opt(); if (!imp) o.domains = x; FW f(o); f.tune(true); std::string e; std::map<std::string, int> cur; for (auto &q : el) cur[q] = 0;
        if (imp) { for (auto &q : el) f.set("/test/test/" + q, std::to_string(cur[q] = h::rnd(256))); CHECK(f.pf->importDomainsXml("<?xml version='1.0' encoding='UTF-8'?><ConfigurableDomains SystemClassName='test'>" + x + "</ConfigurableDomains>", true, false, e), e); }
        for (int c = 0; c < nc; c++) for (auto &q : el) { int w = cur[q]; for (int k = 0; k < nc; k++) if (v[k].count(q)) { w = v[k][q]; break; } if (v[c].count(q)) w = v[c][q]; std::string g; CHECK(f.pf->accessConfigurationValue("D", "c" + std::to_string(c), "/test/test/" + q, g, false, e), e); CHECK(g == std::to_string(w), "configuration c" << c << " holds " << g << " for " << q << ", not " << w); }
        for (int c = nc; c--;) { core::Results r; CHECK(f.pf->restoreConfiguration("D", "c" + std::to_string(c), r), "restore"); for (auto &q : el) { int w = cur[q]; for (int k = 0; k < nc; k++) if (v[k].count(q)) { w = v[k][q]; break; } if (v[c].count(q)) w = v[c][q]; CHECK(f.get("/test/test/" + q) == std::to_string(w), "after restoring c" << c << ": " << q << " is " << f.get("/test/test/" + q)); } } } }
