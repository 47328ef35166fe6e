#include "model.hpp"
SCEN(histories) { for (int n = 0; n < (h::thorough ? 300 : 24); n++) { MModel m; m.build(1 + h::rnd(4)); m.structure(); for (int r = 0; r < 60; r++) { m.tuningStep(h::rnd(2) ? 0xf00f & ~8u : ~0u); m.structure(); m.state(r % 4 == 0); } m.tune(false); m.state(false); } }
SCEN(merge_split) { // an ancestor takes over the settings of its descendants, a split gives them back
    FWOpt o; o.instances = MODEL_XML; for (int n = 0; n < 60; n++) { MModel m; m.tune(true); m.newDom(); m.newConf(); m.newConf(); for (int i = 0; i < 12; i++) { m.add(); if (h::rnd(2)) m.confSet(); } m.state(); for (int i = 0; i < 25; i++) { m.setParam(); if (h::rnd(2)) m.split(); else m.add(); m.structure(); m.state(i % 3 == 0); if (h::rnd(4) == 0) m.restore(); } }
}
SCEN(unknown) { MModel m; m.build(2); std::string e; auto d = m.doms[0].name; auto bad = [&](bool r, const char *w) { INPUT(w); CHECK(!r, "accepted"); CHECK(!e.empty(), "no error"); e.clear(); m.structure(); m.state(); };
    bad(m.f.pf->addConfigurableElementToDomain("nope", "/test/test/p0", e), "add to an unknown domain"); bad(m.f.pf->addConfigurableElementToDomain(d, "/test/test/nope", e), "add an unknown element"); bad(m.f.pf->removeConfigurableElementFromDomain("nope", "/test/test/p0", e), "remove from an unknown domain"); bad(m.f.pf->removeConfigurableElementFromDomain(d, "/test/test/nope", e), "remove an unknown element"); bad(m.f.pf->split("nope", "/test/test/K", e), "split an unknown domain"); bad(m.f.pf->split(d, "/test/test/nope", e), "split an unknown element"); bad(m.f.pf->createDomain(d, e), "create an existing domain"); bad(m.f.pf->deleteDomain("nope", e), "delete an unknown domain"); bad(m.f.pf->deleteConfiguration(d, "nope", e), "delete an unknown configuration"); bad(m.f.pf->createConfiguration("nope", "c", e), "create a configuration in an unknown domain"); if (!m.doms[0].confs.empty()) bad(m.f.pf->createConfiguration(d, m.doms[0].confs[0].name, e), "create an existing configuration"); bad(m.f.pf->renameDomain("nope", "x", e), "rename an unknown domain"); bad(m.f.pf->renameConfiguration(d, "nope", "x", e), "rename an unknown configuration"); }
SCEN(deletion) { for (int n = 0; n < 10; n++) { MModel m; m.build(3); while (m.doms.size() > 1) { m.delDom(); m.structure(); m.state(); } std::string e; INPUT("delete all domains"); CHECK(m.f.pf->deleteAllDomains(e), e); m.doms.clear(); m.structure(); m.state(); } }
