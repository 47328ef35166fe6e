#include "model.hpp"
SCEN(histories) {       // random domains, configurations and rules against the model
    for (int n = 0; n < (h::thorough ? 300 : 24); n++) { MModel m; m.build(1 + h::rnd(4)); for (int r = 0; r < 12; r++) { for (int k = h::rnd(6); k > 0; k--) m.tuningStep(); m.state(r % 3 == 0); m.tune(false); m.state(false); for (int k = 0; k < 8; k++) { for (int j = h::rnd(3); j > 0; j--) m.crit(); m.apply(); m.state(false); } m.tune(true); } }
}
SCEN(first_match) {     // all truth assignments of four configurations
    FWOpt o; o.instances = ALLPARAMS; std::vector<CritDef> cs; for (int i = 0; i < 4; i++) cs.push_back({"c" + std::to_string(i), false, {{"no", 0}, {"yes", 1}}}); FW f(o, cs); f.tune(true); f.domain("D"); f.add("D", "/test/test/u8"); std::string e;
    for (int i = 0; i < 4; i++) { auto c = "C" + std::to_string(i); f.conf("D", c); CHECK(f.confSet("D", c, "/test/test/u8", std::to_string(10 + i)), f.err); f.rule("D", c, "All{c" + std::to_string(i) + " Is yes}"); } f.conf("D", "none"); CHECK(f.confSet("D", "none", "/test/test/u8", "99"), f.err);
    int last = -1, val = 0; CHECK(f.set("/test/test/u8", "0"), f.err); for (int n = 0; n < 400; n++) { int b = n < 16 ? n : h::rnd(16); for (int i = 0; i < 4; i++) f.setCrit("c" + std::to_string(i), b >> i & 1); bool force = h::rnd(4) == 0; INPUT("matching configurations: " << std::hex << b << (force ? " forced" : "") << " after " << last); int want = -1; for (int i = 3; i >= 0; i--) if (b >> i & 1) want = i;
        if (n == 0 || force) { if (n) CHECK(f.tune(true), f.err); if (h::rnd(2)) { CHECK(f.set("/test/test/u8", "7"), f.err); val = 7; } hw.clear(); CHECK(f.tune(false), f.err); last = want; if (want >= 0) val = 10 + want; CHECK(hw.evs.size() == (want >= 0), "synchronisations " << hw.evs.size()); }
        else { hw.clear(); f.apply(); bool act = want >= 0 && want != last; CHECK(hw.evs.size() == act, "synchronisations " << hw.evs.size()); if (act) { last = want; val = 10 + want; } }
        CHECK(f.get("/test/test/u8") == std::to_string(val), "value " << f.get("/test/test/u8") << " for " << val); CHECK(f.last("D") == (last < 0 ? "<none>" : "C" + std::to_string(last)), "reported " << f.last("D"));
        std::string p = f.dom("D")->getPendingConfigurationName(); CHECK(p == (want < 0 ? "<none>" : want == last ? "" : "C" + std::to_string(want)), "pending " << p); }
}
SCEN(at_start) {        // configurations applied when the framework starts
    for (int v = 0; v < 3; v++) { INPUT("start with criterion " << v); FWOpt o; o.instances = ALLPARAMS; o.start = false; o.domains = "<ConfigurableDomain Name='D' SequenceAware='false'><Configurations><Configuration Name='a'><CompoundRule Type='All'><SelectionCriterionRule SelectionCriterion='c' MatchesWhen='Is' Value='one'/></CompoundRule></Configuration><Configuration Name='b'><CompoundRule Type='Any'><SelectionCriterionRule SelectionCriterion='c' MatchesWhen='IsNot' Value='zero'/></CompoundRule></Configuration><Configuration Name='n'/></Configurations><ConfigurableElements><ConfigurableElement Path='/test/test/u8'/></ConfigurableElements><Settings><Configuration Name='a'><ConfigurableElement Path='/test/test/u8'><IntegerParameter Name='u8'>11</IntegerParameter></ConfigurableElement></Configuration><Configuration Name='b'><ConfigurableElement Path='/test/test/u8'><IntegerParameter Name='u8'>22</IntegerParameter></ConfigurableElement></Configuration><Configuration Name='n'><ConfigurableElement Path='/test/test/u8'><IntegerParameter Name='u8'>33</IntegerParameter></ConfigurableElement></Configuration></Settings></ConfigurableDomain>";
        FW f(o, {{"c", false, {{"zero", 0}, {"one", 1}, {"two", 2}}}}); f.setCrit("c", v); CHECK(f.start(), f.err); CHECK(f.last("D") == (v == 0 ? "<none>" : v == 1 ? "a" : "b"), "applied " << f.last("D")); CHECK(f.get("/test/test/u8") == (v == 0 ? "0" : v == 1 ? "11" : "22"), "value " << f.get("/test/test/u8")); hw.clear(); f.apply(); CHECK(hw.evs.empty(), "applied twice"); }
}
