#include "model.hpp"
SCEN(histories) { for (int n = 0; n < (h::thorough ? 300 : 20); n++) { MModel m; m.build(2 + h::rnd(4)); for (int r = 0; r < 14; r++) { for (int k = h::rnd(5); k > 0; k--) m.tuningStep(0xf3a); m.state(r % 3 == 0); m.tune(false); for (int k = 0; k < 6; k++) { for (int j = h::rnd(4); j > 0; j--) m.crit(); m.apply(); } m.state(false); m.tune(true); } } }
SCEN(sequences) {       // element sequences against a list model
    MModel m; m.tune(true); m.newDom(); for (int i = 0; i < 60; i++) m.add(); m.newConf(); m.newConf(); for (int i = 0; i < (h::thorough ? 4000 : 400); i++) { m.sequence(); m.state(true); if (h::rnd(4) == 0) m.restore(); }
}
SCEN(failing_syncers) { // every synchroniser is called even when some fail
    for (int n = 0; n < 30; n++) { hw.failing.clear(); MModel m; m.build(2); for (auto &s : m.SYNC) if (h::rnd(3) == 0) hw.failing.insert(m.R + s); m.tune(false); for (int k = 0; k < 6; k++) { m.crit(); m.apply(); } m.state(false); hw.failing.clear(); }
}
