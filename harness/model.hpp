// A reference model of domains, configurations and settings, run against the real framework on random histories.
#pragma once
#include "rules.hpp"

struct MConf { std::string name; std::shared_ptr<RT> rule; std::map<std::string, int> val; std::vector<std::string> order; };
struct MDom { std::string name; bool seq = false; std::vector<std::string> elems; std::vector<MConf> confs; std::string last = "<none>"; MConf *conf(const std::string &n) { for (auto &c : confs) if (c.name == n) return &c; return nullptr; } };
struct Ev { std::set<std::pair<std::string, std::vector<uint8_t>>> group; };     // syncers called together, with the bytes they see
static const char *MODEL_XML = R"(
  <IntegerParameter Signed="false" Size="8" Name="p0" Mapping="Obj"/><IntegerParameter Signed="false" Size="8" Name="p1" Mapping="Obj"/><IntegerParameter Signed="false" Size="8" Name="p2" Mapping="Obj"/>
  <ParameterBlock Name="K"><IntegerParameter Signed="false" Size="8" Name="x" Mapping="Obj"/><IntegerParameter Signed="false" Size="8" Name="y" Mapping="Obj"/><ParameterBlock Name="z" Mapping="Obj"><IntegerParameter Signed="false" Size="8" Name="u"/><IntegerParameter Signed="false" Size="8" Name="v"/></ParameterBlock></ParameterBlock>
  <IntegerParameter Signed="false" Size="8" Name="p3" Mapping="Obj"/>
  <ParameterBlock Name="S" Mapping="Obj"><IntegerParameter Signed="false" Size="8" Name="a"/><IntegerParameter Signed="false" Size="8" Name="b"/></ParameterBlock>
  <BitParameterBlock Size="8" Name="B" Mapping="Obj"><BitParameter Pos="0" Size="3" Max="7" Name="b0"/><BitParameter Pos="4" Size="2" Max="3" Name="b1"/></BitParameterBlock>
  <IntegerParameter Signed="false" Size="8" Name="p4" Mapping="Obj"/>)";
struct MModel {
    const std::string R = "/test/test/";
    std::vector<CritDef> cs = rcrits(); std::vector<int> st; std::vector<MDom> doms; std::map<std::string, int> cur; bool tuning = false; bool autosync = true; std::set<std::string> failing;
    FW f; std::string trace; int ndom = 0, nconf = 0;
    static FWOpt opt() { FWOpt o; o.instances = MODEL_XML; return o; }
    const std::vector<std::string> LEAF = {"p0", "p1", "p2", "K/x", "K/y", "K/z/u", "K/z/v", "p3", "S/a", "S/b", "B/b0", "B/b1", "p4"}, ELEM = {"p0", "p1", "p2", "K", "K/x", "K/y", "K/z", "K/z/u", "K/z/v", "p3", "S", "S/a", "S/b", "B", "B/b0", "B/b1", "p4"}, SYNC = {"p0", "p1", "p2", "K/x", "K/y", "K/z", "p3", "S", "B", "p4"};
    MModel() : f(opt(), rcrits()) { st.assign(cs.size(), 0); for (auto &l : LEAF) cur[l] = 0; hw.clear(); }
    static bool in(const std::string &a, const std::string &b) { return a == b || (a.size() > b.size() && a.compare(0, b.size() + 1, b + "/") == 0); }   // a is b or below it
    std::vector<std::string> leafs(const std::string &e) const { std::vector<std::string> o; for (auto &l : LEAF) if (in(l, e)) o.push_back(l); return o; }
    std::set<std::string> syncers(const std::string &e) const { std::set<std::string> o; for (auto &s : SYNC) if (in(e, s)) return {s}; for (auto &s : SYNC) if (in(s, e)) o.insert(s); return o; }
    std::vector<uint8_t> bytes(const std::string &s) { if (s == "B") return {uint8_t(cur["B/b0"] | cur["B/b1"] << 4)}; std::vector<uint8_t> o; for (auto &l : leafs(s)) o.push_back(cur[l]); return o; }
    int maxOf(const std::string &l) const { return l == "B/b0" ? 7 : l == "B/b1" ? 3 : 255; }
    MDom *dom(const std::string &n) { for (auto &d : doms) if (d.name == n) return &d; return nullptr; }
    void note(const std::string &s) { trace += s + "; "; if (trace.size() > 3000) trace = "..." + trace.substr(trace.size() - 2800); INPUT(trace); }
    Ev sync(const std::set<std::string> &s) { Ev e; for (auto &x : s) e.group.insert({R + x, bytes(x)}); return e; }
    MConf *first(MDom &d) { for (auto &c : d.confs) if (c.rule && rmean(*c.rule, st)) return &c; return nullptr; }
    std::vector<Ev> restore(MDom &d, MConf &c, bool syn) { std::vector<Ev> o; for (auto &e : c.order) { for (auto &l : leafs(e)) cur[l] = c.val[l]; if (syn && d.seq) o.push_back(sync(syncers(e))); } return o; }
    std::set<std::string> syncersOf(const MDom &d) const { std::set<std::string> o; for (auto &e : d.elems) { auto s = syncers(e); o.insert(s.begin(), s.end()); } return o; }
    // what an application of configurations has to do
    std::vector<Ev> application(bool force) {
        std::vector<Ev> o; std::set<std::string> all;
        for (int pass = 0; pass < 2; pass++) { for (auto &d : doms) if (d.seq == (pass == 1)) { if (force) d.last = "<none>"; auto c = first(d); if (!c || c->name == d.last) continue; auto ev = restore(d, *c, true); o.insert(o.end(), ev.begin(), ev.end()); d.last = c->name; if (!d.seq) { auto s = syncersOf(d); all.insert(s.begin(), s.end()); } } if (pass == 0) o.push_back(sync(all)); }
        return o;
    }
    void same(const std::vector<Ev> &want) {
        size_t i = 0; for (auto &w : want) { Ev got; std::string txt; for (size_t k = 0; k < w.group.size(); k++, i++) { CHECK(i < hw.evs.size(), "missing synchronisations: " << hw.evs.size() << " done"); got.group.insert({hw.evs[i].path, hw.evs[i].bytes}); txt += hw.evs[i].path + "=" + h::hex(hw.evs[i].bytes) + " "; CHECK(!hw.evs[i].back, "back synchronisation"); } std::string x; for (auto &g : w.group) x += g.first + "=" + h::hex(g.second) + " "; CHECK(got.group == w.group, "synchronised " << txt << " for " << x); }
        std::string more; for (size_t k = i; k < hw.evs.size(); k++) more += hw.evs[k].path + " "; CHECK(i == hw.evs.size(), "also synchronised: " << more); hw.clear();
    }
    void state(bool confs = true) {      // everything visible agrees with the model
        for (auto &l : LEAF) { auto v = f.get(R + l); CHECK(v == std::to_string(cur[l]), l << " reads " << v << " for " << cur[l]); }
        for (auto &d : doms) { CHECK(f.last(d.name) == d.last, "last applied of " << d.name << ": " << f.last(d.name) << " for " << d.last);
            if (confs) for (auto &c : d.confs) { for (auto &e : d.elems) for (auto &l : leafs(e)) { auto v = f.confGet(d.name, c.name, R + l); int w = d.last == c.name ? cur[l] : c.val[l]; CHECK(v == std::to_string(w), d.name << "/" << c.name << " holds " << v << " for " << l << ", not " << w); } std::string s, q; for (auto &e : c.order) s += R + e + "\n"; CHECK(f.mgr->getConfigurableDomains()->getElementSequence(d.name, c.name, q) && q == "\n" + s, "element sequence of " << d.name << "/" << c.name << ": " << q << " for " << s); } }
        CHECK(hw.evs.empty(), "unexpected synchronisation of " << hw.evs[0].path);
    }
    // ---- operations
    MDom &anyDom() { return doms[h::rnd(doms.size())]; }
    void tune(bool on) { note(on ? "tuning on" : "tuning off"); hw.clear(); CHECK(f.tune(on), f.err); bool was = tuning; tuning = on; if (was && !on) same(application(true)); else same({}); }
    void newDom() { MDom d; d.name = "D" + std::to_string(ndom++); d.seq = h::rnd(2); note("create " + d.name + (d.seq ? " (sequence aware)" : "")); f.domain(d.name); std::string e; CHECK(f.pf->setSequenceAwareness(d.name, d.seq, e), e); doms.push_back(d); }
    bool overlap(const MDom &d, const std::string &e) const { for (auto &x : d.elems) if (in(x, e) || in(e, x)) return true; return false; }
    const std::map<std::string, std::vector<std::string>> KIDS = {{"K", {"K/x", "K/y", "K/z"}}, {"K/z", {"K/z/u", "K/z/v"}}, {"S", {"S/a", "S/b"}}, {"B", {"B/b0", "B/b1"}}};
    static void drop(std::vector<std::string> &v, const std::string &e) { v.erase(std::remove(v.begin(), v.end(), e), v.end()); }
    void add() { auto &d = anyDom(); auto e = ELEM[h::rnd(ELEM.size())]; note("add " + e + " to " + d.name); bool ok = true; for (auto &x : d.elems) if (in(e, x)) ok = false;
        std::string er; bool r = f.pf->addConfigurableElementToDomain(d.name, R + e, er); CHECK(r == ok, (r ? "accepted" : "refused " + er)); if (!ok) { CHECK(!er.empty(), "no error given"); return; }
        std::vector<std::string> gone; for (auto &x : d.elems) if (in(x, e)) gone.push_back(x);
        for (auto &c : d.confs) { c.order.push_back(e); for (auto &l : leafs(e)) { bool keep = false; for (auto &g : gone) keep |= in(l, g); if (!keep) c.val[l] = cur[l]; } for (auto &g : gone) drop(c.order, g); }
        for (auto &g : gone) drop(d.elems, g); d.elems.push_back(e); }
    void remove() { auto &d = anyDom(); auto e = d.elems.empty() || !h::rnd(3) ? ELEM[h::rnd(ELEM.size())] : d.elems[h::rnd(d.elems.size())]; note("remove " + e + " from " + d.name); bool ok = std::find(d.elems.begin(), d.elems.end(), e) != d.elems.end(); std::string er; bool r = f.pf->removeConfigurableElementFromDomain(d.name, R + e, er); CHECK(r == ok, (r ? "accepted" : "refused " + er)); if (!ok) { CHECK(!er.empty(), "no error given"); return; } drop(d.elems, e); for (auto &c : d.confs) drop(c.order, e); }
    void split() { auto &d = anyDom(); auto e = d.elems.empty() || !h::rnd(3) ? ELEM[h::rnd(ELEM.size())] : d.elems[h::rnd(d.elems.size())]; note("split " + e + " of " + d.name); bool ok = std::find(d.elems.begin(), d.elems.end(), e) != d.elems.end() && KIDS.count(e); std::string er; bool r = f.pf->split(d.name, R + e, er); CHECK(r == ok, (r ? "accepted" : "refused " + er)); if (!ok) { CHECK(!er.empty(), "no error given"); return; } for (auto &k : KIDS.at(e)) { d.elems.push_back(k); for (auto &c : d.confs) c.order.push_back(k); } drop(d.elems, e); for (auto &c : d.confs) drop(c.order, e); }
    void delDom() { if (doms.size() < 2) return; size_t i = h::rnd(doms.size()); note("delete " + doms[i].name); std::string e; CHECK(f.pf->deleteDomain(doms[i].name, e), e); doms.erase(doms.begin() + i); }
    void rename() { auto &d = anyDom(); std::string e; if (h::rnd(2)) { auto &o = anyDom(); bool ok = true; std::string n = h::rnd(2) ? o.name : "D" + std::to_string(ndom++); for (auto &x : doms) if (x.name == n && &x != &d) ok = false; note("rename " + d.name + " to " + n); bool r = f.pf->renameDomain(d.name, n, e); if (n != d.name) CHECK(r == ok, (r ? "accepted" : "refused " + e)); if (ok && r) d.name = n; }
        else { if (d.confs.empty()) return; auto &c = d.confs[h::rnd(d.confs.size())]; auto &o = d.confs[h::rnd(d.confs.size())]; std::string n = h::rnd(2) ? o.name : "C" + std::to_string(nconf++); bool ok = true; for (auto &x : d.confs) if (x.name == n && &x != &c) ok = false; note("rename " + d.name + "/" + c.name + " to " + n); bool r = f.pf->renameConfiguration(d.name, c.name, n, e); if (n != c.name) CHECK(r == ok, (r ? "accepted" : "refused " + e)); if (ok && r) { if (d.last == c.name) d.last = n; c.name = n; } } }
    void structure() {  // lists, back links, areas and synchronisers agree with the model and with each other
        auto cd = f.mgr->getConfigurableDomains(); CHECK(cd->getNbChildren() == doms.size(), "number of domains");
        for (size_t i = 0; i < doms.size(); i++) { auto &d = doms[i]; auto x = static_cast<CConfigurableDomain *>(cd->getChild(i)); CHECK(x->getName() == d.name, "domain " << i << " is " << x->getName() << ", not " << d.name); CHECK(x->getParent() == cd, "parent of " << d.name);
            std::string l, s; for (auto &e : d.elems) s += R + e + "\n"; CHECK(cd->listDomainElements(d.name, l) && l == s, d.name << " lists " << l << " for " << s);
            CHECK(x->getNbChildren() == d.confs.size(), "configurations of " << d.name); std::set<std::string> el(d.elems.begin(), d.elems.end());
            for (size_t k = 0; k < d.confs.size(); k++) { auto c = static_cast<CDomainConfiguration *>(x->getChild(k)); CHECK(c->getName() == d.confs[k].name && c->getParent() == x, "configuration " << k << " of " << d.name); std::set<std::string> a; for (auto &y : c->mAreaConfigurationList) { a.insert(y->getConfigurableElement()->getPath().substr(R.size())); CHECK(y->isValid(), "settings of " << y->getConfigurableElement()->getPath() << " in " << d.name << "/" << c->getName() << " are not valid"); CHECK(y->_pSyncerSet == x->getSyncerSet(y->getConfigurableElement()), "synchronisers of an area"); } CHECK(a == el && c->mAreaConfigurationList.size() == d.elems.size(), "areas of " << d.name << "/" << c->getName()); }
            CHECK(x->_configurableElementToSyncerSetMap.size() == d.elems.size(), "synchroniser sets of " << d.name); std::set<std::string> sy; for (auto *q : x->_syncerSet._syncerSet) sy.insert(pathOf(q)); CHECK(sy == syncersOf(d), "synchronisers of " << d.name << ": " << join(sy) << " for " << join(syncersOf(d)));
            for (auto &m : x->_configurableElementToSyncerSetMap) { std::set<std::string> t; for (auto *q : m.second->_syncerSet) t.insert(pathOf(q)); auto e = m.first->getPath().substr(R.size()); CHECK(el.count(e) && t == syncers(e), "synchronisers of " << e << " in " << d.name << ": " << join(t)); } }
        for (auto &e : ELEM) { std::set<std::string> a, b; auto x = static_cast<CConfigurableElement *>(f.elem(R + e)); for (auto *q : x->_configurableDomainList) a.insert(q->getName()); for (auto &d : doms) if (std::find(d.elems.begin(), d.elems.end(), e) != d.elems.end()) b.insert(d.name); CHECK(a == b && x->_configurableDomainList.size() == b.size(), e << " is attached to " << join(a) << " for " << join(b));
            size_t n = 0; for (auto &d : doms) for (auto &y : d.elems) if (in(e, y)) { n++; break; } CHECK(x->getBelongingDomainCount() == n, e << " belongs to " << x->getBelongingDomainCount() << " domains, not " << n); }
        std::string conf, want; cd->listConflictingElements(conf);
    }
    static std::string join(const std::set<std::string> &s) { std::string o; for (auto &x : s) o += x + " "; return o; }
    std::string pathOf(ISyncer *q) { if (names.empty()) for (auto &s : SYNC) { CSyncerSet t; static_cast<CConfigurableElement *>(f.elem(R + s))->fillSyncerSet(t); names[*t._syncerSet.begin()] = s; } return names.count(q) ? names[q] : "?"; }
    std::map<ISyncer *, std::string> names;
    void newConf() { auto &d = anyDom(); MConf c; c.name = "C" + std::to_string(nconf++); note("create " + d.name + "/" + c.name); f.conf(d.name, c.name); c.order = d.elems; for (auto &e : d.elems) for (auto &l : leafs(e)) c.val[l] = d.confs.empty() ? cur[l] : d.confs[0].val[l]; d.confs.push_back(c); }
    void delConf() { auto &d = anyDom(); if (d.confs.empty()) return; size_t i = h::rnd(d.confs.size()); auto n = d.confs[i].name; note("delete " + d.name + "/" + n); std::string e; CHECK(f.pf->deleteConfiguration(d.name, n, e), e); if (d.last == n) d.last = "<none>"; d.confs.erase(d.confs.begin() + i); }
    void setRule() { auto &d = anyDom(); if (d.confs.empty()) return; auto &c = d.confs[h::rnd(d.confs.size())]; if (h::rnd(6) == 0) { note("clear rule of " + c.name); std::string e; CHECK(f.pf->clearApplicationRule(d.name, c.name, e), e); c.rule.reset(); return; } RT r = rgen(h::rnd(3), cs); auto t = rtext(r, cs); note("rule of " + d.name + "/" + c.name + ": " + t); f.rule(d.name, c.name, t); c.rule = std::make_shared<RT>(r); }
    void setParam() { auto l = LEAF[h::rnd(LEAF.size())]; int v = h::rnd(maxOf(l) + 1); note("set " + l + "=" + std::to_string(v)); hw.clear(); CHECK(f.set(R + l, std::to_string(v)), f.err); cur[l] = v; if (autosync) same({sync(syncers(l))}); else same({}); }
    void confSet() { auto &d = anyDom(); if (d.confs.empty() || d.elems.empty()) return; auto &c = d.confs[h::rnd(d.confs.size())]; auto ls = leafs(d.elems[h::rnd(d.elems.size())]); auto l = ls[h::rnd(ls.size())]; int v = h::rnd(maxOf(l) + 1); note("set " + l + "=" + std::to_string(v) + " in " + d.name + "/" + c.name); hw.clear(); CHECK(f.confSet(d.name, c.name, R + l, std::to_string(v)), f.err); c.val[l] = v; if (d.last == c.name) { cur[l] = v; if (autosync) { same({sync(syncers(l))}); return; } } same({}); }
    void save() { auto &d = anyDom(); if (d.confs.empty()) return; auto &c = d.confs[h::rnd(d.confs.size())]; note("save " + d.name + "/" + c.name); std::string e; hw.clear(); CHECK(f.pf->saveConfiguration(d.name, c.name, e), e); for (auto &x : d.elems) for (auto &l : leafs(x)) c.val[l] = cur[l]; same({}); }
    void restore() { auto &d = anyDom(); if (d.confs.empty()) return; auto &c = d.confs[h::rnd(d.confs.size())]; note("restore " + d.name + "/" + c.name); core::Results rs; hw.clear(); CHECK(f.pf->restoreConfiguration(d.name, c.name, rs), "restore"); auto ev = restore(d, c, autosync); d.last = c.name; if (autosync && !d.seq) ev.push_back(sync(syncersOf(d))); same(ev); }
    void sequence() { auto &d = anyDom(); if (d.confs.empty() || d.elems.empty()) return; auto &c = d.confs[h::rnd(d.confs.size())]; auto s = d.elems; std::shuffle(s.begin(), s.end(), h::rng()); s.resize(h::rnd(s.size() + 1)); int bad = s.empty() ? 0 : h::rnd(3); if (bad == 1) s.push_back(s[h::rnd(s.size())]); if (bad == 2) s.insert(s.begin() + h::rnd(s.size() + 1), "nothing");
        std::vector<std::string> p; std::string t; for (auto &x : s) { p.push_back(R + x); t += x + " "; } note("sequence " + t + "in " + d.name + "/" + c.name); std::string e; bool r = f.pf->setElementSequence(d.name, c.name, p, e); CHECK(r == (bad == 0), (r ? "accepted" : "refused " + e)); if (r) { auto o = s; for (auto &x : c.order) if (std::find(s.begin(), s.end(), x) == s.end()) o.push_back(x); c.order = o; } }
    void awareness() { auto &d = anyDom(); d.seq = h::rnd(2); note(d.name + (d.seq ? " sequence aware" : " not sequence aware")); std::string e; CHECK(f.pf->setSequenceAwareness(d.name, d.seq, e), e); }
    void crit() { size_t i = h::rnd(cs.size()); int v = 0; if (cs[i].incl) { for (auto &x : cs[i].vals) if (h::rnd(2)) v |= x.second; } else v = cs[i].vals[h::rnd(cs[i].vals.size())].second; note(cs[i].name + ":=" + std::to_string(v)); f.setCrit(cs[i].name, v); st[i] = v; same({}); }
    void apply() { note("apply"); hw.clear(); f.apply(); if (tuning) same({}); else same(application(false)); }
    void tuningStep(unsigned what = ~0u) { static const int W[] = {1, 2, 2, 1, 4, 5, 3, 3, 3, 3, 1, 1, 2, 2, 1, 1}; unsigned t = 0; for (int i = 0; i < 16; i++) if (what >> i & 1) t += W[i]; unsigned k = h::rnd(t); int i = 0; for (;; i++) if (what >> i & 1) { if (k < (unsigned)W[i]) break; k -= W[i]; }
        hw.clear(); switch (i) { case 0: newDom(); break; case 1: add(); break; case 2: newConf(); break; case 3: delConf(); break; case 4: setRule(); break; case 5: setParam(); break; case 6: confSet(); break; case 7: save(); break; case 8: restore(); break; case 9: sequence(); break; case 10: awareness(); break; case 11: apply(); break; case 12: remove(); break; case 13: split(); break; case 14: delDom(); break; case 15: rename(); break; } }
    void newDomOff() { tune(true); newDom(); tune(false); }
    void build(int nd) { tune(true); for (int i = 0; i < nd; i++) newDom(); for (int i = 0; i < nd * 4; i++) add(); for (int i = 0; i < nd * 3; i++) newConf(); for (int i = 0; i < nd * 3; i++) { setRule(); setParam(); confSet(); } state(); }
};
