// Path resolution, names, parent links: against the list of all elements read from the tree by name and parent only.
#include "model.hpp"
static const char *XML = R"(
  <IntegerParameter Signed="false" Size="8" Name="p" Mapping="Obj"/><IntegerParameter Signed="false" Size="8" Name="pp" Mapping="Obj"/>
  <ParameterBlock Name="K"><IntegerParameter Signed="false" Size="8" Name="x" Mapping="Obj"/><ParameterBlock Name="K"><IntegerParameter Signed="false" Size="8" Name="K" Mapping="Obj"/><IntegerParameter Signed="false" Size="8" Name="x" Mapping="Obj"/></ParameterBlock></ParameterBlock>
  <ParameterBlock Name="A" ArrayLength="12"><IntegerParameter Signed="false" Size="8" Name="v" Mapping="Obj"/></ParameterBlock>
  <BitParameterBlock Size="8" Name="B" Mapping="Obj"><BitParameter Pos="0" Size="3" Max="7" Name="b"/><BitParameter Pos="4" Size="2" Max="3" Name="b1"/></BitParameterBlock>
  <IntegerParameter Signed="false" Size="8" Name="test" Mapping="Obj"/>)";
static void walk(CElement *e, std::string at, std::map<std::string, CElement *> &all) {
    at += "/" + e->getName(); CHECK(!all.count(at), "two elements at " << at); all[at] = e; size_t n = e->getNbChildren();
    for (size_t i = 0; i < n; i++) { CElement *c = e->getChild(i); CHECK(c->_pParent == e, "parent link of " << c->getName()); walk(c, at, all); }
}
static std::vector<std::string> cut(const std::string &s) { std::vector<std::string> o; std::string c; for (char ch : s + "/") if (ch == '/') { if (!c.empty()) o.push_back(c); c.clear(); } else c += ch; return o; }
static std::string join(const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += "/" + x; return o; }
SCEN(paths) { FWOpt o; o.instances = XML; FW f(o); std::map<std::string, CElement *> all; walk(f.mgr->getSystemClass(), "", all);
    std::set<std::string> items; std::vector<std::string> known; for (auto &k : all) { known.push_back(k.first); for (auto &i : cut(k.first)) items.insert(i); } items.insert({"", " ", "0", "12", "v ", "k", "P", ".", "..", "/", "Block 1"}); std::vector<std::string> its(items.begin(), items.end());
    auto one = [&](const std::string &p) { INPUT("path '" << p << "'"); std::string e; std::unique_ptr<ElementHandle> h(f.pf->createElementHandle(p, e)); auto c = cut(p); if (c.empty() && h) { CHECK(p[0] == '/' && h->getPath() == "/test", "a path without items is not the root"); return; } auto a = all.find(join(c)); bool legal = !p.empty() && p[0] == '/' && a != all.end();
        CHECK(bool(h) == legal, (legal ? "an element of the tree is not found: " + e : std::string("resolved to ") + h->getPath())); if (h) { CHECK(&h->mElement == a->second, "another element: " << h->getPath()); CHECK(h->getPath() == "/" + join(std::vector<std::string>(c.begin(), c.end())).substr(1), h->getPath()); CHECK(h->getName() == c.back(), h->getName()); } else CHECK(!e.empty(), "no error"); };
    for (auto &k : all) { one(k.first); one(k.first + "/"); one(k.first + "//"); one("/" + k.first); one(k.first.substr(1)); one(k.first + "x"); one(k.first.substr(0, k.first.size() - 1)); for (auto &i : its) one(k.first + "/" + i); }
    for (int n = 0; n < (h::thorough ? 60000 : 6000); n++) { std::string p; if (h::rnd(3)) { p = known[h::rnd(known.size())]; auto c = cut(p); int k = h::rnd(4); if (k == 0 && c.size()) c.erase(c.begin() + h::rnd(c.size())); if (k == 1) c.insert(c.begin() + h::rnd(c.size() + 1), its[h::rnd(its.size())]); if (k == 2 && c.size()) c[h::rnd(c.size())] = its[h::rnd(its.size())]; p.clear(); for (auto &x : c) p += (h::rnd(9) ? "/" : "//") + x; } else { int k = h::rnd(6); for (int i = 0; i < k; i++) p += (h::rnd(12) ? "/" : "") + its[h::rnd(its.size())]; } one(p); }
    for (auto &a : all) for (auto &b : all) { INPUT(a.first << " below " << b.first); bool below = a.first.size() > b.first.size() && a.first.compare(0, b.first.size() + 1, b.first + "/") == 0; CHECK(a.second->isDescendantOf(b.second) == below, "isDescendantOf"); }
    for (auto &a : all) { INPUT(a.first); CHECK(a.second->getPath() == a.first, a.second->getPath()); for (auto &i : its) { auto q = all.find(a.first + "/" + i); CHECK(a.second->findChild(i) == (q == all.end() ? nullptr : q->second), "child " << i); } } }
SCEN(tuningpaths) { FWOpt o; o.instances = XML; FW f(o); f.tune(true); std::string e, v; for (auto p : {"/test/test/p", "/test/test/K/x", "/test/test/K/K/K", "/test/test/A/11/v", "/test/test/B/b1", "/test/test/test"}) { INPUT(p); f.set(p, "3"); CHECK(f.get(p) == "3", f.get(p)); }
    for (auto p : {"/test/test/q", "/test/test/K/y", "/test/test/K/K/K/K", "/test/test/A/12/v", "/test/test/A/011/v", "/test/test/B/b2", "/test", "/test/test/K", "/tes/test/p", "test/test/p", "/", "", "/testx/test/p", "/test/testx/p", "/test/test/p/0"}) { INPUT(p); v = "5"; CHECK(!f.pf->accessParameterValue(p, v, true, e), "accepted"); CHECK(!e.empty(), "no error"); }
    for (auto p : {"/test/test/p", "/test/test/K/x", "/test/test/K/K/K", "/test/test/A/11/v", "/test/test/B/b1", "/test/test/test"}) CHECK(f.get(p) == "3", p << " changed"); CHECK(f.get("/test/test/pp") == "0" && f.get("/test/test/K/K/x") == "0" && f.get("/test/test/B/b") == "0" && f.get("/test/test/A/10/v") == "0" && f.get("/test/test/A/1/v") == "0", "another one changed"); }
SCEN(names) { // domains and configurations: against lists of names
    for (int n = 0; n < (h::thorough ? 200 : 30); n++) { FWOpt o; o.instances = XML; FW f(o); f.tune(true); std::vector<std::pair<std::string, std::vector<std::string>>> m; std::string tr, e; const std::vector<std::string> N = {"a", "b", "c", "A", "a ", "ab", "Configurations", "ConfigurableDomains", "D/x"};
        auto fd = [&](const std::string &x) { return std::find_if(m.begin(), m.end(), [&](std::pair<std::string, std::vector<std::string>> &d) { return d.first == x; }); };
        for (int i = 0; i < 40; i++) { std::string a = N[h::rnd(N.size())], b = N[h::rnd(N.size())], c = N[h::rnd(N.size())]; auto d = fd(a); bool ok, r; e.clear(); std::ostringstream s; auto has = [&](const std::string &x) { return std::find(d->second.begin(), d->second.end(), x); };
            switch (h::rnd(6)) {
            case 0: s << "create domain '" << a << "'"; ok = d == m.end(); if (ok) m.push_back({a, {}}); r = f.pf->createDomain(a, e); break;
            case 1: s << "rename domain '" << a << "' to '" << b << "'"; ok = d != m.end() && fd(b) == m.end(); if (d != m.end() && a == b) continue; if (ok) d->first = b; r = f.pf->renameDomain(a, b, e); break;
            case 2: case 3: s << "create configuration '" << a << "'/'" << b << "'"; ok = d != m.end() && has(b) == d->second.end(); if (ok) d->second.push_back(b); r = f.pf->createConfiguration(a, b, e); break;
            case 4: s << "rename configuration '" << a << "'/'" << b << "' to '" << c << "'"; ok = d != m.end() && has(b) != d->second.end() && has(c) == d->second.end(); if (d != m.end() && b == c) continue; if (ok) *has(b) = c; r = f.pf->renameConfiguration(a, b, c, e); break;
            default: if (h::rnd(2)) { s << "delete domain '" << a << "'"; ok = d != m.end(); if (ok) m.erase(d); r = f.pf->deleteDomain(a, e); } else { s << "delete configuration '" << a << "'/'" << b << "'"; ok = d != m.end() && has(b) != d->second.end(); if (ok) d->second.erase(has(b)); r = f.pf->deleteConfiguration(a, b, e); } }
            tr += s.str() + "; "; INPUT(tr); CHECK(r == ok, (ok ? "refused: " : "accepted ") << e); CHECK(ok || !e.empty(), "no error");
            auto ds = f.mgr->getConfigurableDomains(); CHECK(ds->getNbChildren() == m.size(), "number of domains"); for (size_t k = 0; k < m.size(); k++) { auto cd = ds->getChild(k); CHECK(cd->getName() == m[k].first, "domain " << k << " is " << cd->getName()); CHECK(cd->_pParent == ds && ds->findChild(m[k].first) == cd, "links"); CHECK(cd->getNbChildren() == m[k].second.size(), "number of configurations"); for (size_t q = 0; q < m[k].second.size(); q++) { CHECK(cd->getChild(q)->getName() == m[k].second[q], "configuration " << q << " is " << cd->getChild(q)->getName()); CHECK(cd->getChild(q)->_pParent == cd, "parent of a configuration"); } } } } }
SCEN(children) { struct E : CElement { E(const std::string &n) : CElement(n) {} std::string getKind() const override { return "E"; } };
    for (int n = 0; n < (h::thorough ? 300 : 40); n++) { E root("root"), other("other"); std::vector<CElement *> ref; std::vector<std::unique_ptr<E>> own; std::string tr; for (int i = 0; i < 30; i++) { if (h::rnd(3) || ref.empty()) { own.emplace_back(new E("e" + std::to_string(i))); root.addChild(own.back().get()); ref.push_back(own.back().get()); tr += "add " + own.back()->getName() + "; "; } else { size_t k = h::rnd(ref.size()); CElement *c = ref[k]; tr += "remove " + c->getName() + "; "; root.removeChild(c); ref.erase(ref.begin() + k); INPUT(tr); CHECK(!c->isDescendantOf(&other), "descendant of a stranger"); CHECK(!root.findChild(c->getName()), "still there"); }
            INPUT(tr); CHECK(root.getNbChildren() == ref.size(), "number of children"); for (size_t k = 0; k < ref.size(); k++) CHECK(root.getChild(k) == ref[k] && ref[k]->_pParent == &root && root.findChild(ref[k]->getName()) == ref[k] && ref[k]->isDescendantOf(&root) && !root.isDescendantOf(ref[k]), "child " << k); } while (root.getNbChildren()) root.removeChild(root.getChild(size_t(0))); } }
