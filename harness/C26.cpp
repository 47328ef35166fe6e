// mapping keys are set once along a branch and found with their values
#include "fix.hpp"
#include "MappingData.h"
#include "FormattedSubsystemObject.h"
static std::string q(const std::string &s) { return "\"" + s + "\""; }
static std::vector<std::string> pieces(const std::string &s, char d) { std::vector<std::string> r; std::string t; for (char c : s + d) if (c == d) { if (!t.empty()) r.push_back(t); t.clear(); } else t += c; return r; }
template <class F> static void all(const std::string &alpha, unsigned n, F f) { std::string s; std::function<void(unsigned)> go = [&](unsigned k) { f(s); if (!k) return; for (char c : alpha) { s += c; go(k - 1); s.pop_back(); } }; go(n); }
static void data(const std::string &raw) {
    INPUT("mapping " << q(raw)); std::map<std::string, std::string> want; bool ok = true; std::string show;
    for (auto &p : pieces(raw, ',')) { size_t c = p.find(':'); std::string k = p.substr(0, c), v = c == p.npos ? "" : p.substr(c + 1); if (want.count(k)) { ok = false; break; } want[k] = v; }
    CMappingData d; std::string e; CHECK(d.init(raw, e) == ok, (ok ? "refused: " + e : "accepted")); CHECK(ok || !e.empty(), "refused without a message"); if (!ok) return;
    for (auto &kv : want) { const std::string *v = nullptr; CHECK(d.getValue(kv.first, v) && v && *v == kv.second, "key " << q(kv.first) << " is " << (v ? q(*v) : "not found")); show += (show.empty() ? "" : ", ") + kv.first + (kv.second.empty() ? "" : ":" + kv.second); }
    for (auto &k : {"", "a", "b", "aa", "ab", "zz", "a:b", ","}) { const std::string *v = nullptr; CHECK(d.getValue(k, v) == (want.count(k) > 0), "lookup of " << q(k)); }
    CHECK(d.asString().size() >= show.size(), "shown as " << q(d.asString())); }
SCEN(mapping_text) { all("ab:,", h::thorough ? 7 : 6, data); all("a: ,", 4, data); }
static std::string fmt(const std::string &s, size_t n, const std::map<size_t, std::string> &set) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '%' && i + 1 < s.size() && s[i + 1] > '0' && size_t(s[i + 1] - '0') <= n && set.count(s[i + 1] - '0')) { r += set.at(s[i + 1] - '0'); i++; } else r += s[i]; } return r; }
static void amend(const std::string &s, size_t first, size_t n, unsigned mask) {
    CMappingContext c(first + n); std::map<size_t, std::string> set; std::string key = "k"; static const std::string vals[9] = {"one", "%2", "", "4", "%", "six%6", "7", "8", "nine"};
    for (size_t i = 0; i < n; i++) if (mask >> i & 1) { set[i + 1] = vals[i]; c.setItem(first + i, &key, &vals[i]); }
    INPUT("amend " << q(s) << " with " << n << " keys from " << first << ", set: " << std::hex << mask); std::string r = CFormattedSubsystemObject::formatMappingValue(s, first, n, c); CHECK(r == fmt(s, n, set), q(r) << " instead of " << q(fmt(s, n, set))); }
SCEN(amendments) { for (unsigned m = 0; m < 4; m++) for (size_t f : {0, 2}) all("%12a", h::thorough ? 6 : 5, [&](const std::string &s) { amend(s, f, 2, m); });
    for (int i = 0; i < 3000; i++) { std::string s; for (unsigned k = h::rnd(20); k--;) s += h::rnd(2) ? "%" + std::string(1, '0' + h::rnd(11)) : std::string(1, h::rnd(4) ? 'a' + h::rnd(3) : (char)h::rnd(256)); amend(s, h::rnd(3), 1 + h::rnd(9), h::rnd(512)); } }
SCEN(context) { for (int r = 0; r < 2000; r++) { size_t n = 1 + h::rnd(6); CMappingContext c(n); std::vector<const std::string *> k(n), v(n); static const std::string names[4] = {"a", "b", "c", ""}, vals[5] = {"1", "0x10", "x", "", "a"};
    for (int s = 0; s < 12; s++) { size_t i = h::rnd(n); auto nk = &names[h::rnd(4)], nv = &vals[h::rnd(5)]; INPUT("run " << r << " step " << s << ": item " << i << " set to " << q(*nk) << " = " << q(*nv));
        CMappingContext before = c; bool ok = c.setItem(i, nk, nv); CHECK(ok == !v[i], (ok ? "accepted" : "refused")); if (!v[i]) k[i] = nk, v[i] = nv; (void)before;
        for (size_t j = 0; j < n; j++) { CHECK(c.iSet(j) == !!v[j], "item " << j << " set"); if (v[j]) CHECK(&c.getItem(j) == v[j], "item " << j << " is " << q(c.getItem(j))); CHECK(c.getItemAsInteger(j) == (v[j] && *v[j] == "1" ? 1u : v[j] && *v[j] == "0x10" ? 16u : 0u), "item " << j << " as a number"); CHECK(before.iSet(j) == (j == i && ok ? false : !!v[j]), "a copy shares item " << j); }
        for (auto &nm : names) { const std::string *w = nullptr; for (size_t j = 0; j < n && !w; j++) if (k[j] && *k[j] == nm) w = v[j]; auto g = c.getItem(nm); CHECK(g == w, "looking for " << q(nm) << " gives " << (g ? q(*g) : "nothing")); } } } }
// ---- a whole structure
struct Node { std::string map; int kind; std::vector<Node> kids; int size = 1; };
static int cnt;
static std::string xml(const Node &n) { std::string nm = "n" + std::to_string(cnt++), m = n.map.empty() ? "" : " Mapping=\"" + n.map + "\""; if (n.kind) { std::string r = "<ParameterBlock Name=\"" + nm + "\"" + m + ">"; for (auto &k : n.kids) r += xml(k); return r + "</ParameterBlock>"; } return "<IntegerParameter Name=\"" + nm + "\" Signed=\"false\" Size=\"" + std::to_string(8 * n.size) + "\"" + m + "/>"; }
static int bytes(const Node &n) { if (!n.kind) return n.size; int s = 0; for (auto &k : n.kids) s += bytes(k); return s; }
static bool twice(const Node &n) { std::set<std::string> ks; for (auto &p : pieces(n.map, ',')) if (!ks.insert(p.substr(0, p.find(':'))).second) return true; return false; }
static bool skip(const Node &n) { cnt++; if (twice(n)) return false; for (auto &k : n.kids) if (!skip(k)) return false; return true; }
static bool good(const Node &n, std::map<std::string, std::string> ctx, std::vector<std::string> &made) {
    std::string nm = "n" + std::to_string(cnt++); std::map<std::string, std::string> ks; bool obj = false; for (auto &p : pieces(n.map, ',')) { size_t c = p.find(':'); if (!ks.insert({p.substr(0, c), c == p.npos ? "" : p.substr(c + 1)}).second) return false; }
    for (auto &k : ks) if (k.first.substr(0, 3) == "Ctx" && !ctx.insert(k).second) return false;
    if (!n.map.empty()) { for (std::string o : {"Obj", "ObjNeed0", "Obj4"}) if (ks.count(o)) { if (o == "ObjNeed0" && !ctx.count("Ctx0")) return false; if (o == "Obj4" && bytes(n) > 4) return false; obj = true; std::string m = nm + "=" + ks[o]; for (auto &k : {"Ctx0", "Ctx1", "Ctx2"}) m += ";" + (ctx.count(k) ? ctx[k] : "-"); made.push_back(m); break; } if (!obj && !n.kind) return false; }
    for (auto &k : n.kids) { if (!(obj ? skip(k) : good(k, ctx, made))) return false; } return true; }
static Node rnode(int depth) { Node n; n.kind = depth && h::rnd(2); n.size = 1 << h::rnd(3); static const char *ks[] = {"Ctx0:a", "Ctx1:b", "Ctx2", "Obj:x", "Obj4", "ObjNeed0", "Other:1"}; for (auto *k : ks) if (!h::rnd(n.kind ? 5 : 4)) n.map += (n.map.empty() ? "" : ",") + std::string(k); if (!h::rnd(15)) n.map += n.map.empty() ? "" : ",Ctx0:again"; if (n.kind) for (unsigned k = 1 + h::rnd(2); k--;) n.kids.push_back(rnode(depth - 1)); return n; }
SCEN(branches) { for (int i = 0; i < (h::thorough ? 1200 : 250); i++) { Node a = rnode(3), b = rnode(2); cnt = 0; std::string sub = h::rnd(4) ? "" : "Ctx1:sub"; FWOpt o; o.mapping = sub; o.instances = xml(a); o.instances += xml(b); o.start = false; INPUT(o.instances << (sub.empty() ? "" : " below " + sub)); FW f(o); hw.made.clear(); std::map<std::string, std::string> ctx; if (!sub.empty()) ctx["Ctx1"] = "sub"; std::vector<std::string> made; cnt = 0; bool ok = good(a, ctx, made) && good(b, ctx, made); CHECK(f.start() == ok, (ok ? "refused: " + f.err : "accepted")); if (!ok) continue;
        auto join = [](const std::vector<std::string> &v) { std::string r; for (auto &x : v) r += x + " "; return r; }; CHECK(hw.made == made, "objects created: " << join(hw.made) << " instead of " << join(made)); } }
SCEN(object_of_deepest) { FWOpt o; o.instances = "<ParameterBlock Name=\"b\" Mapping=\"Ctx0:v\"><IntegerParameter Name=\"x\" Size=\"8\" Mapping=\"ObjNeed0:1\"/><ParameterBlock Name=\"c\" Mapping=\"Obj:2\"><IntegerParameter Name=\"y\" Size=\"8\"/></ParameterBlock></ParameterBlock><IntegerParameter Name=\"z\" Size=\"8\" Mapping=\"Ctx0:w,ObjNeed0:3\"/>"; FW f(o); CHECK(f.started, f.err); f.tune(true); 
    for (auto p : {std::make_pair("/test/test/b/x", "b/x"), std::make_pair("/test/test/b/c/y", "b/c"), std::make_pair("/test/test/z", "z")}) { hw.clear(); INPUT("write " << p.first); bool ok = f.set(p.first, "1"); CHECK(ok && hw.evs.size() == 1, f.err << hw.evs.size() << " synchronisations"); CHECK(hw.evs[0].path.find(p.second) != std::string::npos, hw.evs[0].path); }
    std::string m; std::unique_ptr<CommandHandlerInterface> ch(f.pf->createCommandHandler()); CHECK(ch->process("showMapping", {"/test/test/b/x"}, m) && m.find("Ctx0:v") != m.npos && m.find("ObjNeed0:1") != m.npos, "mapping shown: " << m); }
