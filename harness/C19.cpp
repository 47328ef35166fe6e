#include "fix.hpp"
#include "BitParameter.h"
// random structures, laid out in memory: computed sizes, gap-free placing, and no crosstalk between parameters
struct N { std::string name, xml; size_t size; std::vector<N> kids; int kind; size_t arr = 0, item = 0, pos = 0, bits = 0; };   // kind: 0 block 1 parameter 2 bit block 3 bit 4 string
static int cnt;
static N param(int depth, std::string nm = "") {
    N n; n.name = nm.empty() ? "e" + std::to_string(cnt++) : nm; size_t len = h::rnd(3) ? 0 : 1 + h::rnd(6); std::string al = len ? " ArrayLength=\"" + std::to_string(len) + "\"" : ""; std::string nn = " Name=\"" + n.name + "\""; static const int S[] = {8, 16, 32}; int s = S[h::rnd(3)];
    n.kind = 1; n.arr = len;
    switch (h::rnd(depth > 3 ? 6 : 9)) {
    case 0: n.item = 1; n.xml = "<BooleanParameter" + nn + al + "/>"; break;
    case 1: n.item = s / 8; n.xml = "<IntegerParameter Signed=\"" + std::string(h::rnd(2) ? "true" : "false") + "\" Size=\"" + std::to_string(s) + "\"" + nn + al + "/>"; break;
    case 2: n.item = s / 8; n.xml = "<FixedPointParameter Size=\"" + std::to_string(s) + "\" Integral=\"3\" Fractional=\"4\"" + nn + al + "/>"; break;
    case 3: n.item = 4; n.xml = "<FloatingPointParameter Size=\"32\"" + nn + al + "/>"; break;
    case 4: n.item = s / 8; n.xml = "<EnumParameter Size=\"" + std::to_string(s) + "\"" + nn + al + "><ValuePair Literal=\"a\" Numerical=\"1\"/><ValuePair Literal=\"b\" Numerical=\"100\"/></EnumParameter>"; break;
    case 5: { size_t m = 1 + h::rnd(20); n.kind = 4; n.arr = 0; n.item = m + 1; n.xml = "<StringParameter MaxLength=\"" + std::to_string(m) + "\"" + nn + "/>"; break; }
    case 6: { static const int B[] = {8, 16, 32, 64}; size_t b = B[h::rnd(4)]; n.kind = 2; n.arr = 0; n.item = b / 8; n.xml = "<BitParameterBlock Size=\"" + std::to_string(b) + "\"" + nn + ">"; size_t p = 0; while (p < b) { size_t w = 1 + h::rnd(std::min<size_t>(b - p, 12)); if (h::rnd(3)) { N k; k.kind = 3; k.name = "b" + std::to_string(p); k.size = k.item = 0; k.pos = p; k.bits = w; n.xml += "<BitParameter Name=\"" + k.name + "\" Pos=\"" + std::to_string(p) + "\" Size=\"" + std::to_string(w) + "\" Max=\"" + std::to_string((1u << w) - 1) + "\"/>"; n.kids.push_back(k); } p += w; } n.xml += "</BitParameterBlock>"; if (n.kids.empty()) return param(depth); break; }
    default: { n.kind = 0; n.arr = 0; n.item = 0; size_t k = 1 + h::rnd(4), rep = h::rnd(4) ? 0 : 1 + h::rnd(3); N b; b.kind = 0; for (size_t i = 0; i < k; i++) b.kids.push_back(param(depth + 1)); b.size = 0; std::string in; for (auto &c : b.kids) { b.size += c.size; in += c.xml; } n.xml = "<ParameterBlock" + nn + (rep ? " ArrayLength=\"" + std::to_string(rep) + "\"" : "") + ">" + in + "</ParameterBlock>"; if (!rep) n.kids = b.kids; else for (size_t i = 0; i < rep; i++) { b.name = std::to_string(i); n.kids.push_back(b); } n.size = b.size * (rep ? rep : 1); return n; } }
    n.size = n.item * (n.arr ? n.arr : 1); return n;
}
struct Leaf { std::string path; size_t off, len; const N *n; };
static void walk(CConfigurableElement *e, const N &n, const std::string &path, size_t off, std::vector<Leaf> &out) {
    CHECK(e->getOffset() == off, path << " is at " << e->getOffset() << ", not " << off); CHECK(e->getFootPrint() == n.size, path << " takes " << e->getFootPrint() << " bytes, not " << n.size);
    CHECK(e->getNbChildren() == n.kids.size(), path << " has " << e->getNbChildren() << " children"); if (n.kind == 1 || n.kind == 3 || n.kind == 4) out.push_back({path, off, n.size, &n});
    size_t o = off; std::set<std::string> seen; for (size_t i = 0; i < n.kids.size(); i++) { auto c = static_cast<CConfigurableElement *>(e->getChild(i)); const N *k = nullptr; for (auto &x : n.kids) if (x.name == c->getName()) k = &x; CHECK(k && seen.insert(c->getName()).second, "child " << i << " of " << path << " is " << c->getName()); walk(c, *k, path + "/" + k->name, o, out); o += k->size; }
    if (n.kind == 0) CHECK(o == off + n.size, "children of " << path << " end at " << o);
}
static std::string some(const N &n, bool x) { switch (n.kind) { case 3: return x ? std::to_string(h::rnd(1u << n.bits)) : "0"; case 4: { std::string s; for (size_t i = h::rnd(n.item); i > 0; i--) s += char('a' + h::rnd(26)); return x ? s : ""; } } return ""; }
static void crosstalk(FW &f, const std::vector<Leaf> &ls) {
    auto total = f.bb(); std::string er; CHECK(f.pf->setAutoSync(false, er), er);
    for (auto &l : ls) for (int k = 0; k < 2; k++) {
        std::vector<std::string> was; for (auto &o : ls) was.push_back(f.get(o.path)); auto before = f.bb();
        std::string v; if (l.n->kind == 1) { static const char *V[] = {"1", "0"}; for (size_t i = 0; i < (l.n->arr ? l.n->arr : 1); i++) v += (v.empty() ? "" : " ") + std::string(l.n->xml.find("<Enum") == 0 ? (k ? "b" : "a") : V[k]); } else v = some(*l.n, true);
        INPUT("set " << l.path << "=" << v); CHECK(f.set(l.path, v), f.err); auto after = f.bb(); CHECK(after.size() == total.size(), "memory size");
        size_t lo = l.off, hi = l.off + l.len; if (l.n->kind == 3) { hi = lo + 8 > after.size() ? after.size() : lo + 8; }
        for (size_t i = 0; i < after.size(); i++) CHECK(after[i] == before[i] || (i >= lo && i < hi), "byte " << i << " changes, outside " << lo << ".." << hi);
        for (size_t o = 0; o < ls.size(); o++) if (&ls[o] != &l) CHECK(f.get(ls[o].path) == was[o], ls[o].path << " changes from " << was[o] << " to " << f.get(ls[o].path)); }
}
SCEN(layout) { for (int n = 0; n < (h::thorough ? 400 : 60); n++) { cnt = 0; N root; root.kind = 0; root.size = 0; FWOpt o; int k = 1 + h::rnd(10); for (int i = 0; i < k; i++) { root.kids.push_back(param(0)); root.size += root.kids.back().size; o.instances += root.kids.back().xml; } INPUT(o.instances); 
    FW f(o); CHECK(f.start(), f.err); f.tune(true); std::vector<Leaf> ls; auto sub = static_cast<CConfigurableElement *>(f.elem("/test/test")); walk(sub, root, "/test/test", 0, ls); auto sys = static_cast<CConfigurableElement *>(f.elem("/test")); CHECK(sys->getFootPrint() == root.size && sys->getOffset() == 0, "system class"); CHECK(f.bb().size() == root.size, "the memory has " << f.bb().size() << " bytes, not " << root.size);
    std::unique_ptr<CommandHandlerInterface> ch(f.pf->createCommandHandler()); for (auto &l : ls) { std::string s; CHECK(ch->process("getElementSize", {l.path}, s), s); CHECK(s == std::to_string(l.len) + " byte(s)", l.path << ": " << s); } if (root.size < 400) crosstalk(f, ls); } }
SCEN(subsystems) { for (int n = 0; n < (h::thorough ? 60 : 10); n++) { cnt = 0; FWOpt o; std::vector<N> ss; N a; a.kind = 0; a.size = 0; a.name = "test"; for (int i = 0; i < 3; i++) { a.kids.push_back(param(1)); a.size += a.kids.back().size; o.instances += a.kids.back().xml; } ss.push_back(a);
    for (int s = 0; s < 3; s++) { N b; b.kind = 0; b.size = 0; b.name = "sub" + std::to_string(s); std::string in; for (int i = h::rnd(3); i >= 0; i--) { b.kids.push_back(param(1)); b.size += b.kids.back().size; in += b.kids.back().xml; } o.extraSubsystems += "<Subsystem Name='" + b.name + "' Type='" + (h::rnd(2) ? "H" : "Virtual") + "'><ComponentLibrary/><InstanceDefinition>" + in + "</InstanceDefinition></Subsystem>"; ss.push_back(b); }
    N root; root.kind = 0; root.size = 0; for (auto &s : ss) { root.size += s.size; root.kids.push_back(s); } INPUT(o.instances << o.extraSubsystems); FW f(o); CHECK(f.start(), f.err); f.tune(true); std::vector<Leaf> ls; walk(static_cast<CConfigurableElement *>(f.elem("/test")), root, "/test", 0, ls); CHECK(f.bb().size() == root.size, "the memory has " << f.bb().size() << " bytes, not " << root.size); if (root.size < 300) crosstalk(f, ls); } }
SCEN(components) { for (int n = 0; n < (h::thorough ? 60 : 10); n++) { cnt = 0; FWOpt o; std::vector<N> c; std::string lib; for (int i = 0; i < 3; i++) { N b; b.kind = 0; b.size = 0; std::string in; for (int j = h::rnd(3); j >= 0; j--) { b.kids.push_back(param(2)); b.size += b.kids.back().size; in += b.kids.back().xml; } b.name = "T" + std::to_string(i); lib += "<ComponentType Name=\"" + b.name + "\"" + (i ? " Extends=\"T" + std::to_string(i - 1) + "\"" : "") + ">" + in + "</ComponentType>"; if (i) { std::vector<N> k = c[i - 1].kids; k.insert(k.end(), b.kids.begin(), b.kids.end()); b.kids = k; b.size += c[i - 1].size; } c.push_back(b); }
    o.components = lib; N root; root.kind = 0; root.size = 0; for (int i = 0; i < 5; i++) { if (h::rnd(3) == 0) { root.kids.push_back(param(2)); o.instances += root.kids.back().xml; } else { N x = c[h::rnd(3)]; std::string t = x.name; x.name = "c" + std::to_string(i); size_t rep = h::rnd(3) ? 0 : 1 + h::rnd(3); o.instances += "<Component Name=\"" + x.name + "\" Type=\"" + t + "\"" + (rep ? " ArrayLength=\"" + std::to_string(rep) + "\"" : "") + "/>"; if (rep) { N y; y.kind = 0; y.name = x.name; y.size = x.size * rep; for (size_t r = 0; r < rep; r++) { x.name = std::to_string(r); y.kids.push_back(x); } x = y; } root.kids.push_back(x); } root.size += root.kids.back().size; }
    INPUT(lib << o.instances); FW f(o); CHECK(f.start(), f.err); f.tune(true); std::vector<Leaf> ls; walk(static_cast<CConfigurableElement *>(f.elem("/test/test")), root, "/test/test", 0, ls); CHECK(f.bb().size() == root.size, "the memory has " << f.bb().size() << " bytes, not " << root.size); if (root.size < 300) crosstalk(f, ls); } }
