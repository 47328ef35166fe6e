#include "fix.hpp"
struct E { int size; std::string name; std::vector<std::pair<std::string, long>> v; };
static std::vector<E> cfgs() {
    std::vector<E> e = {
        {8, "a", {{"min", -128}, {"five", 5}, {"max", 127}}}, {8, "b", {{"zero", 0}}}, {8, "c", {{"m1", -1}, {"1", 2}, {"2", 1}, {"7", 7}, {"0x3", 9}}},
        {16, "d", {{"eight", 8}, {"min", -32768}, {"max", 32767}, {"a", -129}, {"b", 128}, {"c", 255}, {"d", 256}}},
        {32, "e", {{"min", -2147483648L}, {"max", 2147483647L}, {"m1", -1}, {"p", 65536}, {"q", -65536}, {"z", 0}}},
        {8, "f", {{"one", 1}, {"uno", 1}, {"two", 2}}}, {16, "g", {{"-5", 5}, {"5", -5}, {"with space", 3}, {"Case", 10}, {"case", 11}}}, {8, "h", {{"big", 300}, {"neg", -200}, {"ok", 44}}}};
    for (int i = 0; i < 4; i++) { E x{i % 2 ? 16 : 8, "r" + std::to_string(i), {}}; int n = 1 + h::rnd(12); for (int k = 0; k < n; k++) x.v.push_back({"L" + std::to_string(k), (long)h::rnd(i % 2 ? 65536 : 256) - (i % 2 ? 32768 : 128)}); e.push_back(x); }
    return e;
}
static std::string xml(const std::vector<E> &v) { std::string o = "<IntegerParameter Signed='false' Size='32' Name='before' Mapping='Obj'/>"; for (auto &c : v) { o += "<EnumParameter Mapping='Obj' Name='" + c.name + "' Size='" + std::to_string(c.size) + "'>"; for (auto &p : c.v) o += "<ValuePair Literal='" + p.first + "' Numerical='" + std::to_string(p.second) + "'/>"; o += "</EnumParameter>"; } return o + "<IntegerParameter Signed='false' Size='32' Name='after' Mapping='Obj'/>"; }
static long word(FW &f, const std::string &p, int size) { auto sl = f.slice(p); CHECK((int)sl.size() * 8 == size, "size"); uint64_t w = 0; for (size_t i = 0; i < sl.size(); i++) w |= uint64_t(sl[i]) << (8 * i); if ((w >> (size - 1)) & 1) w |= ~0ull << size; return (long)w; }
static void onlyOwn(FW &f, const std::string &p, const std::vector<uint8_t> &m) { auto m2 = f.bb(); for (size_t i = 0; i < m.size(); i++) CHECK(m[i] == m2[i] || (i >= f.off(p) && i < f.off(p) + f.len(p)), "foreign byte " << i); }
static bool fits(const E &c, long v) { return v >= -(1L << (c.size - 1)) && v < (1L << (c.size - 1)); }
static bool decl(const E &c, long v) { if (!fits(c, v)) return false; for (auto &p : c.v) if (p.second == v) return true; return false; }
static const std::pair<std::string, long> *lit(const E &c, const std::string &s) { for (auto &p : c.v) if (p.first == s) return &p; return nullptr; }
static bool paired(const E &c, const std::string &l, long v) { for (auto &p : c.v) if (p.first == l && p.second == v) return true; return false; }
static void reads(FW &f, const E &c, const std::string &p, long v) {
    CHECK(decl(c, v), "holds the undeclared value " << v); CHECK(word(f, p, c.size) == v, "stored " << word(f, p, c.size) << " for " << v);
    f.raw(false); std::string t = f.get(p); CHECK(paired(c, t, v), "reads '" << t << "' for " << v);
    int32_t i; std::string e, s; auto hd = f.handle(p); CHECK(hd->getAsSignedInteger(i, e) && i == v, "handle reads " << i << " for " << v); CHECK(hd->getAsString(s, e) && s == t, "handle text");
    uint64_t mask = (1ull << c.size) - 1, w = (uint64_t)v & mask; f.raw(true); f.hexf(true); std::string x = f.get(p); CHECK(x.size() == 2u + c.size / 4 && strtoull(x.c_str(), 0, 16) == w, "hexadecimal reads " << x << " for " << v);
    f.hexf(false); std::string d = f.get(p); CHECK(((uint64_t)strtoll(d.c_str(), 0, 10) & mask) == w, "raw reads " << d << " for " << v);
    // whatever is read in raw value space can be written back
    for (auto &y : {x, d}) { f.raw(true); CHECK(f.set(p, y), "raw '" << y << "' read from the parameter is refused: " << f.err); CHECK(word(f, p, c.size) == v, "raw '" << y << "' written back stores " << word(f, p, c.size)); }
    f.raw(false);
}
SCEN(literals) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true); f.set("/test/test/before", "4042322160"); f.set("/test/test/after", "252645135");
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; std::vector<std::string> ts; for (auto &q : c.v) { ts.push_back(q.first); ts.push_back(q.first + " "); ts.push_back(" " + q.first); ts.push_back(q.first.substr(0, q.first.size() - 1)); ts.push_back(q.first + "x"); }
        for (std::string s : {"", " ", "Min", "MAX", "0x", "1.5", "-", "+1", "1e1", "none", "L999"}) ts.push_back(s);
        for (auto &t : ts) { INPUT("literal '" << t << "' to " << c.name); f.raw(false); auto m = f.bb(); auto l = lit(c, t); char *e; errno = 0; long n = strtol(t.c_str(), &e, 10); bool isn = !t.empty() && !*e && (isdigit(t[0]) || t[0] == '-'); bool r = f.set(p, t);
            if (l) CHECK(r == fits(c, l->second), (r ? "accepted" : "refused " + f.err)); else if (!isn && t.find_first_of("0123456789") == t.npos) CHECK(!r, "accepted"); else if (isn && t.find(' ') == t.npos) CHECK(r == decl(c, n), (r ? "accepted" : "refused " + f.err));
            if (!r) CHECK(f.bb() == m && !f.err.empty(), "a refused write changed the settings"); else { onlyOwn(f, p, m); if (l) CHECK(paired(c, t, word(f, p, c.size)), "stored " << word(f, p, c.size)); reads(f, c, p, word(f, p, c.size)); } }
    }
}
static std::set<long> numbers(const E &c) { std::set<long> s; for (long b : {0L, 128L, 256L, 32768L, 65536L, 2147483648L, 4294967296L}) for (int k = -2; k <= 2; k++) { s.insert(b + k); s.insert(-b + k); } for (auto &p : c.v) for (int k = -1; k <= 1; k++) for (long a : {0L, 256L, -256L, 65536L, -65536L, 4294967296L}) s.insert(p.second + k + a); for (int i = 0; i < 10; i++) s.insert((long)(h::rng()() % (1u << c.size % 32)) - 100); return s; }
SCEN(numbers_real) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true);
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; for (long v : numbers(c)) { std::string t = std::to_string(v); if (lit(c, t)) continue; INPUT("number " << t << " to " << c.name); f.raw(false); auto m = f.bb(); bool r = f.set(p, t); CHECK(r == decl(c, v), (r ? "accepted" : "refused " + f.err)); if (!r) CHECK(f.bb() == m, "changed"); else { onlyOwn(f, p, m); reads(f, c, p, v); } } }
}
SCEN(numbers_raw) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true);
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; uint64_t mask = (1ull << c.size) - 1; for (long v : numbers(c)) for (int form = 0; form < 2; form++) { if (form && v < 0) continue; std::ostringstream t; if (form) t << "0x" << std::hex << v; else t << v; if (lit(c, t.str())) continue;
            INPUT("raw " << t.str() << " to " << c.name); f.raw(true); auto m = f.bb(); bool kept = v >= -(1L << (c.size - 1)) && v <= (long)mask; long n = (v & (1L << (c.size - 1))) ? (long)((uint64_t)v | ~mask) : (long)((uint64_t)v & mask); bool r = f.set(p, t.str());
            CHECK(r == (kept && decl(c, n)), (r ? "accepted" : "refused " + f.err)); if (!r) CHECK(f.bb() == m, "changed"); else { onlyOwn(f, p, m); reads(f, c, p, n); } } }
}
SCEN(handles) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); std::string e;
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; auto hd = f.handle(p); for (long v : numbers(c)) { int32_t i = (int32_t)v; INPUT("handle write of " << i << " to " << c.name); auto m = f.bb(); e = ""; bool r = hd->setAsSignedInteger(i, e); CHECK(r == decl(c, i), (r ? "accepted" : "refused " + e)); if (!r) CHECK(f.bb() == m, "changed"); else { onlyOwn(f, p, m); CHECK(word(f, p, c.size) == i, "stored"); int32_t g; CHECK(hd->getAsSignedInteger(g, e) && g == i, "reads " << g); } }
        for (auto &q : c.v) { INPUT("handle text " << q.first << " to " << c.name); auto m = f.bb(); bool r = hd->setAsString(q.first, e); CHECK(r == fits(c, q.second) , (r ? "accepted" : "refused " + e)); if (!r) CHECK(f.bb() == m, "changed"); else { std::string s; CHECK(hd->getAsString(s, e) && paired(c, s, word(f, p, c.size)) && paired(c, q.first, word(f, p, c.size)), "reads " << s); } } }
}
