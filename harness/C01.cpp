#include "fix.hpp"
struct Cfg { int size; bool sg; bool lim; int64_t lo, hi; std::string name; };
static std::vector<Cfg> cfgs() {
    std::vector<Cfg> v; int n = 0;
    for (int size : {8, 16, 32}) for (bool sg : {true, false}) {
        int64_t lo = sg ? -(1ll << (size - 1)) : 0, hi = sg ? (1ll << (size - 1)) - 1 : (1ll << size) - 1;
        std::vector<std::pair<int64_t, int64_t>> rs = {{lo, hi}, {3, 100}, {0, hi}, {5, 5}, {hi - 1, hi}, {lo, lo + 1}, {lo + 7, hi - 7}};
        if (!sg) rs.push_back({hi / 2 - 1, hi / 2 + 3});
        if (sg) { rs.push_back({-100, -50}); rs.push_back({-1, 0}); rs.push_back({lo, -1}); rs.push_back({-3, 90}); }
        for (auto &r : rs) { Cfg c{size, sg, true, r.first, r.second, "p" + std::to_string(n++)}; v.push_back(c); }
        v.push_back({size, sg, false, lo, hi, "p" + std::to_string(n++)});
    }
    return v;
}
static std::string xml(const std::vector<Cfg> &v) {
    std::ostringstream o; o << "<IntegerParameter Signed='false' Size='32' Name='before' Mapping='Obj'/>";
    for (auto &c : v) { o << "<IntegerParameter Mapping='Obj' Name='" << c.name << "' Size='" << c.size << "' Signed='" << (c.sg ? "true" : "false") << "'"; if (c.lim) o << " Min='" << c.lo << "' Max='" << c.hi << "'"; o << "/>"; }
    o << "<IntegerParameter Signed='false' Size='32' Name='after' Mapping='Obj'/>";
    return o.str();
}
static std::set<int64_t> values(const Cfg &c) {
    std::set<int64_t> s;
    for (int64_t b : std::vector<int64_t>{c.lo, c.hi, int64_t(0), -(1ll << (c.size - 1)), 1ll << (c.size - 1), 1ll << c.size, -(1ll << c.size), 1ll << 31, 1ll << 32, -(1ll << 31), 1ll << 16, 1ll << 8, -(1ll << 8), 1ll << 33, int64_t(1ull << 63)})
        for (int d = -2; d <= 2; d++) if (b != int64_t(1ull << 63) || d >= 0) s.insert(b + d);
    for (int i = 0; i < 6; i++) { s.insert(c.lo + (int64_t)(h::rng()() % (uint64_t)(c.hi - c.lo + 1))); s.insert((int32_t)h::rng()()); }
    return s;
}
static std::string hx(uint64_t v) { std::ostringstream o; o << "0x" << std::hex << v; return o.str(); }
static std::string HX(uint64_t v, int size) { char b[40]; snprintf(b, 40, "0x%0*llX", size / 4, (unsigned long long)v); return b; }
static uint64_t mask(int size) { return size == 64 ? ~0ull : (1ull << size) - 1; }
static void readBack(FW &f, const Cfg &c, const std::string &p, int64_t v) {
    CHECK(f.len(p) == size_t(c.size / 8), "size");
    auto sl = f.slice(p); uint64_t w = 0; for (size_t i = 0; i < sl.size(); i++) w |= uint64_t(sl[i]) << (8 * i);
    CHECK(w == ((uint64_t)v & mask(c.size)), "bytes " << h::hex(sl));
    f.raw(false); CHECK(f.get(p) == std::to_string(v), "reads back " << f.get(p));
    f.raw(true); f.hexf(false); CHECK(f.get(p) == std::to_string(v), "raw reads back " << f.get(p));
    f.hexf(true); CHECK(f.get(p) == HX((uint64_t)v & mask(c.size), c.size), "raw hexadecimal reads back " << f.get(p));
    f.raw(false);
}
SCEN(text) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true); f.set("/test/test/before", "4042322160"); f.set("/test/test/after", "4042322160");
    for (auto &c : cs) { std::string p = "/test/test/" + c.name;
        for (int64_t v : values(c)) for (bool raw : {false, true}) for (int form = 0; form < 2; form++) {
            if (form && v < 0 && ((uint64_t)v >> (c.size - 1)) != (mask(64 - c.size + 1))) { }
            std::string t = form ? hx(v < 0 ? (uint64_t)v & mask(c.size) : (uint64_t)v) : std::to_string(v);
            int64_t num = v; bool ok = v >= c.lo && v <= c.hi;
            if (form) { uint64_t u = v < 0 ? (uint64_t)v & mask(c.size) : (uint64_t)v; ok = u <= mask(c.size); num = c.sg && ok && (u >> (c.size - 1)) ? (int64_t)(u | ~mask(c.size)) : (int64_t)u; ok = ok && num >= c.lo && num <= c.hi; }
            INPUT((raw ? "raw " : "real ") << t << " to " << (c.sg ? "signed " : "unsigned ") << c.size << " bits [" << c.lo << ", " << c.hi << "]");
            auto m = f.bb(); f.raw(raw); bool r = f.set(p, t); f.raw(false);
            CHECK(r == ok, (r ? "accepted" : "refused: " + f.err));
            if (!r) { CHECK(f.bb() == m, "a refused write changed the settings"); CHECK(!f.err.empty(), "no error text"); }
            else { auto m2 = f.bb(); for (size_t i = 0; i < m.size(); i++) CHECK(m[i] == m2[i] || (i >= f.off(p) && i < f.off(p) + f.len(p)), "foreign byte"); readBack(f, c, p, num); }
        }
        for (std::string bad : {"", " ", "a", "1 ", " 1", "1a", "0x", "0xg", "1.5", "--1", "1e2", "+", "0x-1", "true", "99999999999999999999999", "-99999999999999999999", "0x1ffffffffffffffff"}) {
            INPUT("text '" << bad << "' to " << (c.sg ? "signed " : "unsigned ") << c.size); auto m = f.bb(); CHECK(!f.set(p, bad), "accepted"); CHECK(f.bb() == m, "changed"); }
    }
}
SCEN(handles) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o);
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; auto hd = f.handle(p); std::string e;
        for (int64_t v : values(c)) for (int kind = 0; kind < 3; kind++) {
            if (kind == 0 && (v < 0 || v > 0xffffffffll)) continue;
            if (kind == 1 && (v < INT32_MIN || v > INT32_MAX)) continue;
            bool ok = v >= c.lo && v <= c.hi; auto m = f.bb(); bool r; e = "";
            INPUT("handle write of " << v << (kind == 0 ? " (unsigned)" : kind == 1 ? " (signed)" : " (text)") << " to " << (c.sg ? "signed " : "unsigned ") << c.size << " bits [" << c.lo << ", " << c.hi << "]");
            if (kind == 0) r = hd->setAsInteger((uint32_t)v, e); else if (kind == 1) r = hd->setAsSignedInteger((int32_t)v, e); else r = hd->setAsString(std::to_string(v), e);
            CHECK(r == ok, (r ? "accepted" : "refused: " + e));
            if (!r) { CHECK(f.bb() == m, "a refused write changed the settings"); continue; }
            readBack(f, c, p, v);
            int32_t i; uint32_t u; std::string s;
            CHECK(hd->getAsSignedInteger(i, e) && (i == v || v > INT32_MAX), "signed read " << i);
            CHECK(hd->getAsInteger(u, e) && u == ((uint64_t)v & mask(c.size)), "unsigned read " << u);
            CHECK(hd->getAsString(s, e) && s == std::to_string(v), "text read " << s);
            bool b; double d; m = f.bb(); CHECK(!hd->setAsBoolean(true, e) && !hd->getAsBoolean(b, e) && !hd->setAsDouble(1, e) && !hd->getAsDouble(d, e) && f.bb() == m, "unsupported access");
        }
    }
}
SCEN(exhaustive8) {      // every 8 bit value through every kind of write
    std::vector<Cfg> cs = {{8, true, true, -100, 57, "a"}, {8, false, true, 17, 201, "b"}, {8, true, false, -128, 127, "c"}, {8, false, false, 0, 255, "d"}};
    FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true);
    for (auto &c : cs) for (int v = -300; v <= 300; v++) { std::string p = "/test/test/" + c.name; bool ok = v >= c.lo && v <= c.hi;
        INPUT("real " << v << " to " << c.name); auto m = f.bb(); bool r = f.set(p, std::to_string(v)); CHECK(r == ok, "accepted " << r); if (r) readBack(f, c, p, v); else CHECK(f.bb() == m, "changed"); }
}
SCEN(structure) {      // an empty range, a bad size are refused when the structure is loaded; default is the minimum
    hw.alive = false;
    for (auto b : {std::make_pair(5, 4), std::make_pair(5, 5), std::make_pair(-1, -2), std::make_pair(-2, 1)}) {
        FWOpt o; o.start = false; o.instances = "<IntegerParameter Name='a' Mapping='Obj' Size='16' Signed='true' Min='" + std::to_string(b.first) + "' Max='" + std::to_string(b.second) + "'/>";
        FW f(o); INPUT("range " << b.first << " " << b.second); CHECK(f.start() == (b.first <= b.second), f.err);
        if (f.started) CHECK(f.get("/test/test/a") == std::to_string(b.first), "default " << f.get("/test/test/a"));
    }
}
