#include "fix.hpp"
struct F { std::string lo, hi, name; float l, u; };
static std::vector<F> cfgs() {
    std::vector<F> v; int k = 0; auto add = [&](std::string l, std::string u) { v.push_back({l, u, "p" + std::to_string(k++), l.empty() ? -FLT_MAX : strtof(l.c_str(), 0), u.empty() ? FLT_MAX : strtof(u.c_str(), 0)}); };
    add("", ""); add("-5.5", "100.25"); add("0", "1"); add("-1", "0"); add("0.1", "0.3"); add("1e-40", "1e-38"); add("-3.4e38", "-1e30"); add("7", "7"); add("-0.7", "1e10"); add("16777216", "16777220"); return v;
}
static std::string xml(const std::vector<F> &v) { std::string o = "<IntegerParameter Signed='false' Size='32' Name='before' Mapping='Obj'/>"; for (auto &c : v) o += "<FloatingPointParameter Mapping='Obj' Size='32' Name='" + c.name + "'" + (c.lo.empty() ? "" : " Min='" + c.lo + "'") + (c.hi.empty() ? "" : " Max='" + c.hi + "'") + "/>"; return o + "<IntegerParameter Signed='false' Size='32' Name='after' Mapping='Obj'/>"; }
static uint32_t bitsOf(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static float ofBits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t word(FW &f, const std::string &p) { auto s = f.slice(p); CHECK(s.size() == 4, "size"); uint32_t w; memcpy(&w, s.data(), 4); return w; }
static void onlyOwn(FW &f, const std::string &p, const std::vector<uint8_t> &m) { auto m2 = f.bb(); for (size_t i = 0; i < m.size(); i++) CHECK(m[i] == m2[i] || (i >= f.off(p) && i < f.off(p) + 4), "foreign byte " << i); }
static std::string dt(double v, const char *fm = "%.17g") { char b[400]; snprintf(b, 400, fm, v); return b; }
static void reads(FW &f, const F &c, const std::string &p, float v) {      // every way of reading agrees
    f.raw(false); std::string t = f.get(p); char *e; float g = strtof(t.c_str(), &e); CHECK(!*e && g == v, "reads back '" << t << "' for " << dt(v));
    double d; std::string er, s; auto hd = f.handle(p); CHECK(hd->getAsDouble(d, er) && d == (double)v, "handle reads " << dt(d)); CHECK(hd->getAsString(s, er) && s == t, "handle text " << s);
    CHECK(c.l <= v && v <= c.u, "holds " << dt(v) << " out of its range");
}
static std::set<double> vals(const F &c) {
    std::set<double> s; for (double b : {(double)c.l, (double)c.u, 0.0, 1.0, -1.0, 0.1, 1e30, -1e30, 1e-45, -1e-45, 1e-38, 16777217.0, 3.14159265358979, (double)FLT_MAX, -(double)FLT_MAX, (double)FLT_MIN}) { s.insert(b); for (float x : {std::nextafterf((float)b, INFINITY), std::nextafterf((float)b, -INFINITY)}) if (std::isfinite(x)) { s.insert(x); s.insert((x + b) / 2); } }
    for (int i = 0; i < 25; i++) { float x = ofBits(h::rng()()); if (std::isfinite(x)) s.insert(x); s.insert(c.l + ((double)c.u - c.l) * (h::rng()() / 4294967295.0)); }
    return s;
}
SCEN(real_text) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true); f.set("/test/test/before", "4042322160"); f.set("/test/test/after", "252645135");
    for (auto &c : cs) { std::string p = "/test/test/" + c.name;
        for (double v : vals(c)) for (const char *fm : {"%.17g", "%.9g", "%g"}) { std::string t = dt(v, fm); float x = strtof(t.c_str(), 0); INPUT("text " << t << " to [" << c.lo << "," << c.hi << "]"); bool fin = std::isfinite(x), sub = fin && x != 0 && std::fabs(x) < FLT_MIN;
            bool ok = fin && x >= c.l && x <= c.u; auto m = f.bb(); f.raw(false); bool r = f.set(p, t);
            if (!sub) CHECK(r == ok, (r ? "accepted" : "refused " + f.err)); else CHECK(ok || !r, "accepted");
            if (!r) CHECK(f.bb() == m && !f.err.empty(), "a refused write changed the settings"); else { onlyOwn(f, p, m); CHECK(ofBits(word(f, p)) == x, "stored " << dt(ofBits(word(f, p)))); reads(f, c, p, x); } }
        for (std::string bad : {"", " ", "a", "1 ", " 1", "1a", "0x1", "0x", "1.5.2", "--1", "nan", "inf", "-inf", "1e999", "-1e999", "1e39", "-1e39", "NaN", "1,5"}) { INPUT("'" << bad << "'"); auto m = f.bb(); f.raw(false); CHECK(!f.set(p, bad), "accepted"); CHECK(f.bb() == m, "changed"); }
    }
}
SCEN(handles) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); std::string e;
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; auto hd = f.handle(p); auto vs = vals(c); std::vector<double> w(vs.begin(), vs.end()); for (double x : {(double)NAN, (double)INFINITY, -(double)INFINITY, 1e300, -1e300}) w.push_back(x);
        for (double v : w) { INPUT("handle write of " << dt(v) << " to [" << c.lo << "," << c.hi << "]"); bool ok = v >= c.l && v <= c.u; float x = (float)v; auto m = f.bb(); e = ""; bool r = hd->setAsDouble(v, e);
            if (ok) CHECK(r, "refused " << e); if (!r) CHECK(f.bb() == m && !e.empty(), "changed"); else { onlyOwn(f, p, m); CHECK(ofBits(word(f, p)) == x, "stored"); reads(f, c, p, x); } }
        bool b; int32_t i; uint32_t u; auto m = f.bb();
        CHECK(!hd->setAsBoolean(true, e) && !hd->getAsBoolean(b, e) && !hd->setAsInteger(1, e) && !hd->getAsInteger(u, e) && !hd->setAsSignedInteger(1, e) && !hd->getAsSignedInteger(i, e) && f.bb() == m, "unsupported access");
    }
}
SCEN(raw) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true);
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; std::set<uint32_t> ws = {0, 1, 2, 0x7fffff, 0x800000, 0x7f7fffff, 0x7f800000, 0x7f800001, 0x7fc00000, 0x7fffffff, 0x80000000, 0x80000001, 0x807fffff, 0xff7fffff, 0xff800000, 0xffc00000, 0xffffffff, 0xffbfffff, 0x3f800000, 0xbf800000};
        for (float b : {c.l, c.u}) for (int d = -2; d <= 2; d++) ws.insert(bitsOf(b) + d);
        for (int i = 0; i < 40; i++) ws.insert(h::rng()());
        for (int i = 0; i < 20; i++) ws.insert(bitsOf((float)(c.l + ((double)c.u - c.l) * (h::rng()() / 4294967295.0))));
        for (uint32_t w : ws) for (int form = 0; form < 2; form++) { std::ostringstream t; if (form) t << "0x" << std::hex << w; else t << w; float x = ofBits(w); INPUT("raw " << t.str() << " to [" << c.lo << "," << c.hi << "]");
            bool ok = std::isfinite(x) && x >= c.l && x <= c.u; auto m = f.bb(); f.raw(true); bool r = f.set(p, t.str()); CHECK(r == ok, (r ? "accepted" : "refused " + f.err));
            if (!r) { CHECK(f.bb() == m && !f.err.empty(), "changed"); continue; }
            onlyOwn(f, p, m); CHECK(word(f, p) == w, "stored " << word(f, p)); f.hexf(false); CHECK(f.get(p) == std::to_string(w), "reads back " << f.get(p));
            f.hexf(true); std::string hx = f.get(p); CHECK(hx.size() == 10 && hx.substr(0, 2) == "0x" && strtoul(hx.c_str(), 0, 16) == w, "hexadecimal reads back " << hx); f.hexf(false); reads(f, c, p, x); }
        f.raw(true); for (std::string bad : {"", " ", "a", "1.5", "1 ", "-1", "0x", "0xg", "0x-1", "4294967296", "0x100000000", "99999999999999999999"}) { INPUT("raw '" << bad << "'"); auto m = f.bb(); CHECK(!f.set(p, bad), "accepted"); CHECK(f.bb() == m, "changed"); }
    }
}
SCEN(structure) {
    struct { const char *a; bool ok; } t[] = {{"Min='1' Max='0'", false}, {"Min='1' Max='1'", true}, {"Min='-1' Max='-2'", false}, {"Size='32'", true}, {"Min='0.2' Max='0.1'", false}, {"Min='-2' Max='-1'", true}};
    for (auto &x : t) { FWOpt o; o.start = false; o.instances = std::string("<FloatingPointParameter Name='a' Mapping='Obj' ") + (strstr(x.a, "Size") ? "" : "Size='32' ") + x.a + "/>"; FW f(o); INPUT(x.a); CHECK(f.start() == x.ok, f.err); }
}
SCEN(arrays) {
    FWOpt o; o.instances = "<FloatingPointParameter Name='a' Mapping='Obj' Size='32' Min='-1' Max='2' ArrayLength='3'/>"; FW f(o); f.tune(true); std::string p = "/test/test/a", e;
    CHECK(f.set(p, "0.5 1.25 -1"), f.err); CHECK(f.get(p) == "0.5 1.25 -1", f.get(p)); CHECK(!f.set(p + "/1", "2.5"), "accepted"); CHECK(f.set(p + "/1", "2"), f.err); CHECK(f.get(p) == "0.5 2 -1", f.get(p));
    auto m = f.bb(); CHECK(!f.set(p + "/0", "3"), "accepted"); CHECK(f.bb() == m, "changed"); f.tune(false);
    auto hd = f.handle(p); CHECK(!hd->setAsDoubleArray({0, 0, 2.0001}, e), "accepted"); CHECK(hd->setAsDoubleArray({0, 1, 2}, e), e); std::vector<double> v; CHECK(hd->getAsDoubleArray(v, e) && v == (std::vector<double>{0, 1, 2}), "array");
}
