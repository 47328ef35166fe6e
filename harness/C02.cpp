#include "fix.hpp"
struct F { int size, n, m; std::string name; };
static std::vector<F> cfgs() {
    std::vector<F> v; int k = 0;
    for (int size : {8, 16, 32}) for (auto nm : std::vector<std::pair<int, int>>{{0, 0}, {0, size - 1}, {size - 1, 0}, {3, 4}, {1, 5}, {2, 2}, {0, 3}, {7, 8}, {8, 2}, {15, 16}, {20, 3}, {3, 20}, {2, size - 3}, {size - 5, 4}})
        if (nm.first + nm.second + 1 <= size) v.push_back({size, nm.first, nm.second, "p" + std::to_string(k++)});
    return v;
}
static std::string xml(const std::vector<F> &v) {
    std::string o = "<IntegerParameter Signed='false' Size='32' Name='before' Mapping='Obj'/>";
    for (auto &c : v) o += "<FixedPointParameter Mapping='Obj' Name='" + c.name + "' Size='" + std::to_string(c.size) + "' Integral='" + std::to_string(c.n) + "' Fractional='" + std::to_string(c.m) + "'/>";
    return o + "<IntegerParameter Signed='false' Size='32' Name='after' Mapping='Obj'/>";
}
static uint64_t mask(int s) { return (1ull << s) - 1; }
static int64_t word(FW &f, const std::string &p, int size) { auto sl = f.slice(p); uint64_t w = 0; for (size_t i = 0; i < sl.size(); i++) w |= uint64_t(sl[i]) << (8 * i); return (w >> (size - 1)) & 1 ? (int64_t)(w | ~mask(size)) : (int64_t)w; }
static void onlyOwn(FW &f, const std::string &p, const std::vector<uint8_t> &m) { auto m2 = f.bb(); for (size_t i = 0; i < m.size(); i++) CHECK(m[i] == m2[i] || (i >= f.off(p) && i < f.off(p) + f.len(p)), "foreign byte " << i); }
static void stored(FW &f, const F &c, const std::string &p, double v) {
    int sh = c.size - (c.n + c.m + 1); int64_t w = word(f, p, c.size);
    CHECK((w & ((1ll << sh) - 1)) == 0, "not representable: " << w);
    double r = std::ldexp((double)(w >> sh), -c.m), q = std::ldexp(1, -c.m);
    CHECK(std::fabs(r - v) <= q, "stored " << r);
    f.raw(false); std::string t = f.get(p); char *e; double g = strtod(t.c_str(), &e);
    CHECK(!*e && g == r, "reads back '" << t << "' for " << r);
    double d; std::string er, s; auto hd = f.handle(p); CHECK(hd->getAsDouble(d, er) && d == r, "handle reads " << d << " for " << r); CHECK(hd->getAsString(s, er) && s == t, "handle text " << s);
}
static std::set<double> vals(const F &c) {
    double hi = std::ldexp(1, c.n) - std::ldexp(1, -c.m), lo = -std::ldexp(1, c.n), q = std::ldexp(1, -c.m); std::set<double> s;
    for (double b : {lo, hi, 0.0, q, -q, hi / 2, lo / 2}) for (double k : {0.0, 0.25, 0.5, 0.51, 0.99, 1.0, 1.5, 2.0}) { s.insert(b + k * q); s.insert(b - k * q); }
    for (double b : {lo, hi}) { s.insert(std::nextafter(b, 1e30)); s.insert(std::nextafter(b, -1e30)); }
    for (double b : {1e30, -1e30, 4294967296.0, -4294967296.0, 1e-30, 1e300, -1e300, 2147483648.0, 32768.0, 256.0, 1e15, 12345.678, -777.001}) s.insert(b);
    for (int i = 0; i < 12; i++) s.insert(lo + (hi - lo) * (h::rng()() / 4294967295.0));
    return s;
}
static std::string dt(double v) { char b[700]; snprintf(b, sizeof b, "%.17g", v); return b; }
SCEN(real) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true); f.set("/test/test/before", "4042322160"); f.set("/test/test/after", "252645135");
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; double hi = std::ldexp(1, c.n) - std::ldexp(1, -c.m), lo = -std::ldexp(1, c.n);
        for (double v : vals(c)) { INPUT("real " << dt(v) << " to Q" << c.n << "." << c.m << " on " << c.size << " bits"); bool ok = v >= lo && v <= hi; auto m = f.bb();
            bool r = f.set(p, dt(v)); CHECK(r == ok, (r ? "accepted" : "refused " + f.err));
            if (!r) CHECK(f.bb() == m && !f.err.empty(), "a refused write changed the settings"); else { onlyOwn(f, p, m); stored(f, c, p, v); } }
        for (std::string bad : {"", " ", "a", "1 ", " 1", "1a", "0x1", "0x", "1.5.2", "--1", "+", "1,5", "nan", "inf", "-inf", "1e999"}) { INPUT("'" << bad << "' to Q" << c.n << "." << c.m); auto m = f.bb(); CHECK(!f.set(p, bad), "accepted"); CHECK(f.bb() == m, "changed"); }
    }
}
SCEN(handles) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); std::string e;
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; auto hd = f.handle(p); double hi = std::ldexp(1, c.n) - std::ldexp(1, -c.m), lo = -std::ldexp(1, c.n);
        auto vs = vals(c); std::vector<double> w(vs.begin(), vs.end()); w.push_back(NAN); w.push_back(INFINITY); w.push_back(-INFINITY);
        for (double v : w) { INPUT("handle write of " << dt(v) << " to Q" << c.n << "." << c.m << " on " << c.size << " bits"); bool ok = v >= lo && v <= hi; auto m = f.bb(); e = "";
            bool r = hd->setAsDouble(v, e); CHECK(r == ok, (r ? "accepted" : "refused " + e)); if (!r) CHECK(f.bb() == m, "changed"); else { onlyOwn(f, p, m); stored(f, c, p, v); } }
        bool b; int32_t i; uint32_t u; auto m = f.bb();
        CHECK(!hd->setAsBoolean(true, e) && !hd->getAsBoolean(b, e) && !hd->setAsInteger(1, e) && !hd->getAsInteger(u, e) && !hd->setAsSignedInteger(1, e) && !hd->getAsSignedInteger(i, e) && f.bb() == m, "unsupported access");
    }
}
SCEN(raw) {
    auto cs = cfgs(); FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true); f.raw(true);
    for (auto &c : cs) { std::string p = "/test/test/" + c.name; std::set<int64_t> vs;
        for (int64_t b : std::vector<int64_t>{0, 1ll << (c.size - 1), -(1ll << (c.size - 1)), 1ll << c.size, -(1ll << c.size), 1ll << 31, 1ll << 32, -(1ll << 31), -(1ll << 32), 1ll << 33, 1ll << (c.n + c.m), -(1ll << (c.n + c.m))}) for (int d = -2; d <= 2; d++) vs.insert(b + d);
        for (int i = 0; i < 10; i++) vs.insert((int64_t)(h::rng()() & mask(c.size)) - (1ll << (c.size - 1)));
        for (int64_t v : vs) for (int form = 0; form < 2; form++) {
            if (form && v < 0) continue;
            std::ostringstream t; if (form) t << "0x" << std::hex << v; else t << v;
            INPUT("raw " << t.str() << " to Q" << c.n << "." << c.m << " on " << c.size << " bits");
            bool ok = form ? v <= (int64_t)mask(c.size) : v >= -(1ll << (c.size - 1)) && v < (1ll << (c.size - 1));
            int64_t num = form && (v >> (c.size - 1)) & 1 ? (int64_t)((uint64_t)v | ~mask(c.size)) : v;
            auto m = f.bb(); f.raw(true); bool r = f.set(p, t.str()); CHECK(r == ok, (r ? "accepted" : "refused " + f.err));
            if (!r) { CHECK(f.bb() == m, "changed"); continue; }
            onlyOwn(f, p, m); CHECK(word(f, p, c.size) == num, "stored " << word(f, p, c.size));
            f.hexf(false); CHECK(f.get(p) == std::to_string(num), "reads back " << f.get(p));
            char b[40]; snprintf(b, 40, "0x%0*llX", c.size / 4, (unsigned long long)((uint64_t)num & mask(c.size))); f.hexf(true); CHECK(f.get(p) == b, "hexadecimal reads back " << f.get(p)); f.hexf(false);
            f.raw(false); double want = std::ldexp((double)(num >> (c.size - c.n - c.m - 1)), -c.m); CHECK(strtod(f.get(p).c_str(), nullptr) == want, "real reads back " << f.get(p) << " for " << want);
        }
        f.raw(true); for (std::string bad : {"", " ", "a", "1.5", "1 ", "0x", "0xg", "0x-1", "99999999999999", "0x1ffffffffffffffff"}) { INPUT("raw '" << bad << "'"); auto m = f.bb(); CHECK(!f.set(p, bad), "accepted"); CHECK(f.bb() == m, "changed"); }
    }
}
SCEN(exhaustive8) {      // every raw pattern and every representable value of an 8 bit format
    std::vector<F> cs = {{8, 3, 4, "a"}, {8, 2, 2, "b"}, {8, 0, 7, "c"}}; FWOpt o; o.instances = xml(cs); FW f(o); f.tune(true);
    for (auto &c : cs) for (int k = -(1 << (c.n + c.m)) - 4; k <= (1 << (c.n + c.m)) + 4; k++) { std::string p = "/test/test/" + c.name; double v = std::ldexp((double)k, -c.m);
        INPUT("real " << v << " to Q" << c.n << "." << c.m); auto m = f.bb(); bool ok = k >= -(1 << (c.n + c.m)) && k < (1 << (c.n + c.m)); f.raw(false); CHECK(f.set(p, dt(v)) == ok, "accepted or refused wrongly");
        if (ok) { CHECK(word(f, p, 8) == (int64_t)k * (1 << (8 - c.n - c.m - 1)), "a representable number is stored exactly"); CHECK(strtod(f.get(p).c_str(), 0) == v, "reads " << f.get(p)); } else CHECK(f.bb() == m, "changed"); }
}
SCEN(structure) {
    for (int n = 0; n <= 9; n++) for (int m = 0; m <= 9; m++) { FWOpt o; o.start = false; o.instances = "<FixedPointParameter Name='a' Mapping='Obj' Size='8' Integral='" + std::to_string(n) + "' Fractional='" + std::to_string(m) + "'/>"; FW f(o); INPUT("Q" << n << "." << m << " on 8 bits"); CHECK(f.start() == (n + m + 1 <= 8), f.err); }
}
