#include "fix.hpp"
struct L { std::string name; bool sg; int size, num, den, off; };
static std::vector<L> lins() { std::vector<L> v; int k = 0; for (int sg = 0; sg < 2; sg++) for (int size : {8, 16, 32}) for (auto nd : std::vector<std::pair<int, int>>{{1, 1}, {2, 1}, {1, 2}, {49, 1}, {1, 49}, {3, 7}, {100, 3}, {-1, 1}, {-3, 7}, {10, 1}}) for (int o : {0, 5, -7, 1000}) v.push_back({"p" + std::to_string(k++), (bool)sg, size, nd.first, nd.second, o}); return v; }
static std::string xml(const std::vector<L> &v) { std::string o; for (auto &l : v) o += "<IntegerParameter Mapping='Obj' Name='" + l.name + "' Signed='" + (l.sg ? "true" : "false") + "' Size='" + std::to_string(l.size) + "'><LinearAdaptation SlopeNumerator='" + std::to_string(l.num) + "' SlopeDenominator='" + std::to_string(l.den) + "' Offset='" + std::to_string(l.off) + "'/></IntegerParameter>"; return o; }
static int64_t word(FW &f, const std::string &p, bool sg) { auto sl = f.slice(p); uint64_t w = 0; int n = sl.size() * 8; for (size_t i = 0; i < sl.size(); i++) w |= uint64_t(sl[i]) << (8 * i); if (sg && ((w >> (n - 1)) & 1)) w |= n == 64 ? 0 : ~0ull << n; return (int64_t)w; }
static void poke(FW &f, const std::string &p, int64_t w) { auto &m = f.mgr->_pMainParameterBlackboard->mBlackboard; for (size_t i = 0; i < f.len(p); i++) m[f.off(p) + i] = (uint8_t)(w >> (8 * i)); }
SCEN(linear) {      // the user value of every stored integer, written back, stores it again
    auto ls = lins(); FWOpt o; o.instances = xml(ls); FW f(o); std::string e;
    for (auto &l : ls) { std::string p = "/test/test/" + l.name; auto hd = f.handle(p); int64_t lo = l.sg ? -(1ll << (l.size - 1)) : 0, hi = l.sg ? (1ll << (l.size - 1)) - 1 : (1ll << l.size) - 1; std::set<int64_t> s;
        if (l.size == 8) for (int64_t k = lo; k <= hi; k++) s.insert(k); else { for (int64_t b : {lo, hi, (int64_t)0, lo / 2, hi / 2, (int64_t)l.off}) for (int d = -3; d <= 3; d++) if (b + d >= lo && b + d <= hi) s.insert(b + d); for (int i = 0; i < 40; i++) s.insert(lo + (int64_t)(((uint64_t)h::rng()() << 20) % (uint64_t)(hi - lo + 1))); }
        for (int64_t k : s) { INPUT("stored " << k << " with slope " << l.num << "/" << l.den << " offset " << l.off << " on " << l.size << " bits"); poke(f, p, k); double u; CHECK(hd->getAsDouble(u, e), e); double want = double(k - l.off) * l.den / l.num; CHECK(std::fabs(u - want) <= 1e-9 * std::max(1.0, std::fabs(want)), "user value " << u << " for " << want); poke(f, p, l.off >= lo && l.off <= hi ? l.off : 0); CHECK(hd->setAsDouble(u, e), "writing back " << u << ": " << e); CHECK(word(f, p, l.sg) == k, "stores " << word(f, p, l.sg)); }
        for (double u : {1e300, -1e300, 1e19, -1e19, 9.3e18, (double)INFINITY, (double)-INFINITY, 1e12, -1e12}) { INPUT("user value " << u << " with slope " << l.num << "/" << l.den << " offset " << l.off); double x = u * l.num / l.den + l.off; auto m = f.bb(); bool r = hd->setAsDouble(u, e); CHECK(r == (x >= lo - 0.4 && x <= hi + 0.4), (r ? "accepted" : "refused " + e)); if (!r) CHECK(f.bb() == m, "changed"); }
        for (int i = 0; i < 30; i++) { int64_t a = lo + (int64_t)(((uint64_t)h::rng()() << 16) % (uint64_t)(hi - lo + 1)); double fr = (h::rng()() % 1000) / 1000.0; double t = a + fr; double u = (t - l.off) * l.den / l.num; if (t > hi || std::fabs(fr - 0.5) < 0.01) continue; INPUT("user value " << u << " with slope " << l.num << "/" << l.den << " offset " << l.off); CHECK(hd->setAsDouble(u, e), e); CHECK(std::llabs(word(f, p, l.sg) - (int64_t)std::floor(t + 0.5)) <= 0 || std::fabs(t) > 1e9, "stores " << word(f, p, l.sg) << " for " << t); }
    }
}
SCEN(refused_structures) {
    struct { const char *a; bool ok; } t[] = {{"SlopeNumerator='0'", false}, {"SlopeDenominator='0'", false}, {"SlopeNumerator='0' SlopeDenominator='0'", false}, {"SlopeNumerator='1'", true}, {"SlopeDenominator='3'", true}, {"", true}, {"Offset='3'", true}, {"SlopeNumerator='-2' SlopeDenominator='-5'", true}};
    for (auto &x : t) for (const char *k : {"LinearAdaptation", "LogarithmicAdaptation"}) { FWOpt o; o.start = false; INPUT(k << " " << x.a); o.instances = std::string("<IntegerParameter Mapping='Obj' Name='a' Signed='true' Size='32'><") + k + " " + x.a + "/></IntegerParameter>"; FW f(o); CHECK(f.start() == x.ok, f.err); }
}
SCEN(logarithmic) {
    struct { double base, floor; int num, den, off; } t[] = {{10, -20, 1, 1, 0}, {10, 0, 20, 1, 0}, {2, -100, 1, 1, 0}, {2, -5, 3, 2, 4}, {10, -96, 10, 1, 0}}; std::string e;
    FWOpt o; int n = 0; for (auto &x : t) { std::ostringstream s; s << "<IntegerParameter Mapping='Obj' Name='l" << n++ << "' Signed='true' Size='32'><LogarithmicAdaptation LogarithmBase='" << x.base << "' FloorValue='" << x.floor << "' SlopeNumerator='" << x.num << "' SlopeDenominator='" << x.den << "' Offset='" << x.off << "'/></IntegerParameter>"; o.instances += s.str(); } FW f(o); n = 0;
    for (auto &x : t) { std::string p = "/test/test/l" + std::to_string(n++); auto hd = f.handle(p);
        for (double u : {1000.0, 100.0, 10.0, 1.0, 2.0, 1024.0, 0.5, 1e-3, 1e-6, 1e-30, 0.0, 1e-300, 3.7, 65536.0, 1e9, 12345.0}) { INPUT("user value " << u << " in base " << x.base << " slope " << x.num << "/" << x.den << " floor " << x.floor); if (!hd->setAsDouble(u, e)) continue; int64_t w = word(f, p, true); CHECK(w >= x.floor, "stored " << w << " below the floor"); if (u <= 0) continue; double exact = std::log(u) / std::log(x.base) * x.num / x.den + x.off; double r = std::floor(exact + 0.5); if (r < x.floor) r = x.floor; if (std::fabs(exact - std::floor(exact) - 0.5) > 1e-6 || r == x.floor) CHECK(w == (int64_t)r, "stores " << w << " for " << exact);
            double g; CHECK(hd->getAsDouble(g, e), e); if (w != (int64_t)x.floor) { CHECK(hd->setAsDouble(g, e), e); CHECK(word(f, p, true) == w, "user value " << g << " of " << w << " stores " << word(f, p, true)); } }
        for (int64_t k = (int64_t)x.floor + 1; k < 60; k++) { INPUT("stored " << k << " in base " << x.base); poke(f, p, k); double g; CHECK(hd->getAsDouble(g, e), e); CHECK(hd->setAsDouble(g, e), e); CHECK(word(f, p, true) == k, "user value " << g << " stores " << word(f, p, true)); }
    }
}
