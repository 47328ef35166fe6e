// handles: every access, on every kind of element, for every placement of domains
#include "fix.hpp"
struct El { std::string p; bool param; size_t n; std::string val; std::string set; };   // path below the subsystem, is a parameter, array length, natural type, a text to write
static const std::vector<El> ES = {{"bool", 1, 0, "b", "1"}, {"bool_array", 1, 2, "b", "1 1"}, {"u16", 1, 0, "u", "66"}, {"s8", 1, 0, "s", "-7"}, {"u8", 1, 0, "u", "66"}, {"s32", 1, 0, "s", "-7"}, {"u32", 1, 0, "u", "66"}, {"int_array", 1, 4, "s", "-7 -7 -7 -7"}, {"fix", 1, 0, "d", "1.5"}, {"fix_array", 1, 3, "d", "1.5 1.5 1.5"},
    {"float", 1, 0, "d", "1.5"}, {"enum", 1, 0, "t", "five"}, {"enum_array", 1, 4, "t", "eight eight eight eight"}, {"string", 1, 0, "t", "five"}, {"bits", 0, 0, "", ""}, {"bits/one", 1, 0, "u", "1"}, {"bits/four", 1, 0, "u", "5"}, {"bits/eight", 1, 0, "u", "66"}, {"block", 0, 0, "", ""}, {"block/a", 1, 0, "u", "66"}, {"block/b", 1, 0, "u", "66"}, {"blocks", 0, 2, "", ""}, {"blocks/0", 0, 0, "", ""}, {"blocks/1", 0, 0, "", ""}, {"blocks/0/x", 1, 0, "u", "66"}, {"blocks/1/y", 1, 0, "u", "66"}, {"", 0, 0, "", ""}};
static const std::string S = "/test/test";
static std::string full(const std::string &p) { return p.empty() ? S : S + "/" + p; }
static bool below(const std::string &x, const std::string &y) { return y.empty() || x == y || (x.size() > y.size() && x.compare(0, y.size() + 1, y + "/") == 0); }
static uint32_t uv(const El &e) { return e.p == "bits/one" ? 1 : e.p == "bits/four" ? 5 : 66; }
static std::string tv(const El &e) { return e.p.find("enum_array") == 0 ? "eight" : "five"; }
static bool reads(std::string a, const std::string &b) { for (size_t i; (i = a.find("1.5000")) != a.npos;) a.replace(i, 6, "1.5"); return a == b; }
template <class F> static bool attempt(FW &f, const std::string &what, bool legal, bool must, bool effect, F op) {
    auto b = f.bb(); hw.clear(); std::string er; INPUT(what); bool r = op(er);
    if (!legal) { CHECK(!r, "accepted"); CHECK(!er.empty(), "no error given"); }
    if (must) CHECK(r, "refused: " << er);
    if (!legal || !effect) { CHECK(f.bb() == b, "the settings changed"); CHECK(hw.evs.empty(), "synchronised"); }
    return r; }
struct Run { FW &f; std::set<std::string> held; bool tuning; std::string where;
    bool rogue(const El &e) { for (auto &d : held) if (below(d, e.p) || below(e.p, d)) return false; return true; }
    void one(const El &e) {
        auto q = f.handle(full(e.p)); auto &h = *q; bool ro = rogue(e); std::string w = where + full(e.p) + ": "; std::string er;
        INPUT(w << "queries"); CHECK(h.isRogue() == ro, "rogue: " << h.isRogue()); CHECK(h.isParameter() == e.param, "a parameter: " << h.isParameter()); if (e.param) CHECK(h.isArray() == (e.n != 0) && h.getArrayLength() == e.n, "array length " << h.getArrayLength());
        CHECK(h.getPath() == full(e.p), h.getPath());
        bool sc = e.param && !e.n, ar = e.param && e.n, nt = !tuning; auto must = [&](const char *t, bool l) { return l && e.val == t; };
        bool B = 0; uint32_t U = 0; int32_t I = 0; double D = 0; std::string T; std::vector<bool> VB; std::vector<uint32_t> VU; std::vector<int32_t> VI; std::vector<double> VD; std::vector<std::string> VT; std::vector<uint8_t> by;
        attempt(f, w + "getAsBoolean", sc, must("b", sc), false, [&](std::string &x) { return h.getAsBoolean(B, x); }); attempt(f, w + "getAsInteger", sc, must("u", sc), false, [&](std::string &x) { return h.getAsInteger(U, x); }); attempt(f, w + "getAsSignedInteger", sc, must("s", sc), false, [&](std::string &x) { return h.getAsSignedInteger(I, x); });
        attempt(f, w + "getAsDouble", sc, must("d", sc), false, [&](std::string &x) { return h.getAsDouble(D, x); }); attempt(f, w + "getAsString", sc, sc, false, [&](std::string &x) { return h.getAsString(T, x); });
        attempt(f, w + "getAsBooleanArray", ar, must("b", ar), false, [&](std::string &x) { return h.getAsBooleanArray(VB, x); }); attempt(f, w + "getAsIntegerArray", ar, must("u", ar), false, [&](std::string &x) { return h.getAsIntegerArray(VU, x); }); attempt(f, w + "getAsSignedIntegerArray", ar, must("s", ar), false, [&](std::string &x) { return h.getAsSignedIntegerArray(VI, x); });
        attempt(f, w + "getAsDoubleArray", ar, must("d", ar), false, [&](std::string &x) { return h.getAsDoubleArray(VD, x); }); if (attempt(f, w + "getAsStringArray", ar, ar, false, [&](std::string &x) { return h.getAsStringArray(VT, x); })) CHECK(VT.size() == e.n, VT.size() << " items");
        attempt(f, w + "getAsBytes", true, true, false, [&](std::string &x) { return h.getAsBytes(by, x); }); CHECK(by == f.slice(full(e.p)), "bytes " << h::hex(by)); attempt(f, w + "getAsXML", true, true, false, [&](std::string &x) { return h.getAsXML(T, x); });
        std::string xml = T; bool sw = sc && ro;
        attempt(f, w + "setAsBoolean", sw, must("b", sw), nt, [&](std::string &x) { return h.setAsBoolean(1, x); }); attempt(f, w + "setAsInteger", sw, must("u", sw), nt, [&](std::string &x) { return h.setAsInteger(uv(e), x); }); attempt(f, w + "setAsSignedInteger", sw, must("s", sw), nt, [&](std::string &x) { return h.setAsSignedInteger(-7, x); }); attempt(f, w + "setAsDouble", sw, must("d", sw), nt, [&](std::string &x) { return h.setAsDouble(1.5, x); });
        attempt(f, w + "setAsString", sw, sw, nt, [&](std::string &x) { return h.setAsString(e.set, x); });
        if (sw && nt) CHECK(reads(f.get(full(e.p)), e.set), "reads " << f.get(full(e.p)));
        std::set<size_t> sizes = {0, 1, 2, e.n ? e.n - 1 : 3, e.n, e.n + 1, e.n * 2};
        for (size_t n : sizes) { bool aw = ar && ro && n == e.n; std::string z = w + str(n) + " items by ";
            attempt(f, z + "setAsBooleanArray", aw, must("b", aw), nt, [&](std::string &x) { return h.setAsBooleanArray(std::vector<bool>(n, true), x); }); attempt(f, z + "setAsIntegerArray", aw, must("u", aw), nt, [&](std::string &x) { return h.setAsIntegerArray(std::vector<uint32_t>(n, uv(e)), x); }); attempt(f, z + "setAsSignedIntegerArray", aw, must("s", aw), nt, [&](std::string &x) { return h.setAsSignedIntegerArray(std::vector<int32_t>(n, -7), x); });
            attempt(f, z + "setAsDoubleArray", aw, must("d", aw), nt, [&](std::string &x) { return h.setAsDoubleArray(std::vector<double>(n, 1.5), x); }); attempt(f, z + "setAsStringArray", aw, must("t", aw), nt, [&](std::string &x) { return h.setAsStringArray(std::vector<std::string>(n, tv(e)), x); });
            if (aw && nt) CHECK(reads(f.get(full(e.p)), e.set), "reads " << f.get(full(e.p))); }
        if (e.val == "u" && sw && nt) CHECK(reads(f.get(full(e.p)), e.set), "reads " << f.get(full(e.p)));
        attempt(f, w + "setAsXML", ro, ro, true, [&](std::string &x) { return h.setAsXML(xml, x); }); attempt(f, w + "setAsBytes", ro, ro, true, [&](std::string &x) { return h.setAsBytes(by, x); });
        if (by.size() || e.p.find("bits/") != 0) { auto b2 = by; b2.push_back(1); attempt(f, w + "setAsBytes one too many", false, false, false, [&](std::string &x) { return h.setAsBytes(b2, x); }); }
    }
    static std::string str(size_t n) { return std::to_string(n); }
};
static FWOpt opt() { FWOpt o; o.instances = ALLPARAMS; return o; }
static void init(FW &f) { CHECK(f.set(full("u16"), "50"), f.err); CHECK(f.set(full("enum"), "max"), f.err); CHECK(f.set(full("enum_array"), "min min min min"), f.err); CHECK(f.set(full("float"), "2.5"), f.err); }
static void place(const std::vector<std::string> &held) {
    FW f(opt()); CHECK(f.start(), f.err); f.tune(true); init(f); std::string w; std::set<std::string> s; int i = 0;
    for (auto &d : held) { std::string n = "D" + std::to_string(i++ % 2); if (!f.dom(n)) f.domain(n); f.add(n, full(d)); s.insert(d); w += n + " holds " + full(d) + "; "; }
    for (int t = 0; t < 2; t++) { f.tune(t); Run r{f, s, bool(t), w + (t ? "tuning; " : "")}; for (auto &e : ES) r.one(e); } }
SCEN(none) { place({}); }
SCEN(one_holder) { for (auto &e : ES) place({e.p}); }
SCEN(pairs) { for (int n = 0; n < (h::thorough ? 200 : 12); n++) { auto &a = ES[h::rnd(ES.size() - 1)], &b = ES[h::rnd(ES.size() - 1)]; if (a.p == b.p || below(a.p, b.p) || below(b.p, a.p)) continue; place({a.p, b.p}); } }
// an element is writable again once its domain is gone, or does not hold it any longer
SCEN(released) { for (int k = 0; k < 3; k++) { FW f(opt()); CHECK(f.start(), f.err); f.tune(true); init(f); std::string e; f.domain("D"); for (auto p : {"u8", "block", "int_array"}) f.add("D", full(p)); f.conf("D", "C"); f.rule("D", "C", "All{}");
        if (k == 0) CHECK(f.pf->deleteDomain("D", e), e); if (k == 1) for (auto p : {"u8", "block", "int_array"}) CHECK(f.pf->removeConfigurableElementFromDomain("D", full(p), e), e); if (k == 2) CHECK(f.pf->split("D", full("block"), e), e);
        f.tune(false); Run r{f, k == 2 ? std::set<std::string>{"u8", "int_array", "block/a", "block/b", "block/c"} : std::set<std::string>{}, false, k == 0 ? "domain deleted; " : k == 1 ? "elements removed; " : "block split; "}; for (auto &x : ES) r.one(x); } }
// a parameter handle is only given for a parameter
SCEN(parameter_handles) { FW f(opt()); CHECK(f.start(), f.err); for (auto &e : ES) { std::string er; INPUT("parameter handle of " << full(e.p)); std::unique_ptr<CParameterHandle> p(f.pf->createParameterHandle(full(e.p), er)); CHECK(bool(p) == e.param, (p ? "given" : "refused: " + er)); if (!p) CHECK(!er.empty(), "no error given"); }
    for (auto s : {"/test/test/nope", "/nope", "", "test", "/test/test/u8/0", "/test/test/int_array/1"}) { std::string er; INPUT("handle of " << s); std::unique_ptr<ElementHandle> p(f.pf->createElementHandle(s, er)); CHECK(!p && !er.empty(), "given"); } }
