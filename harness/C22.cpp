// items of array parameters, in the current settings and in configurations; string parameters
#include "fix.hpp"
static const std::string S = "/test/test/";
struct Arr { std::string p; size_t n; std::vector<std::string> vals, bad; };
static const std::vector<Arr> AS = {{"int_array", 4, {"-10", "10", "0", "7", "-3", "1"}, {"11", "x", "-11", "1.5", "99999999999"}}, {"bool_array", 2, {"0", "1"}, {"2", "yes"}}, {"fix_array", 3, {"1.5000", "-2.0000", "0.0000", "7.9375"}, {"9", "abc", "-8.1"}}, {"enum_array", 4, {"eight", "min"}, {"nine", "ei ght"}}};
static FWOpt opt() { FWOpt o; o.instances = ALLPARAMS; return o; }
static void init(FW &f) { for (auto x : {"u16:50", "enum:max", "enum_array:min min min min", "float:2.5"}) { std::string s = x; size_t i = s.find(':'); CHECK(f.set(S + s.substr(0, i), s.substr(i + 1)), f.err); } }
static const std::vector<std::string> OTHERS = {"bool", "bool_array", "u16", "s8", "u8", "s32", "u32", "int_array", "fix", "fix_array", "float", "enum", "enum_array", "string", "bits/one", "bits/four", "bits/eight", "block/a", "block/b", "blocks/0/x", "blocks/1/y"};
// where: "" the current settings, else domain/configuration
struct Place { FW &f; std::string d, c;
    bool set(const std::string &p, const std::string &v) { return d.empty() ? f.set(S + p, v) : f.confSet(d, c, S + p, v); }
    bool get(const std::string &p, std::string &v) { if (d.empty()) return f.get(S + p, v); v = f.confGet(d, c, S + p); bool ok = v.compare(0, 4, "ERR:"); return ok; }
    std::map<std::string, std::string> all(const std::string &only) { std::map<std::string, std::string> m; for (auto &o : OTHERS) if (only.empty() || o == only) { std::string v; CHECK(get(o, v), o << ": " << f.err); m[o] = v; } return m; } };
static std::string join(const std::vector<std::string> &v, const char *sep = " ") { std::string s; for (size_t i = 0; i < v.size(); i++) s += (i ? sep : "") + v[i]; return s; }
static void run(Place pl, const std::string &only, int rounds) {
    FW &f = pl.f;
    for (int r = 0; r < rounds; r++) for (auto &a : AS) { if (!only.empty() && a.p != only) continue;
        std::string whole; CHECK(pl.get(a.p, whole), f.err); std::vector<std::string> model; { std::stringstream ss(whole); std::string w; while (ss >> w) model.push_back(w); } CHECK(model.size() == a.n, a.p << " reads " << whole);
        auto before = pl.all(only); auto bb = f.bb(); size_t off = f.off(S + a.p), len = f.len(S + a.p), is = len / a.n;
        auto others = [&](const std::string &w, bool changed) { auto now = pl.all(only); for (auto &x : now) if (x.first != a.p) CHECK(x.second == before[x.first], w << ": " << x.first << " changed from " << before[x.first] << " to " << x.second); CHECK(now[a.p] == join(model), w << ": reads " << now[a.p] << ", not " << join(model));
            for (size_t i = 0; i < a.n && pl.d.empty(); i++) { std::string v; CHECK(pl.get(a.p + "/" + std::to_string(i), v), w << ": item " << i << " cannot be read: " << f.err); CHECK(v == model[i], w << ": item " << i << " reads " << v << ", not " << model[i]); }
            auto b2 = f.bb(); for (size_t i = 0; i < b2.size(); i++) if (b2[i] != bb[i]) CHECK(pl.d.empty() && changed && i >= off && i < off + len, w << ": byte " << i << " of the settings changed"); bb = b2; };
        auto pick = [&]() { return a.vals[h::rnd(a.vals.size() - 1)]; };
        others("first read of " + a.p, false);
        for (size_t st = 0; st < (pl.d.empty() ? a.n : 1); st++) for (size_t k = 0; k <= a.n + 1 - st; k++) {   // k values from item st on
            std::vector<std::string> v; for (size_t i = 0; i < k; i++) v.push_back(pick()); static const char *SEP[] = {" ", ",", ", ", "\t"}; bool idx = pl.d.empty() && (st || h::rnd(1)); std::string p = a.p + (idx ? "/" + std::to_string(st) : ""), t = join(v, SEP[h::rnd(3)]); INPUT(pl.d << " " << p << " := " << t); bool fits = st + k <= a.n; hw.clear(); bool ok = pl.set(p, t);
            CHECK(ok == fits, (ok ? "accepted" : "refused: " + f.err)); if (fits) for (size_t i = 0; i < k; i++) model[st + i] = v[i]; else CHECK(hw.evs.empty(), "synchronised"); others("after the write", fits);
            if (fits && pl.d.empty()) { auto b = f.bb(); auto b0 = before; (void)b0; (void)is; }
        }
        for (auto &bad : a.bad) { std::string p = a.p + (pl.d.empty() ? "/" + std::to_string(h::rnd(a.n - 1)) : ""); INPUT(pl.d << " " << p << " := " << bad); hw.clear(); CHECK(!pl.set(p, bad), "accepted"); CHECK(!f.err.empty(), "no error"); CHECK(hw.evs.empty(), "synchronised"); if (bad != "ei ght") others("after the refusal", false); }
        for (std::string x : std::vector<std::string>{std::to_string(a.n), std::to_string(a.n + 1), "-1", "1x", "x", "1.0", " 1", "1 ", "18446744073709551615", "18446744073709551616", "18446744073709551617", "-18446744073709551615", "4294967296", "4294967297", "0/0", "1e0", "0x", "--1", "1,2", "/ 1"}) {
            std::string p = a.p + "/" + x, v; INPUT(pl.d << " item \"" << x << "\" of " << a.p); hw.clear(); CHECK(!pl.set(p, a.vals[0]), "write accepted"); CHECK(!f.err.empty(), "no error"); others("after the refused write", false); CHECK(!pl.get(p, v), "read accepted, giving " << v); CHECK(hw.evs.empty(), "synchronised"); }
    } }
SCEN(current) { FW f(opt()); CHECK(f.start(), f.err); f.tune(true); init(f); run({f, "", ""}, "", h::thorough ? 12 : 1); }
SCEN(configuration) { FW f(opt()); CHECK(f.start(), f.err); f.tune(true); init(f); std::string e; f.domain("D"); f.add("D", "/test/test"); for (auto c : {"C1", "C2"}) { f.conf("D", c); CHECK(f.pf->saveConfiguration("D", c, e), e); } run({f, "D", "C2"}, "", h::thorough ? 12 : 1); }
SCEN(own_domain) { for (auto &a : AS) { FW f(opt()); CHECK(f.start(), f.err); f.tune(true); init(f); std::string e; f.domain("D"); f.add("D", S + a.p); for (auto c : {"C1", "C2"}) { f.conf("D", c); CHECK(f.pf->saveConfiguration("D", c, e), e); } run({f, "D", "C2"}, a.p, h::thorough ? 12 : 2); } }
template <class T> static void typed(FW &f, const std::string &p, size_t n, std::vector<T> vals, bool (ElementHandle::*set)(const std::vector<T> &, std::string &), bool (ElementHandle::*get)(std::vector<T> &, std::string &) const) {
    auto q = f.handle(S + p); for (int r = 0; r < 30; r++) { std::vector<T> v, w; for (size_t i = 0; i < n; i++) v.push_back(vals[h::rnd(vals.size() - 1)]); auto bb = f.bb(); std::string e; std::stringstream ss; for (auto x : v) ss << x << " "; INPUT(p << " := " << ss.str()); CHECK(((*q).*set)(v, e), e); CHECK(((*q).*get)(w, e), e); CHECK(v == w, "reads otherwise");
        auto b2 = f.bb(); for (size_t i = 0; i < bb.size(); i++) if (bb[i] != b2[i]) CHECK(i >= f.off(S + p) && i < f.off(S + p) + f.len(S + p), "byte " << i << " changed"); size_t k = 0; for (auto x : v) { std::string t; CHECK(f.get(S + p + "/" + std::to_string(k++), t), f.err); std::stringstream s2; s2 << std::fixed << x; (void)s2; std::stringstream s3(t); T y; s3 >> y; CHECK(y == x, "item " << k - 1 << " reads " << t); } } }
SCEN(typed_arrays) { FW f(opt()); CHECK(f.start(), f.err); f.tune(true); init(f); f.tune(false);
    typed<int32_t>(f, "int_array", 4, {-10, 10, 3, -1, 0}, &ElementHandle::setAsSignedIntegerArray, &ElementHandle::getAsSignedIntegerArray); typed<double>(f, "fix_array", 3, {1.5, -2, 0.25, 7.9375}, &ElementHandle::setAsDoubleArray, &ElementHandle::getAsDoubleArray); typed<bool>(f, "bool_array", 2, {true, false}, &ElementHandle::setAsBooleanArray, &ElementHandle::getAsBooleanArray);
    typed<std::string>(f, "enum_array", 4, {"eight", "min"}, &ElementHandle::setAsStringArray, &ElementHandle::getAsStringArray); }
// string parameters: of every length and content
static void texts(Place pl) { FW &f = pl.f; std::string cur; CHECK(pl.get("string", cur), f.err);
    for (int n = 0; n <= 40; n++) for (int k = 0; k < (n < 16 ? 8 : 2); k++) { std::string t; for (int i = 0; i < n; i++) t += k == 0 ? 'a' : k == 1 ? ' ' : k == 2 ? char(0xff) : char(h::rnd(254) + 1); if (k >= 6 && n) t[h::rnd(n - 1)] = 0; bool ok = n <= 12 && t.find('\0') == t.npos; auto before = pl.all(pl.d == "E" ? "string" : ""); auto bb = f.bb();
        INPUT(pl.d << " string of " << n << (k >= 6 ? " with a null: " : ": ") << h::hex(std::vector<uint8_t>(t.begin(), t.end()))); bool r = pl.set("string", t); CHECK(r == ok, (r ? "accepted" : "refused: " + f.err)); if (r) cur = t; else CHECK(!f.err.empty(), "no error"); std::string g; CHECK(pl.get("string", g), f.err); CHECK(g == cur, "reads " << g);
        auto now = pl.all(pl.d == "E" ? "string" : ""); for (auto &x : now) if (x.first != "string") CHECK(x.second == before[x.first], x.first << " changed"); auto b2 = f.bb(); for (size_t i = 0; i < bb.size(); i++) if (bb[i] != b2[i]) CHECK(pl.d.empty() && r && i >= f.off(S + "string") && i < f.off(S + "string") + 13, "byte " << i << " of the settings changed"); } }
SCEN(strings) { FW f(opt()); CHECK(f.start(), f.err); f.tune(true); init(f); texts({f, "", ""}); }
SCEN(strings_configuration) { FW f(opt()); CHECK(f.start(), f.err); f.tune(true); init(f); std::string e; f.domain("D"); f.add("D", "/test/test"); for (auto c : {"C1", "C2"}) { f.conf("D", c); CHECK(f.pf->saveConfiguration("D", c, e), e); } texts({f, "D", "C2"}); }
SCEN(strings_own) { FW f(opt()); CHECK(f.start(), f.err); f.tune(true); init(f); std::string e; f.domain("E"); f.add("E", S + "string"); for (auto c : {"C1", "C2"}) { f.conf("E", c); CHECK(f.pf->saveConfiguration("E", c, e), e); } texts({f, "E", "C2"}); }
