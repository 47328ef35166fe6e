#include "fix.hpp"
// every way of writing settings, with any pattern of failing synchronisers: who is synchronised, when, and what is reported
static const std::vector<std::string> MAPPED = {"bool", "bool_array", "u16", "s8", "u8", "s32", "u32", "int_array", "fix", "fix_array", "float", "enum", "enum_array", "string", "bits", "block", "blocks/0/x", "blocks/0/y", "blocks/1/x", "blocks/1/y"};
static bool below(const std::string &x, const std::string &y) { return y.empty() || x == y || (x.size() > y.size() && x.compare(0, y.size() + 1, y + "/") == 0); }
static std::set<std::string> expected(const std::string &e) { std::set<std::string> s; for (auto &m : MAPPED) if (below(e, m)) s.insert(m); if (s.empty()) for (auto &m : MAPPED) if (below(m, e)) s.insert(m); return s; }
struct P { std::string path; std::vector<std::string> good, bad; };
static const std::vector<P> PS = {{"bool", {"0", "1"}, {"2", "x", ""}}, {"bool_array", {"0 1", "1 1", "0"}, {"0 1 0", "0 2", "x"}}, {"bool_array/1", {"0", "1"}, {"2", "0 1"}}, {"u16", {"33", "123", "0x40"}, {"32", "124", "x", "-1"}}, {"s8", {"-100", "100"}, {"101", "-101", ""}}, {"u8", {"0", "255"}, {"256", "-1"}}, {"s32", {"-2147483648", "7"}, {"2147483648", "1.5"}},
    {"int_array", {"1 2 3 4", "-10", "10,9"}, {"11", "1 2 3 4 5", "1 2 x"}}, {"int_array/2", {"-3", "3 4"}, {"11", "1 2 3"}}, {"fix", {"1.5", "-8"}, {"8", "x"}}, {"fix_array/1", {"0.5", "1 2"}, {"9", "1 2 3"}}, {"float", {"-5.5", "100.25"}, {"100.5", "-6", "x"}}, {"enum", {"five", "5", "max"}, {"six", "7"}}, {"enum_array", {"eight min", "8"}, {"nine", "8 8 8 8 8"}},
    {"string", {"", "abcdefghijkl", "a b"}, {"abcdefghijklm"}}, {"bits/one", {"0", "1"}, {"2"}}, {"bits/four", {"10", "0"}, {"11", "-1", "x"}}, {"bits/eight", {"255"}, {"256"}}, {"block/b", {"65535"}, {"65536"}}, {"blocks/1/y", {"9"}, {"x"}}, {"blocks/0/x", {"200"}, {"300"}}};
static const std::string R = "/test/test/";
struct World {
    FW f; bool autosync = true, tuning = true; std::string trace; std::unique_ptr<CommandHandlerInterface> ch; std::vector<std::string> elems = {"", "bits", "block", "blocks", "blocks/0", "blocks/1"};
    static FWOpt opt() { FWOpt o; o.instances = ALLPARAMS; return o; }
    World() : f(opt()) { CHECK(f.start(), f.err); f.tune(true); ch.reset(f.pf->createCommandHandler()); for (auto &m : MAPPED) elems.push_back(m); elems.push_back("block/a"); elems.push_back("bits/four"); for (auto &p : PS) if (p.good[0].size() && p.path.find("array/") == std::string::npos) { f.set(R + p.path, p.good[0]); } hw.clear(); }
    void note(const std::string &s) { trace += s + "; "; if (trace.size() > 1500) trace = "..." + trace.substr(trace.size() - 1300); std::string fl; for (auto &x : hw.failing) fl += x.substr(R.size()) + " "; INPUT(trace << "(failing: " << fl << ")"); }
    void fail() { hw.failing.clear(); if (h::rnd(2)) for (auto &m : MAPPED) if (h::rnd(6) == 0) hw.failing.insert(R + m); hw.clear(); }
    std::string full(const std::string &e) { return e.empty() ? "/test/test" : R + e; }
    // the synchronisers of e, each called once, seeing the current settings; the outcome is that of all of them
    void check(const std::string &e, bool accepted, bool sync, bool r, const std::string &err) {
        std::set<std::string> want; if (accepted && sync) want = expected(e); bool ok = accepted; std::map<std::string, int> n; for (auto &v : hw.evs) { n[v.path.substr(R.size())]++; CHECK(!v.back, "back synchronisation of " << v.path); CHECK(v.bytes == f.slice(v.path), v.path << " is given " << h::hex(v.bytes) << ", not the current " << h::hex(f.slice(v.path))); }
        for (auto &w : want) { CHECK(n[w] == 1, w << " is synchronised " << n[w] << " times"); if (hw.failing.count(R + w)) { ok = false; CHECK(err.find("sync of " + R + w + " failed") != std::string::npos, "the failure of " << w << " is not reported: " << err); } }
        for (auto &x : n) CHECK(want.count(x.first) || !x.second, x.first << " is synchronised"); CHECK(r == ok, (r ? "reported as success" : "reported as a failure: " + err)); if (!r) CHECK(!err.empty(), "no error given"); }
    void command(const std::string &c, const std::string &e, std::vector<std::string> a, bool accepted, bool sync) { a.insert(a.begin(), full(e)); std::string out; hw.clear(); bool r = ch->process(c, a, out); check(e, accepted, sync, r, out); }
    void write() { auto &p = PS[h::rnd(PS.size())]; bool good = h::rnd(3); auto &l = good ? p.good : p.bad; auto v = l[h::rnd(l.size())]; note("set " + p.path + "=" + v); hw.clear(); bool r = f.set(R + p.path, v); check(p.path, good && tuning, autosync, r, f.err); }
    void bytes() { auto e = elems[h::rnd(elems.size())]; auto b = f.slice(full(e)); int k = h::rnd(4); if (k == 0) b.push_back(0); if (k == 1 && b.size()) b.pop_back(); std::vector<std::string> a; for (auto x : b) a.push_back(std::to_string(x)); if (a.empty()) return; note("bytes of " + e + ": " + std::to_string(b.size())); command("setElementBytes", e, a, b.size() == f.len(full(e)) && tuning, autosync); }
    void xml() { auto e = elems[h::rnd(elems.size())]; std::string x; if (!ch->process("getElementXML", {full(e)}, x)) return; bool bad = h::rnd(3) == 0; if (bad) { if (h::rnd(2)) x = x.substr(0, x.size() / 2); else { auto i = x.find("Name=\""); if (i == std::string::npos) return; x.insert(i + 6, "no"); } } note(std::string(bad ? "bad " : "") + "XML of " + e); command("setElementXML", e, {x}, !bad && tuning, autosync); }
    void handle() { auto &p = PS[h::rnd(PS.size())]; if (p.path.find("array") != std::string::npos) return; bool good = h::rnd(3); auto &l = good ? p.good : p.bad; auto v = l[h::rnd(l.size())]; note("handle of " + p.path + "=" + v); std::string e; auto q = f.handle(R + p.path); hw.clear(); bool r = q->setAsString(v, e); if (tuning) { CHECK(r && hw.evs.empty(), "written in tuning mode"); return; } check(p.path, good, true, r, e); }
    void arrays() { std::string e; bool good = h::rnd(3); std::vector<int32_t> v = {1, -10, 10, 0}; if (!good) v[h::rnd(4)] = 11; note("array by handle"); auto q = f.handle(R + "int_array"); hw.clear(); bool r = q->setAsSignedIntegerArray(v, e); if (!tuning) check("int_array", good, true, r, e); else CHECK(hw.evs.empty(), "synchronised"); }
    void scalars() { std::string e; note("scalars by handle"); uint32_t v = h::rnd(3) ? 40 + h::rnd(80) : 200; auto q = f.handle(R + "u16"); hw.clear(); bool r = q->setAsInteger(v, e); if (!tuning) check("u16", v <= 123, true, r, e); auto b = f.handle(R + "bits/four"); v = h::rnd(16); hw.clear(); r = b->setAsInteger(v, e); if (!tuning) check("bits/four", v <= 10, true, r, e); auto x = f.handle(R + "bool"); hw.clear(); r = x->setAsBoolean(h::rnd(2), e); if (!tuning) check("bool", true, true, r, e); auto d = f.handle(R + "float"); double y = h::rnd(3) ? 1.25 : 200; hw.clear(); r = d->setAsDouble(y, e); if (!tuning) check("float", y < 2, true, r, e); auto s = f.handle(R + "s8"); int32_t z = int(h::rnd(300)) - 150; hw.clear(); r = s->setAsSignedInteger(z, e); if (!tuning) check("s8", z >= -100 && z <= 100, true, r, e); }
    void hbytes() { auto e = elems[h::rnd(elems.size())]; auto b = f.slice(full(e)); bool good = h::rnd(3); if (!good) b.push_back(1); note("bytes of " + e + " by handle"); auto q = f.handle(full(e)); std::string er; hw.clear(); bool r = q->setAsBytes(b, er); check(e, good, autosync, r, er); }
    void mode() { bool on = h::rnd(2); note(on ? "auto sync on" : "auto sync off"); std::string e; hw.clear(); bool r = f.pf->setAutoSync(on, e); if (on && !autosync) { check("", true, true, r, e); if (r) autosync = true; } else { CHECK(r, e); CHECK(hw.evs.empty(), hw.evs[0].path << " is synchronised"); autosync = on; } CHECK(f.pf->isAutoSyncOn() == autosync, "mode is " << f.pf->isAutoSyncOn()); }
    void sync() { note("sync"); std::string e; hw.clear(); bool r = h::rnd(2) ? f.pf->sync(e) : ch->process("sync", {}, e); if (autosync) { CHECK(!r && !e.empty() && hw.evs.empty(), "manual synchronisation in automatic mode"); } else check("", true, true, r, e); }
    void tune() { hw.failing.clear(); tuning = !tuning; note(tuning ? "tuning on" : "tuning off"); hw.clear(); CHECK(f.tune(tuning), f.err); CHECK(hw.evs.empty(), hw.evs[0].path << " is synchronised"); }
    void step() { fail(); switch (h::rnd(20)) { case 0: case 1: case 2: case 3: case 4: case 5: write(); break; case 6: case 7: bytes(); break; case 8: case 9: xml(); break; case 10: case 11: mode(); break; case 12: sync(); break; case 13: tune(); break; case 14: case 15: handle(); break; case 16: arrays(); break; case 17: scalars(); break; case 18: hbytes(); break; default: write(); } }
};
SCEN(histories) { for (int n = 0; n < (h::thorough ? 60 : 8); n++) { World w; for (int i = 0; i < (h::thorough ? 400 : 150); i++) w.step(); } }
SCEN(every_write) { World w; for (int a = 0; a < 2; a++) { for (auto &p : PS) for (int good = 0; good < 2; good++) for (auto &v : good ? p.good : p.bad) for (int k = 0; k < 2; k++) { hw.failing.clear(); if (k) for (auto &m : MAPPED) if (below(p.path, m)) hw.failing.insert(R + m); w.trace = a ? "auto sync off; " : ""; w.note("set " + p.path + "=" + v); hw.clear(); bool r = w.f.set(R + p.path, v); w.check(p.path, good, w.autosync, r, w.f.err); }
        hw.failing.clear(); std::string e; CHECK(w.f.pf->setAutoSync(false, e), e); w.autosync = false; } }
SCEN(every_failure) { World w; std::string e; for (size_t i = 0; i <= MAPPED.size(); i++) for (size_t j = i; j <= MAPPED.size(); j++) { hw.failing.clear(); if (i < MAPPED.size()) hw.failing.insert(R + MAPPED[i]); if (j < MAPPED.size()) hw.failing.insert(R + MAPPED[j]); w.trace = ""; w.note("off, on again"); hw.clear(); CHECK(w.f.pf->setAutoSync(false, e), e); CHECK(hw.evs.empty(), "synchronised"); e = ""; bool r = w.f.pf->setAutoSync(true, e); w.check("", true, true, r, e); CHECK(w.f.pf->isAutoSyncOn() == r, "mode"); if (!r) { hw.failing.clear(); hw.clear(); CHECK(w.f.pf->sync(e), e); w.check("", true, true, true, ""); hw.clear(); CHECK(w.f.pf->setAutoSync(true, e), e); w.check("", true, true, true, ""); } } }
