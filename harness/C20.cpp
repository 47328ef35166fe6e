// The settings lock: blocked while it is held elsewhere, held while settings move, free again after every way out.
#include "fix.hpp"
#include <future>
#include <thread>
#include <atomic>
#include <chrono>
typedef std::function<bool(std::string &)> Op; struct NOp { std::string n; Op f; };
using ms = std::chrono::milliseconds;
static bool isfree(FW &f) { return std::async(std::launch::async, [&] { auto &m = f.mgr->getBlackboardMutex(); if (!m.try_lock()) return false; m.unlock(); return true; }).get(); }
struct B { FW f; std::unique_ptr<CommandHandlerInterface> ch; std::vector<std::unique_ptr<ElementHandle>> hs; std::string R = "/test/test/"; std::vector<uint8_t> bytes; std::string xml; 
    static FWOpt opt() { FWOpt o; o.instances = std::string(ALLPARAMS) + "<BooleanParameter Name='bool2' Mapping='Obj'/>"; return o; }
    B() : f(opt(), {{"c", false, {{"x", 0}, {"y", 1}}}}) { ch.reset(f.pf->createCommandHandler()); f.tune(true); f.domain("D"); f.add("D", R + "u8"); f.conf("D", "C"); f.rule("D", "C", "All{}"); f.confSet("D", "C", R + "u8", "77"); f.tune(false); std::string e; h("u16")->getAsBytes(bytes, e); h("s8")->getAsXML(xml, e); }
    ElementHandle *h(const std::string &p) { hs.push_back(f.handle(R + p)); return hs.back().get(); }
    std::vector<NOp> reads() { std::vector<NOp> o; auto add = [&](const char *n, Op f) { o.push_back({n, f}); };
        add("getAsBoolean", [=](std::string &e) { bool v; return h("bool")->getAsBoolean(v, e); }); add("getAsInteger", [=](std::string &e) { uint32_t v; return h("u16")->getAsInteger(v, e); }); add("getAsSignedInteger", [=](std::string &e) { int32_t v; return h("s8")->getAsSignedInteger(v, e); }); add("getAsDouble", [=](std::string &e) { double v; return h("fix")->getAsDouble(v, e); }); add("getAsString", [=](std::string &e) { std::string v; return h("string")->getAsString(v, e); });
        add("getAsBooleanArray", [=](std::string &e) { std::vector<bool> v; return h("bool_array")->getAsBooleanArray(v, e); }); add("getAsSignedIntegerArray", [=](std::string &e) { std::vector<int32_t> v; return h("int_array")->getAsSignedIntegerArray(v, e); }); add("getAsDoubleArray", [=](std::string &e) { std::vector<double> v; return h("fix_array")->getAsDoubleArray(v, e); }); add("getAsStringArray", [=](std::string &e) { std::vector<std::string> v; return h("enum_array")->getAsStringArray(v, e); });
        add("getAsBytes", [=](std::string &e) { std::vector<uint8_t> v; return h("blocks")->getAsBytes(v, e); }); add("getAsXML", [=](std::string &e) { std::string v; return h("blocks")->getAsXML(v, e); }); add("getParameter", [=](std::string &e) { std::string v; return f.pf->accessParameterValue(R + "u16", v, false, e); });
        for (auto p : {"u16", "string", "fix_array", "bits/four"}) { std::string q = R + p; o.push_back({"command getParameter " + q, [=](std::string &e) { return ch->process("getParameter", {q}, e); }}); } add("command getElementBytes", [=](std::string &e) { return ch->process("getElementBytes", {R + "block"}, e); }); add("command getElementXML", [=](std::string &e) { return ch->process("getElementXML", {R + "block"}, e); }); return o; }
    std::vector<NOp> writes() { std::vector<NOp> o; auto add = [&](const char *n, Op f) { o.push_back({n, f}); };
        add("setAsBoolean", [=](std::string &e) { return h("bool")->setAsBoolean(true, e); }); add("setAsInteger", [=](std::string &e) { return h("u16")->setAsInteger(44, e); }); add("setAsSignedInteger", [=](std::string &e) { return h("s8")->setAsSignedInteger(-4, e); }); add("setAsDouble", [=](std::string &e) { return h("fix")->setAsDouble(2.5, e); }); add("setAsString", [=](std::string &e) { return h("string")->setAsString("abc", e); });
        add("setAsBooleanArray", [=](std::string &e) { return h("bool_array")->setAsBooleanArray({true, true}, e); }); add("setAsSignedIntegerArray", [=](std::string &e) { return h("int_array")->setAsSignedIntegerArray({1, 2, 3, 4}, e); }); add("setAsDoubleArray", [=](std::string &e) { return h("fix_array")->setAsDoubleArray({1, 2, 3}, e); }); add("setAsStringArray", [=](std::string &e) { return h("enum_array")->setAsStringArray({"eight", "min", "eight", "min"}, e); });
        add("setAsBytes", [=](std::string &e) { return h("u16")->setAsBytes(bytes, e); }); add("setAsXML", [=](std::string &e) { return h("s8")->setAsXML(xml, e); }); add("applyConfigurations", [=](std::string &) { f.setCrit("c", 1); f.apply(); return true; }); return o; }
    std::vector<NOp> tuned() { std::vector<NOp> o; auto add = [&](const char *n, Op f) { o.push_back({n, f}); };
        add("setParameter", [=](std::string &e) { std::string v = "55"; return f.pf->accessParameterValue(R + "u16", v, true, e); }); add("command setParameter", [=](std::string &e) { return ch->process("setParameter", {R + "u16", "56"}, e); }); add("command setElementBytes", [=](std::string &e) { return ch->process("setElementBytes", {R + "u32", "1", "2", "3", "4"}, e); }); add("command setElementXML", [=](std::string &e) { return ch->process("setElementXML", {R + "s8", xml}, e); });
        return o; }
    std::vector<NOp> bad() { std::vector<NOp> o; auto add = [&](const char *n, Op f) { o.push_back({n, f}); };   // attempts which fail
        add("setAsInteger out of range", [=](std::string &e) { return h("u16")->setAsInteger(5, e); }); add("setAsSignedInteger unsupported", [=](std::string &e) { return h("string")->setAsSignedInteger(1, e); }); add("setAsString long", [=](std::string &e) { return h("string")->setAsString("0123456789abcdef", e); }); add("setAsBoolean", [=](std::string &e) { return h("s8")->setAsBoolean(true, e); }); add("setAsDouble", [=](std::string &e) { return h("float")->setAsDouble(1e9, e); }); add("setAsString not rogue", [=](std::string &e) { return h("u8")->setAsString("1", e); }); add("setAsIntegerArray", [=](std::string &e) { return h("int_array")->setAsSignedIntegerArray({1, 2}, e); }); add("array item out of range", [=](std::string &e) { return h("int_array")->setAsSignedIntegerArray({1, 2, 99, 3}, e); });
        add("getAsBoolean", [=](std::string &e) { bool v; return h("u16")->getAsBoolean(v, e); }); add("getAsDouble", [=](std::string &e) { double v; return h("string")->getAsDouble(v, e); }); add("getAsIntegerArray", [=](std::string &e) { std::vector<uint32_t> v; return h("u16")->getAsIntegerArray(v, e); }); add("setAsBytes", [=](std::string &e) { return h("u16")->setAsBytes({1}, e); }); add("setAsXML", [=](std::string &e) { return h("s8")->setAsXML("<a/>", e); }); add("setAsXML not XML", [=](std::string &e) { return h("s8")->setAsXML("<a", e); }); add("setAsXML value", [=](std::string &e) { return h("s8")->setAsXML("<?xml version='1.0'?><IntegerParameter Name='s8'>400</IntegerParameter>", e); });
        for (auto p : {"/test/test/u16/0", "/test/test/nope", "/nope", "", "/test/test/string", "/test/test/int_array/9", "/test/test/int_array/x", "/test/test/block"}) { std::string q = p; o.push_back({"getParameter " + q, [=](std::string &e) { std::string v; return f.pf->accessParameterValue(q, v, false, e) && q != "/test/test/string"; }}); o.push_back({"setParameter " + q, [=](std::string &e) { std::string v = "0123456789abcdef"; return f.pf->accessParameterValue(q, v, true, e); }}); }
        return o; }
};
static void finish(std::future<bool> &r, const std::string &n) { if (r.wait_for(std::chrono::seconds(15)) != std::future_status::ready) h::fail(n + " never ends although the lock is free (acquired twice?)"); }
static void blocked(B &b, const std::vector<NOp> &ops) { for (auto &o : ops) { INPUT(o.n << " while the lock is held elsewhere"); std::string e; auto &m = b.f.mgr->getBlackboardMutex(); auto before = b.f.bb(); hw.clear(); std::unique_lock<std::mutex> l(m); auto r = std::async(std::launch::async, [&] { return o.f(e); }); if (r.wait_for(ms(25)) == std::future_status::ready) { bool ok = r.get(); CHECK(!ok, "ended without waiting for the lock"); } CHECK(b.f.bb() == before, "changed the settings"); CHECK(hw.evs.empty(), "synchronised"); l.unlock(); if (r.valid()) { finish(r, o.n); CHECK(r.get(), e); } CHECK(isfree(b.f), "the lock is not released"); } }
static void after(B &b, const std::vector<NOp> &ops, bool want) { for (auto &o : ops) { INPUT(o.n); std::string e; auto r = std::async(std::launch::async, [&] { return o.f(e); }); finish(r, o.n); bool ok = r.get(); CHECK(ok == want, (want ? "failed: " + e : std::string("accepted"))); CHECK(isfree(b.f), "the lock is not released after " << (ok ? "success" : "failure")); } }
SCEN(reads) { B b; blocked(b, b.reads()); }
SCEN(writes) { B b; blocked(b, b.writes()); }
SCEN(tuning) { B b; b.f.tune(true); blocked(b, b.tuned()); blocked(b, b.reads()); }
SCEN(switching) { B b; for (int i = 0; i < 4; i++) { bool on = !b.f.pf->isTuningModeOn(); blocked(b, {{on ? "tuning on" : "tuning off", [&](std::string &e) { return b.f.pf->setTuningMode(on, e); }}}); CHECK(b.f.pf->isTuningModeOn() == on, "mode"); } }
SCEN(released) { B b; std::vector<NOp> mode = {{"tuning on", [&](std::string &e) { return b.f.pf->setTuningMode(true, e); }}}; after(b, b.reads(), true); after(b, b.writes(), true); after(b, b.bad(), false); after(b, mode, true); after(b, mode, false); after(b, b.tuned(), true); after(b, b.reads(), true); std::vector<NOp> off = {{"tuning off", [&](std::string &e) { return b.f.pf->setTuningMode(false, e); }}}; after(b, off, true); after(b, off, false); after(b, b.writes(), true); }
SCEN(held) { B b; int n = 0; std::string what; hw.onSync = [&](const std::string &p) { n++; CHECK(!isfree(b.f), "the lock is free while " << p << " is synchronised by " << what); };
    auto run = [&](const std::vector<NOp> &v) { for (auto &o : v) { what = o.n; INPUT(o.n); std::string e; CHECK(o.f(e), e); } }; for (int k = 0; k < 3; k++) { run(b.writes()); run({{"tuning on", [&](std::string &e) { return b.f.pf->setTuningMode(true, e); }}}); b.f.confSet("D", "C", "/test/test/u8", std::to_string(k)); what = "-"; run(b.tuned()); run({{"tuning off", [&](std::string &e) { return b.f.pf->setTuningMode(false, e); }}}); } CHECK(n > 20, "synchronisers called " << n); hw.onSync = nullptr; }
SCEN(torn) { // writers of whole arrays and readers: a reader sees one of the values written
    B b; std::atomic<bool> stop(false); std::atomic<long> bad(0), n(0); auto *w = b.h("int_array"); std::string e0; CHECK(w->setAsSignedIntegerArray({0, 0, 0, 0}, e0), e0); std::vector<std::thread> t;
    for (int i = 0; i < 2; i++) t.emplace_back([&, i] { auto hd = b.f.handle("/test/test/int_array"); std::string e; for (int k = 0; !stop; k++) { int v = (k * 7 + i) % 21 - 10; hd->setAsSignedIntegerArray({v, v, v, v}, e); n++; } });
    for (int i = 0; i < 3; i++) t.emplace_back([&, i] { auto hd = b.f.handle("/test/test/int_array"); std::string e; while (!stop) { if (i) { std::vector<int32_t> v; hd->getAsSignedIntegerArray(v, e); if (v.size() != 4 || v[0] != v[1] || v[0] != v[2] || v[0] != v[3]) bad++; } else { std::vector<uint8_t> v; hd->getAsBytes(v, e); for (size_t k = 4; k < v.size(); k++) if (v[k] != v[k - 4]) { bad++; break; } } n++; } });
    INPUT("concurrent array writes and reads"); std::this_thread::sleep_for(std::chrono::milliseconds(h::thorough ? 20000 : 2500)); stop = true; for (auto &x : t) x.join(); CHECK(!bad, bad << " torn reads of " << n); }
