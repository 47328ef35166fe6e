#include "fix.hpp"
#include <csignal>
// reference model of the settings memory
static std::vector<uint8_t> rbytes(size_t n) { std::vector<uint8_t> v(n); for (auto &x : v) x = h::rnd(256); return v; }
static bool refused(std::function<void()> f) {       // the framework itself stops, or throws, before touching memory
    pid_t p = fork(); if (!p) { if (!freopen("/dev/null", "w", stderr)) {} try { f(); } catch (...) { _exit(7); } _exit(0); }
    int st; waitpid(p, &st, 0); return (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) || (WIFEXITED(st) && WEXITSTATUS(st) == 7);
}
SCEN(accesses) {
    for (int it = 0; it < (h::thorough ? 200000 : 20000); it++) {
        size_t n = it % 64 == 7 ? 200 + h::rnd(5000) : it % 4096 == 9 ? 70000 : 1 + h::rnd(24);
        CParameterBlackboard b; b.setSize(n); CHECK(b.getSize() == n, "size " << n);
        auto m = rbytes(n); b.mBlackboard = m;
        size_t off = h::rnd(n), sz = h::rnd(n - off + 1); int op = h::rnd(8);
        auto src = rbytes(sz);
        INPUT("memory of " << n << " bytes " << (n < 100 ? h::hex(m) : "...") << ", operation " << op << " offset " << off << " size " << sz << " data " << (sz < 100 ? h::hex(src) : "..."));
        auto want = m;
        if (op == 0) { b.writeInteger(src.data(), sz, off); std::copy(src.begin(), src.end(), want.begin() + off); }
        else if (op == 1) { b.writeBuffer(src.data(), sz, off); std::copy(src.begin(), src.end(), want.begin() + off); }
        else if (op == 2) { b.writeBytes(src, off); std::copy(src.begin(), src.end(), want.begin() + off); }
        else if (op == 3) { std::vector<uint8_t> d(sz + 2, 0xA5); b.readInteger(d.data() + 1, sz, off);
            CHECK(std::equal(d.begin() + 1, d.end() - 1, m.begin() + off) && d.front() == 0xA5 && d.back() == 0xA5, "read gives " << h::hex(d)); }
        else if (op == 4) { std::vector<uint8_t> d(sz); b.readBytes(d, off); CHECK(d.size() == sz && std::equal(d.begin(), d.end(), m.begin() + off), "read gives " << h::hex(d)); }
        else if (op == 5) { CParameterBlackboard c; c.setSize(sz); b.saveTo(&c, off); CHECK(c.getSize() == sz && std::equal(c.mBlackboard.begin(), c.mBlackboard.end(), m.begin() + off), "saved " << h::hex(c.mBlackboard)); }
        else if (op == 6) { CParameterBlackboard c; c.setSize(sz); c.mBlackboard = src; b.restoreFrom(&c, off); std::copy(src.begin(), src.end(), want.begin() + off); CHECK(c.mBlackboard == src, "source changed"); }
        else { std::string s; for (size_t i = 0; i + 1 < sz; i++) s += char(1 + h::rnd(255)); if (sz) { b.writeString(s, off); std::copy(s.begin(), s.end(), want.begin() + off); want[off + s.size()] = 0; std::string t; b.readString(t, off); CHECK(t == s, "string read back"); } }
        CHECK(b.mBlackboard == want, "memory is " << h::hex(b.mBlackboard) << " expected " << h::hex(want));
    }
}
SCEN(out_of_bounds) {
    for (size_t n : {0u, 4u}) for (size_t sz : {1u, 4u, 5u, 8u}) for (long o : {-8l, -4l, -1l, 0l, 1l, 3l, 4l, 5l}) {
        size_t off = (size_t)o; bool in = off <= n && sz <= n - off;
        std::vector<uint8_t> m(n, 7), d(16, 0);
        if (in) continue;
        for (int op = 0; op < 4; op++) {
            INPUT("memory of " << n << " bytes, operation " << op << " offset " << off << " size " << sz);
            CParameterBlackboard b; b.setSize(n); b.mBlackboard = m;
            CHECK(refused([&] { if (op == 0) b.writeInteger(d.data(), sz, off); else if (op == 1) b.readInteger(d.data(), sz, off);
                else if (op == 2) { std::vector<uint8_t> v(sz); b.writeBytes(v, off); } else { CParameterBlackboard c; c.setSize(sz); b.restoreFrom(&c, off); } }), "access crossing the end is performed instead of being stopped");
        }
    }
}
SCEN(frame) {       // whole system: writing one parameter changes its own bytes only
    FWOpt o; o.instances = ALLPARAMS; FW f(o); CHECK(f.tune(true), f.err);
    std::vector<std::pair<std::string, std::string>> w = {{"bool", "1"}, {"bool_array", "1 1"}, {"u16", "100"}, {"s8", "-3"}, {"u8", "200"}, {"s32", "-1"}, {"u32", "4000000000"}, {"int_array", "1 2 3 -4"}, {"fix", "1.5"}, {"float", "3.25"}, {"enum", "five"}, {"string", "hello"}, {"block/a", "4"}, {"block/b", "60000"}, {"block/c", "255"}, {"blocks/1/y", "513"}, {"bits/eight", "170"}, {"bits/four", "9"}};
    for (auto &p : w) {
        std::string path = "/test/test/" + p.first; INPUT("write " << p.second << " to " << path);
        auto a = f.bb(); CHECK(f.set(path, p.second), f.err); auto b = f.bb();
        std::string own = p.first.compare(0, 4, "bits") ? path : "/test/test/bits"; size_t o1 = f.off(own), l = f.len(own); CHECK(a.size() == b.size(), "size");
        for (size_t i = 0; i < a.size(); i++) CHECK(a[i] == b[i] || (i >= o1 && i < o1 + l), "byte " << i << " changed, the parameter is at " << o1 << "+" << l);
    }
}
