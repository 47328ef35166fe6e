#include "fix.hpp"
struct B { std::string name; int pos, size; uint64_t max; bool hasMax; };
struct K { std::string name; int size; std::vector<B> b; };
static uint64_t ones(int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
static std::vector<K> cfgs() {
    std::vector<K> v; int n = 0;
    for (int size : {8, 16, 32, 64}) {
        v.push_back({"k" + std::to_string(n++), size, {{"all", 0, size, 0, false}}});
        v.push_back({"k" + std::to_string(n++), size, {{"lo", 0, 1, 0, false}, {"mid", 1, size - 2, 0, false}, {"hi", size - 1, 1, 0, false}}});
        v.push_back({"k" + std::to_string(n++), size, {{"m", 2, 3, 5, true}, {"o", 4, 3, 2, true}, {"z", size - 3, 3, 0, true}}});     // overlapping fields, restricted maxima
        K r{"k" + std::to_string(n++), size, {}}; int p = 0, i = 0; while (p < size) { int s = 1 + h::rnd(std::min(size - p, 17)); if (h::rnd(4)) r.b.push_back({"f" + std::to_string(i++), p, s, h::rng()() & ones(s), h::rnd(3) == 0}); p += s; } if (r.b.empty()) r.b.push_back({"f", 0, 1, 0, false}); v.push_back(r);
    }
    return v;
}
static std::string xml(const std::vector<K> &v) { std::string o = "<IntegerParameter Signed='false' Size='32' Name='before' Mapping='Obj'/>"; for (auto &k : v) { o += "<BitParameterBlock Mapping='Obj' Name='" + k.name + "' Size='" + std::to_string(k.size) + "'>"; for (auto &b : k.b) o += "<BitParameter Name='" + b.name + "' Pos='" + std::to_string(b.pos) + "' Size='" + std::to_string(b.size) + "'" + (b.hasMax ? " Max='" + std::to_string(b.max) + "'" : "") + "/>"; o += "</BitParameterBlock>"; } return o + "<IntegerParameter Signed='false' Size='32' Name='after' Mapping='Obj'/>"; }
static uint64_t word(const std::vector<uint8_t> &m, size_t off, int size) { uint64_t w = 0; for (int i = 0; i < size / 8; i++) w |= uint64_t(m[off + i]) << (8 * i); return w; }
static void poke(FW &f, const std::string &p, uint64_t w, int size) { auto &m = f.mgr->_pMainParameterBlackboard->mBlackboard; for (int i = 0; i < size / 8; i++) m[f.off(p) + i] = (uint8_t)(w >> (8 * i)); }
static void isolated(FW &f, const K &k, const B *b, const std::vector<uint8_t> &m) { size_t o = f.off("/test/test/" + k.name); auto m2 = f.bb(); CHECK(m2.size() == m.size(), "size"); for (size_t i = 0; i < m.size(); i++) CHECK(m[i] == m2[i] || (i >= o && i < o + k.size / 8), "byte " << i << " outside the block changed"); uint64_t ms = b ? ones(b->size) << b->pos : 0; CHECK((word(m, o, k.size) & ~ms) == (word(m2, o, k.size) & ~ms), "other bits of the block changed: " << std::hex << word(m, o, k.size) << " -> " << word(m2, o, k.size)); }
static uint64_t fieldOf(FW &f, const K &k, const B &b) { return (word(f.bb(), f.off("/test/test/" + k.name), k.size) >> b.pos) & ones(b.size); }
static std::vector<uint64_t> contents() { return {0, ~0ull, 0xaaaaaaaaaaaaaaaaull, (uint64_t)h::rng()() << 32 | h::rng()()}; }
static std::set<uint64_t> vals(const B &b) { uint64_t mx = b.hasMax ? b.max : ones(b.size); std::set<uint64_t> s = {0, 1, mx, mx - 1, mx + 1, mx / 2, ones(b.size), ones(b.size) + 1, ~0ull, 1ull << 32, 1ull << 63, 0xffffffffull}; for (int i = 0; i < 3; i++) s.insert(((uint64_t)h::rng()() << 32 | h::rng()()) & ones(b.size)); return s; }
SCEN(text) {
    auto ks = cfgs(); FWOpt o; o.instances = xml(ks); FW f(o); f.tune(true);
    for (auto &k : ks) for (auto &b : k.b) { std::string p = "/test/test/" + k.name + "/" + b.name; uint64_t mx = b.hasMax ? b.max : ones(b.size);
        for (uint64_t c : contents()) for (uint64_t v : vals(b)) for (int form = 0; form < 2; form++) { poke(f, "/test/test/" + k.name, c, k.size); std::ostringstream t; if (form) t << "0x" << std::hex << v; else t << v; INPUT(t.str() << " to bits " << b.pos << "+" << b.size << " (max " << mx << ") of a block of " << k.size << " bits holding " << std::hex << c); f.raw(form);
            auto m = f.bb(); bool r = f.set(p, t.str()); CHECK(r == (v <= mx), (r ? "accepted" : "refused " + f.err)); isolated(f, k, r ? &b : nullptr, m);
            if (r) { CHECK(fieldOf(f, k, b) == v, "field holds " << fieldOf(f, k, b)); f.raw(false); CHECK(f.get(p) == std::to_string(v), "reads " << f.get(p)); f.raw(true); f.hexf(true); std::string x = f.get(p); CHECK(x.substr(0, 2) == "0x" && strtoull(x.c_str(), 0, 16) == v, "hexadecimal reads " << x); f.hexf(false); } }
        for (std::string bad : {"", " ", "-1", "a", "1.5", "0x", "1 ", "18446744073709551616", "0x1ffffffffffffffff"}) { INPUT("'" << bad << "'"); auto m = f.bb(); CHECK(!f.set(p, bad), "accepted"); CHECK(f.bb() == m, "changed"); } }
}
SCEN(handles) {
    auto ks = cfgs(); FWOpt o; o.instances = xml(ks); FW f(o); std::string e;
    for (auto &k : ks) for (auto &b : k.b) { std::string p = "/test/test/" + k.name + "/" + b.name; uint64_t mx = b.hasMax ? b.max : ones(b.size); auto hd = f.handle(p);
        for (uint64_t c : contents()) for (uint64_t v : vals(b)) { if (v >> 32) continue; poke(f, "/test/test/" + k.name, c, k.size); INPUT("handle write of " << v << " to bits " << b.pos << "+" << b.size << " of a block of " << k.size << " bits holding " << std::hex << c); auto m = f.bb(); e = ""; bool r = hd->setAsInteger((uint32_t)v, e); CHECK(r == (v <= mx), (r ? "accepted" : "refused " + e)); isolated(f, k, r ? &b : nullptr, m); if (r) { CHECK(fieldOf(f, k, b) == v, "field"); uint32_t g; CHECK(hd->getAsInteger(g, e) && g == v, "reads " << g); }
            bool bo; r = hd->getAsBoolean(bo, e); CHECK(r == (b.size == 1), "boolean access"); if (r) { CHECK(bo == (fieldOf(f, k, b) != 0), "boolean"); auto m1 = f.bb(); bool ok = hd->setAsBoolean(!bo, e); CHECK(ok == (bo || mx >= 1), e); isolated(f, k, ok ? &b : nullptr, m1); if (ok) CHECK(fieldOf(f, k, b) == (uint64_t)!bo, "boolean write"); } } }
}
SCEN(configurations) {      // a configuration of a single bit parameter saves and restores only its bits
    auto ks = cfgs(); FWOpt o; o.instances = xml(ks); FW f(o); f.tune(true); std::string e; int n = 0;
    for (auto &k : ks) for (auto &b : k.b) { std::string p = "/test/test/" + k.name + "/" + b.name, d = "d" + std::to_string(n++); f.domain(d); f.conf(d, "c"); f.add(d, p); core::Results rs;
        for (uint64_t c : contents()) { uint64_t c2 = (uint64_t)h::rng()() << 32 | h::rng()(); INPUT("save " << p << " at " << std::hex << c << ", restore over " << c2);
            poke(f, "/test/test/" + k.name, c, k.size); auto m = f.bb(); uint64_t want = fieldOf(f, k, b); CHECK(f.pf->saveConfiguration(d, "c", e), e); CHECK(f.bb() == m, "saving changed the settings");
            poke(f, "/test/test/" + k.name, c2, k.size); m = f.bb(); CHECK(f.pf->restoreConfiguration(d, "c", rs), "restore"); isolated(f, k, &b, m); CHECK(fieldOf(f, k, b) == want, "restored " << fieldOf(f, k, b) << " for " << want);
            f.raw(false); CHECK(f.confGet(d, "c", p) == std::to_string(want), "configuration holds " << f.confGet(d, "c", p)); } }
}
SCEN(whole_block_configurations) {      // splitting and merging keep each field
    auto ks = cfgs(); FWOpt o; o.instances = xml(ks); FW f(o); f.tune(true); std::string e; core::Results rs;
    for (auto &k : ks) { std::string p = "/test/test/" + k.name, d = "D" + k.name; INPUT("split of " << p); f.domain(d); f.conf(d, "c"); f.add(d, p); uint64_t c = (uint64_t)h::rng()() << 32 | h::rng()(); poke(f, p, c, k.size); CHECK(f.pf->saveConfiguration(d, "c", e), e); CHECK(f.pf->split(d, p, e), e); poke(f, p, ~c, k.size); auto m = f.bb(); CHECK(f.pf->restoreConfiguration(d, "c", rs), "restore");
        uint64_t un = 0; for (auto &b : k.b) un |= ones(b.size) << b.pos; uint64_t got = word(f.bb(), f.off(p), k.size), want = ((c & un) | (~c & ~un)) & ones(k.size); CHECK(got == want, std::hex << got << " for " << want); }
}
SCEN(structure) {
    for (int size : {8, 16, 32, 64}) for (int pos : {0, 1, size - 1, size, size + 1, 63, 64}) for (int bs : {0, 1, size - 1, size, size + 1}) { FWOpt o; o.start = false; INPUT("bits " << pos << "+" << bs << " of " << size); o.instances = "<BitParameterBlock Mapping='Obj' Name='k' Size='" + std::to_string(size) + "'><BitParameter Name='b' Pos='" + std::to_string(pos) + "' Size='" + std::to_string(bs) + "'/></BitParameterBlock>"; FW f(o); CHECK(f.start() == (bs >= 1 && pos + bs <= size), f.err); }
    struct { const char *mx; bool ok; } t[] = {{"7", true}, {"8", false}, {"0", true}, {"255", false}}; for (auto &x : t) { FWOpt o; o.start = false; INPUT("maximum " << x.mx); o.instances = std::string("<BitParameterBlock Mapping='Obj' Name='k' Size='8'><BitParameter Name='b' Pos='2' Size='3' Max='") + x.mx + "'/></BitParameterBlock>"; FW f(o); CHECK(f.start() == x.ok, f.err); }
}
