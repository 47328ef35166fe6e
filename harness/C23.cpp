// remote protocol: what is sent is what is received, anything else is refused
#include "h.hpp"
#include <sys/socket.h>
#include <thread>
#include <asio.hpp>
#include "RequestMessage.h"
#include "AnswerMessage.h"
#include "RemoteCommandHandler.h"
#include "RemoteProcessorServer.h"
#include "Socket.h"
typedef std::vector<uint8_t> Bytes; typedef std::vector<std::string> Words;
static asio::io_service io;
struct Pair { asio::ip::tcp::socket a, b;
    Pair() : a(io), b(io) { int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) h::fail("socketpair"); a.assign(asio::ip::tcp::v4(), fd[0]); b.assign(asio::ip::tcp::v4(), fd[1]); } };
static const char BL[] = " \t\n\v\f\r";
static bool blank(char c) { for (int i = 0; i < 6; i++) if (BL[i] == c) return true; return false; }
static std::string trimmed(const std::string &s) { size_t a = 0, b = s.size(); while (a < b && blank(s[a])) a++; while (b > a && blank(s[b - 1])) b--; return s.substr(a, b - a); }
static void u32(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); }
static void text(Bytes &b, const std::string &s) { u32(b, s.size()); b.insert(b.end(), s.begin(), s.end()); }
static Bytes payload(const Words &w) { Bytes b; for (auto &s : w) text(b, s); return b; }
static uint8_t sum(uint8_t t, const Bytes &p) { for (uint8_t x : p) t += x; return t; }
static Bytes frame(uint8_t t, const Bytes &p) { Bytes b = {0xBE, 0xBA}; b[0] = 0xBE; b[1] = 0xBA; u32(b, p.size() + 1); b.push_back(t); b.insert(b.end(), p.begin(), p.end()); b.push_back(sum(t, p)); return b; }
static uint32_t rd(const Bytes &b, size_t o) { return b[o] | b[o + 1] << 8 | b[o + 2] << 16 | uint32_t(b[o + 3]) << 24; }
// what a frame at o holds: false when it is to be refused
static bool parse(const Bytes &b, size_t &o, uint8_t &t, Words &w) {
    if (b.size() - o < 7) return false;
    if (b[o] != 0xBE || b[o + 1] != 0xBA) return false;
    uint64_t n = rd(b, o + 2); t = b[o + 6]; if (n < 2) return false; n--;
    if (b.size() - o - 7 < n + 1) return false;
    Bytes p(b.begin() + o + 7, b.begin() + o + 7 + n); if (b[o + 7 + n] != sum(t, p)) return false;
    for (size_t i = 0; i < p.size();) { if (p.size() - i < 4) return false; uint32_t l = rd(p, i); i += 4; if (p.size() - i < l) return false; w.push_back(std::string(p.begin() + i, p.begin() + i + l)); i += l; }
    o += 8 + n; return true; }
static std::string show(const Words &w) { std::string r; for (auto &s : w) { r += " \""; for (char c : s.substr(0, 40)) if (c >= ' ' && c < 127) r += c; else { char q[5]; snprintf(q, 5, "\\x%02x", (uint8_t)c); r += q; } r += s.size() > 40 ? "...\"" : "\""; } return r; }
struct Rec : IRemoteCommandHandler { std::vector<Words> seen; std::function<bool(const Words &, std::string &)> answer;
    bool remoteCommandProcess(const IRemoteCommand &c, std::string &r) override { Words w = {c.getCommand()}; for (size_t i = 0; i < c.getArgumentCount(); i++) w.push_back(c.getArgument(i)); if (c.getArguments() != Words(w.begin() + 1, w.end())) h::fail("getArguments differs"); seen.push_back(w); return answer(w, r); } };
static std::string rtext(unsigned max) { static const char A[] = {'a', 'b', ' ', '\t', '\n', '\0', '"', (char)0xC3, (char)0xFF, '0', '\r', '\v', '\f', '%'}; std::string s; unsigned n = h::rnd(max + 1); for (unsigned i = 0; i < n; i++) s += A[h::rnd(sizeof A)]; return s; }
static Words rwords() { Words w; unsigned n = 1 + h::rnd(5); for (unsigned i = 0; i < n; i++) w.push_back(h::rnd(12) ? rtext(9) : rtext(400)); return w; }
// feeds bytes to a server connection; checks what it executes and answers
static void serve(const Bytes &in, const std::string &what) {
    Pair p; CRemoteProcessorServer srv(0); Rec r; unsigned k = 0;
    r.answer = [&](const Words &w, std::string &o) { o = "answer " + h::str(k) + std::string(1, '\0') + w[0]; return k++ % 2 == 0; };
    INPUT(what);
    std::vector<Words> want; std::vector<Words> ans; size_t o = 0; uint8_t t; Words w;
    while (parse(in, o, t, w)) { for (auto &s : w) s = trimmed(s); ans.push_back({"answer " + h::str(want.size()) + std::string(1, '\0') + w[0]}); want.push_back(w); w.clear(); }
    srv._socket = std::move(p.b); Bytes got; asio::error_code ec;
    std::thread c([&] { asio::error_code e2; asio::write(p.a, asio::buffer(in), e2); p.a.shutdown(asio::ip::tcp::socket::shutdown_send, e2); });
    std::thread rd_([&] { asio::error_code e3; uint8_t buf[4096]; while (size_t n = p.a.read_some(asio::buffer(buf), e3)) got.insert(got.end(), buf, buf + n); });
    srv.handleNewConnection(r); srv._socket.close(); c.join(); rd_.join();
    CHECK(r.seen.size() == want.size(), r.seen.size() << " requests executed instead of " << want.size());
    for (size_t i = 0; i < want.size(); i++) CHECK(r.seen[i] == want[i], "executed" << show(r.seen[i]) << " instead of" << show(want[i]));
    size_t q = 0; for (size_t i = 0; i < ans.size(); i++) { Words a; CHECK(parse(got, q, t, a) && a == ans[i], "answer " << i << show(a)); CHECK((t == 1) == (i % 2 == 0), "answer status"); }
    CHECK(q == got.size(), "something else was answered"); }
SCEN(requests) {
    for (unsigned i = 0; i < (h::thorough ? 6000 : 600); i++) {
        Words w = i == 0 ? Words{""} : i == 1 ? Words{" \t", " "} : i == 2 ? Words{"x", std::string(300000, 'y') + " z"} : rwords(); INPUT("request" << show(w));
        Pair p; std::string e1, e2; CRequestMessage out(w[0]), in; for (size_t k = 1; k < w.size(); k++) out.addArgument(w[k]);
        CMessage::Result r1; std::thread th([&] { r1 = out.serialize(Socket(p.a), true, e1); });
        CMessage::Result r2 = in.serialize(Socket(p.b), false, e2); th.join();
        CHECK(r1 == CMessage::success && r2 == CMessage::success, e1 << e2); CHECK(in.getMsgId() == CMessage::MsgType::ECommandRequest, "type");
        CHECK(in.getCommand() == trimmed(w[0]), "command" << show({in.getCommand()})); CHECK(in.getArgumentCount() == w.size() - 1, in.getArgumentCount() << " arguments"); for (size_t k = 1; k < w.size(); k++) CHECK(in.getArgument(k - 1) == trimmed(w[k]), "argument" << show({in.getArgument(k - 1)}));
        std::string j; for (size_t k = 1; k < w.size(); k++) j += (k > 1 ? " " : "") + trimmed(w[k]); CHECK(in.packArguments(0, w.size() - 1) == j, "packed arguments"); } }
SCEN(answers) {
    for (unsigned i = 0; i < (h::thorough ? 6000 : 600); i++) {
        std::string s = i < 2 ? "" : i < 4 ? std::string(300000, 'y') : rtext(60); bool ok = i % 2; INPUT("answer" << show({s}) << ok);
        Pair p; std::string e1, e2; CAnswerMessage out(s, ok), in; CMessage::Result r1; std::thread th([&] { r1 = out.serialize(Socket(p.a), true, e1); });
        CMessage::Result r2 = in.serialize(Socket(p.b), false, e2); th.join();
        CHECK(r1 == CMessage::success && r2 == CMessage::success, e1 << e2); CHECK(in.success() == ok, "status"); CHECK(in.getAnswer() == s, "answer" << show({in.getAnswer()})); } }
static const std::vector<Words> BASES = {{"cmd"}, {"setParameter", "/a/b", "12"}, {"", ""}, {"x", std::string(70, 'q')}, {"c", std::string("a\0b", 3)}};
SCEN(bit_flips) { for (auto &w : BASES) { Bytes f = frame(0, payload(w)); for (size_t i = 0; i < f.size() * 8; i++) { size_t y = i / 8; if ((y == 4 || y == 5) && i % 8 > 2) continue; /* would wait for a huge message */ Bytes g = f; g[y] ^= 1 << i % 8; Bytes n = frame(0, payload({"next"})); g.insert(g.end(), n.begin(), n.end()); serve(g, "frame of" + show(w) + ", bit " + h::str(i) + " flipped"); } } }
SCEN(truncated) { for (auto &w : BASES) { Bytes f = frame(0, payload(w)); Bytes n = frame(0, payload({"first"})); for (size_t i = 0; i <= f.size(); i++) { Bytes g = n; g.insert(g.end(), f.begin(), f.begin() + i); serve(g, "frame of" + show(w) + " cut after " + h::str(i)); } } }
SCEN(announced_size) { for (auto &w : BASES) for (uint32_t n : {0u, 1u, 2u, 3u, 5u, 8u, 9u, 10u, 100u, 65536u, 1u << 24}) { Bytes f = frame(0, payload(w)); for (int k = 0; k < 4; k++) f[2 + k] = n >> (8 * k); serve(f, "frame of" + show(w) + ", size " + h::str(n)); } }
static Bytes cut(uint32_t announced, size_t real) { Bytes b; u32(b, announced); for (size_t i = 0; i < real; i++) b.push_back('a'); return b; }
SCEN(inner_lengths) {
    for (uint32_t a : {0u, 1u, 2u, 3u, 4u, 5u, 7u, 8u, 0x7fffffffu, 0x80000000u, 0xfffffff8u, 0xfffffffbu, 0xfffffffcu, 0xffffffffu}) for (size_t real = 0; real < 10; real++) for (int pos = 0; pos < 3; pos++) { Bytes b; for (int i = 0; i < pos; i++) text(b, "ok"); Bytes c = cut(a, real); b.insert(b.end(), c.begin(), c.end());
        std::string what = "string " + h::str(pos) + " announced " + h::str(a) + " bytes, " + h::str(real) + " follow"; serve(frame(0, b), what);
        Pair p; INPUT("answer, " << what); Bytes f = frame(1, b); asio::write(p.a, asio::buffer(f)); p.a.shutdown(asio::ip::tcp::socket::shutdown_send); CAnswerMessage m; std::string e; auto r = m.serialize(Socket(p.b), false, e); bool ok = pos == 0 && a == real;
        CHECK((r == CMessage::success) == ok, "result " << r); if (ok) CHECK(m.getAnswer() == std::string(real, 'a'), "answer"); else CHECK(r == CMessage::error && !e.empty(), "no error"); }
    for (size_t n = 0; n < 4; n++) for (int pos = 0; pos < 3; pos++) { Bytes b; for (int i = 0; i < pos; i++) text(b, "ok"); for (size_t i = 0; i < n; i++) b.push_back(0); serve(frame(0, b), h::str(n) + " bytes left over after " + h::str(pos) + " strings"); } }
SCEN(streams) {
    for (unsigned i = 0; i < (h::thorough ? 12000 : 1500); i++) { Bytes b; unsigned n = h::rnd(5); std::string what = "stream " + h::str(i); for (unsigned k = 0; k < n; k++) { Bytes f = frame(0, payload(rwords())); b.insert(b.end(), f.begin(), f.end()); }
        for (unsigned m = h::rnd(3); m && b.size(); m--) { size_t at = h::rnd(b.size()); switch (h::rnd(4)) { case 0: b[at] += 1 + h::rnd(3); break; case 1: b.erase(b.begin() + at); break; case 2: b.insert(b.begin() + at, h::rnd(256)); break; default: { size_t o = h::rnd(b.size()); std::swap(b[at], b[o]); } } }
        bool huge = false; for (size_t o = 0; o + 7 <= b.size(); ) { if (b[o] != 0xBE || b[o + 1] != 0xBA) break; uint64_t s = rd(b, o + 2); if (s > (1u << 26)) { huge = true; break; } o += 7 + s; } if (huge) continue;
        serve(b, what + " of " + h::str(b.size()) + " bytes"); } }
SCEN(server) {
    CRemoteProcessorServer srv(0); std::string e; if (!srv.start(e)) { INPUT("no network here"); return; } Rec r; r.answer = [](const Words &w, std::string &o) { o = "got " + w[0]; return w.size() > 1; }; std::thread th([&] { srv.process(r); }); int port = srv._acceptor.local_endpoint().port();
    for (int i = 0; i < 30; i++) { INPUT("connection " << i); asio::ip::tcp::socket s(io); asio::error_code ec; s.connect(asio::ip::tcp::endpoint(asio::ip::address_v6::loopback(), port), ec); if (ec) { s.close(); s.connect(asio::ip::tcp::endpoint(asio::ip::address_v4::loopback(), port), ec); } if (ec) break;
        if (i % 3 == 0) { Bytes g = frame(0, payload({"bad"})); g[7 + i % 4]++; asio::write(s, asio::buffer(g), ec); uint8_t x; CHECK(asio::read(s, asio::buffer(&x, 1), ec) == 0, "a corrupted request was answered"); continue; }
        for (int k = 0; k < 3; k++) { CRequestMessage q("cmd" + h::str(i) + "." + h::str(k)); if (k) q.addArgument("arg"); CAnswerMessage a; CHECK(q.serialize(Socket(s), true, e) == CMessage::success, e); CHECK(a.serialize(Socket(s), false, e) == CMessage::success, e); CHECK(a.success() == (k > 0) && a.getAnswer() == "got " + q.getCommand(), "answer " << a.getAnswer()); } }
    srv.stop(); th.join(); for (auto &w : r.seen) CHECK(w[0] != "bad", "executed"); }
