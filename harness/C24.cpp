// texts are split and converted exactly, or refused
#include "h.hpp"
#include "Tokenizer.h"
#include "convert.hpp"
#include "Utility.h"
#include "PathNavigator.h"
#include <climits>
typedef std::vector<std::string> V;
static std::string q(const std::string &s) { std::string r = "\""; for (char c : s) if (c >= ' ' && c < 127) r += c; else { char b[5]; snprintf(b, 5, "\\x%02x", (uint8_t)c); r += b; } return r + "\""; }
static std::string q(const V &v) { std::string r = "["; for (auto &s : v) r += q(s) + " "; return r + "]"; }
static V pieces(const std::string &s, const std::string &d, bool merge) { V r; if (s.empty()) return r; size_t a = 0; for (size_t i = 0; i <= s.size(); i++) if (i == s.size() || d.find(s[i]) != d.npos) { if (!merge || i > a) r.push_back(s.substr(a, i - a)); a = i + 1; } return r; }
static void split(const std::string &s, const std::string &d, bool m) { INPUT("split " << q(s) << " on " << q(d) << (m ? " merging" : "")); V r = Tokenizer(s, d, m).split(), w = pieces(s, d, m); CHECK(r == w, q(r) << " instead of " << q(w)); }
template <class F> static void all(const std::string &alpha, unsigned n, F f) { std::string s; std::function<void(unsigned)> go = [&](unsigned k) { f(s); if (!k) return; for (char c : alpha) { s += c; go(k - 1); s.pop_back(); } }; go(n); }
SCEN(split_all) { for (bool m : {false, true}) { all(std::string("a,b;", 4), h::thorough ? 8 : 6, [&](const std::string &s) { split(s, ",", m); split(s, ",;", m); }); split("a b\n\tc\r\v\fd ", Tokenizer::defaultDelimiters, m); all(std::string("a\0b", 3), 5, [&](const std::string &s) { split(s, std::string(1, '\0'), m); split(s, "", m); split(s, std::string("b\0", 2), m); }); } }
SCEN(split_random) { for (int i = 0; i < (h::thorough ? 40000 : 4000); i++) { std::string s, d; unsigned n = h::rnd(40); for (unsigned k = 0; k < n; k++) s += (char)(h::rnd(3) ? 'a' + h::rnd(4) : h::rnd(256)); n = h::rnd(4); for (unsigned k = 0; k < n; k++) d += s.empty() ? ',' : s[h::rnd(s.size())]; split(s, d, h::rnd(2)); V v = pieces(s, d, false); if (d.size() == 1) CHECK(s.empty() || utility::asString(v, d) == s, "joining the pieces again gives " << q(utility::asString(v, d))); } }
SCEN(default_delimiters) { all(" \n\r\t\v\fa", 4, [&](const std::string &s) { INPUT("split " << q(s)); CHECK(Tokenizer(s).split() == pieces(s, " \n\r\t\v\f", true), "pieces"); }); }
SCEN(paths) { all("/ab", h::thorough ? 8 : 6, [&](const std::string &s) { INPUT("path " << q(s)); CPathNavigator n(s); CHECK(n.isPathValid() == (!s.empty() && s[0] == '/'), "valid"); V w = pieces(s, "/", true); for (auto &x : w) { std::string *p = n.next(); CHECK(p && *p == x, "item"); } CHECK(!n.next(), "more items"); }); }
// ---- numbers
static bool integer(const std::string &s, bool &neg, unsigned __int128 &v) {
    size_t i = 0; neg = false; v = 0; int base = 10;
    if (s.size() > 2 && s[0] == '0' && s[1] == 'x') { base = 16; i = 2; } else if (!s.empty() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; }
    if (i == s.size()) return false;
    for (; i < s.size(); i++) { int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : base == 16 && s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : base == 16 && s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99; if (d >= base) return false; if (v >> 100) v = (unsigned __int128)1 << 100; else v = v * base + d; }
    return true; }
template <class T> static void num(const std::string &s, const char *t) {
    INPUT("convert " << q(s) << " to " << t); bool neg; unsigned __int128 v; bool ok = integer(s, neg, v);
    if (ok) { if (neg) ok = std::numeric_limits<T>::is_signed && v <= (unsigned __int128)std::numeric_limits<T>::max() + 1; else ok = v <= (unsigned __int128)std::numeric_limits<T>::max(); }
    T r = 42; bool got = convertTo<T>(s, r); CHECK(got == ok, (got ? "accepted" : "refused")); if (ok) CHECK(r == (T)(neg ? 0 - (unsigned long long)v : (unsigned long long)v), "gives " << +r); }
static bool real(const std::string &s) { size_t i = 0, n = s.size(); if (i < n && (s[i] == '-' || s[i] == '+')) i++; size_t d = 0; while (i < n && isdigit((uint8_t)s[i])) i++, d++; if (i < n && s[i] == '.') { i++; while (i < n && isdigit((uint8_t)s[i])) i++, d++; } if (!d) return false; if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '-' || s[i] == '+')) i++; size_t e = 0; while (i < n && isdigit((uint8_t)s[i])) i++, e++; if (!e) return false; } return i == n; }
template <class T> static void flt(const std::string &s, const char *t, T w) { INPUT("convert " << q(s) << " to " << t); bool ok = real(s) && std::isfinite(w); T r = 42; bool got = convertTo<T>(s, r); CHECK(got == ok, (got ? "accepted" : "refused")); if (ok) CHECK(r == w, "gives " << r << " instead of " << w); }
static void conv(const std::string &s) {
    num<signed char>(s, "signed char"); num<unsigned char>(s, "unsigned char"); num<short>(s, "short"); num<unsigned short>(s, "unsigned short"); num<int>(s, "int"); num<unsigned>(s, "unsigned"); num<long>(s, "long"); num<unsigned long>(s, "unsigned long"); num<long long>(s, "long long"); num<unsigned long long>(s, "unsigned long long");
    flt<float>(s, "float", strtof(s.c_str(), 0)); flt<double>(s, "double", strtod(s.c_str(), 0));
    INPUT("convert " << q(s) << " to bool"); bool r, t = s == "1" || s == "true" || s == "TRUE", f = s == "0" || s == "false" || s == "FALSE"; bool got = convertTo<bool>(s, r); CHECK(got == (t || f), got); if (got) CHECK(r == t, r); }
SCEN(short_texts) { all("019axX-+.eF ", h::thorough ? 5 : 4, conv); }
SCEN(odd_characters) { for (int c = 0; c < 256; c++) for (std::string b : {"12", "0x12", "-12", "1.5", "", "true"}) for (size_t i = 0; i <= b.size(); i++) { std::string s = b; s.insert(i, 1, (char)c); conv(s); for (int e : {' ', '\f', '\0'}) conv(s + (char)e); } }
static std::string dec(unsigned __int128 v) { std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return s; }
static std::string hx(unsigned __int128 v) { std::string s; do { s.insert(s.begin(), "0123456789abcdef"[(int)(v % 16)]); v /= 16; } while (v); return s; }
SCEN(limits) { for (int b : {0, 7, 8, 15, 16, 31, 32, 63, 64, 65, 96}) for (int k = -3; k <= 3; k++) { unsigned __int128 v = ((unsigned __int128)1 << b) + k; if (b == 0 && k < -1) continue; for (std::string p : {"", "-", "+", "0", "-0", "00000000000000000000000000000000"}) conv(p + dec(v)); for (std::string p : {"0x", "0X", "-0x", "0x0", "0x-", "x", "0x0000000000000000000000000000000000"}) conv(p + hx(v)); } }
SCEN(random_numbers) { for (int i = 0; i < (h::thorough ? 60000 : 5000); i++) { unsigned __int128 v = 0; unsigned n = h::rnd(70); for (unsigned k = 0; k < n; k++) v = v * 2 + h::rnd(2); conv(dec(v)); conv("-" + dec(v)); conv("0x" + hx(v)); std::string s = dec(v); s.insert(h::rnd(s.size() + 1), 1, "+-. xeE\t\f0,"[h::rnd(11)]); conv(s); conv(s + "e" + dec(h::rnd(320))); conv(s + "e-" + dec(h::rnd(300))); } }
SCEN(words) { for (std::string s : {"true", "false", "TRUE", "FALSE", "True", "tRUE", "yes", "on", "nan", "inf", "-inf", "infinity", "NAN", "1e400", "-1e400", "1e39", "3.5e38", "3.4e38", "1f", "1.0f", "1l", "1u", "1,000", "1'000", "1_000", "0b1", "0o7", "017", "08", "1e", "1e+", ".", "-.", "+", "-", "", "0x", "0x1p3", "0x1.8", "--1", "+-1", "1-", "1+1"}) conv(s); }
