// Bounded replay harness: scenarios run the real code of /repo, each in its own process.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <climits>
#include <cfloat>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <memory>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <random>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>

namespace h {
struct Shared { long checks; long cases; char msg[4000]; };
extern Shared *sh;
struct Scen { const char *name; void (*f)(); };
std::vector<Scen> &scens();
struct Reg { Reg(const char *n, void (*f)()) { scens().push_back({n, f}); } };
extern bool thorough;
extern unsigned seed;
std::mt19937 &rng();
inline unsigned rnd(unsigned n) { return n ? rng()() % n : 0; }
[[noreturn]] void fail(const std::string &m);
template <class T> std::string str(const T &v) { std::ostringstream o; o << v; return o.str(); }
std::string scratch();
std::string hex(const std::vector<uint8_t> &v);
// note describing the input under test, reported when the process dies or a check fails
void input(const std::string &m);
}
#define SCEN(n) static void scen_##n(); static h::Reg reg_##n(#n, scen_##n); static void scen_##n()
#define CHECK(c, m) do { h::sh->checks++; if (!(c)) { std::ostringstream o_; o_ << m; h::fail(o_.str() + "  [" #c "]"); } } while (0)
#define INPUT(m) do { h::sh->cases++; std::ostringstream o_; o_ << m; h::input(o_.str()); } while (0)
