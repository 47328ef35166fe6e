#include "h.hpp"
#include <csignal>
#include <ctime>
namespace h {
Shared *sh; bool thorough; unsigned seed = 1;
static char cur[2000];
std::vector<Scen> &scens() { static std::vector<Scen> v; return v; }
std::mt19937 &rng() { static std::mt19937 r(seed); return r; }
void input(const std::string &m) { strncpy(sh->msg, m.c_str(), sizeof sh->msg - 1); sh->msg[sizeof sh->msg - 1] = 0; strncpy(cur, m.c_str(), sizeof cur - 1); }
void fail(const std::string &m) { std::string t = cur[0] ? std::string("input: ") + cur + " -- " + m : m; strncpy(sh->msg, t.c_str(), sizeof sh->msg - 1); fflush(stdout); _exit(3); }
static std::string dir;
std::string scratch() { return dir; }
std::string hex(const std::vector<uint8_t> &v) { std::string s; char b[4]; for (auto x : v) { snprintf(b, 4, "%02x", x); s += b; } return s; }
static std::string esc(const char *s) { std::string o; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
}
using namespace h;
int main(int argc, char **argv) {
    const char *only = nullptr;
    for (int i = 1; i < argc; i++) only = argv[i];
    if (getenv("VERIF_SEED")) seed = atoi(getenv("VERIF_SEED"));
    thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
    dir = getenv("H_SCRATCH") ? getenv("H_SCRATCH") : ".";
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int bad = 0;
    for (auto &s : scens()) {
        if (only && strcmp(only, s.name)) continue;
        memset(sh, 0, sizeof *sh);
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            alarm(thorough ? 600 : 90);
            std::string e = dir + "/stderr." + s.name; FILE *f = freopen(e.c_str(), "w", stderr); (void)f;
            f = freopen("/dev/null", "w", stdout); (void)f;
            try { s.f(); } catch (const std::exception &x) { fail(std::string("unexpected exception: ") + x.what()); }
            catch (...) { fail("unexpected exception"); }
            _exit(0);
        }
        int st = 0; waitpid(p, &st, 0);
        const char *r = "ok"; char why[100] = "";
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r = "ok";
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) r = "fail";
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r = "timeout"; }
        else { r = "crash"; if (WIFSIGNALED(st)) snprintf(why, 100, "killed by signal %d", WTERMSIG(st)); else snprintf(why, 100, "exit status %d", WEXITSTATUS(st)); }
        if (strcmp(r, "ok")) bad = 1;
        printf("{\"scenario\": \"%s\", \"result\": \"%s\", \"checks\": %ld, \"cases\": %ld, \"why\": \"%s\", \"msg\": \"%s\"}\n", s.name, r, sh->checks, sh->cases, why, strcmp(r, "ok") ? esc(sh->msg).c_str() : "");
        fflush(stdout);
    }
    return bad;
}
