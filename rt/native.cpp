// Native replay runtime: reads a replay file with one or more traces; runs vs_main() in a child process per trace.
// usage: prog FILE     records: "T" starts a trace, "P i v", "I name n hex", "O label hex"
// prints per trace: "R <idx> ok|assert|crash|timeout|mismatch|desync <detail>"
#include "vs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <csignal>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
struct In { std::string name; size_t n; std::vector<uint8_t> b; };
struct Tr { std::vector<int64_t> params; std::vector<In> in; std::vector<std::pair<std::string, std::string>> obs; };
static Tr* T; static size_t g_in, g_ob; static int g_pipe = 1; static bool g_checkObs;
static void out(const std::string& s) { std::string l = s + "\n"; ssize_t r = write(g_pipe, l.data(), l.size()); (void)r; }
[[noreturn]] static void fin(const char* k, const std::string& d) { out(std::string(k) + " " + d); _exit(0); }
static In& next(const char* name, size_t n) {
    static In zero;
    if (g_in >= T->in.size()) { // the engine stopped here: no further input was recorded
        if (g_checkObs) fin("desync", std::string("unexpected input ") + name);
        zero.b.assign(n, 0); return zero;
    }
    In& i = T->in[g_in++];
    if (i.name != name || i.n != n) fin("desync", std::string("input ") + name + " expected " + i.name);
    return i;
}
static std::string hexs(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; ++i) { uint8_t c = ((const uint8_t*)p)[i]; s += d[c >> 4]; s += d[c & 15]; } return n ? s : "-"; }
template <class U> static U val(const char* name) { In& i = next(name, sizeof(U)); U u = 0; memcpy(&u, i.b.data(), sizeof(U)); return u; }
extern "C" {
void vs_make_symbolic(void* p, size_t n, const char* name) { In& i = next(name, n); if (n) memcpy(p, i.b.data(), n); }
uint8_t vs_u8(const char* n) { return val<uint8_t>(n); }
uint16_t vs_u16(const char* n) { return val<uint16_t>(n); }
uint32_t vs_u32(const char* n) { return val<uint32_t>(n); }
uint64_t vs_u64(const char* n) { return val<uint64_t>(n); }
uint64_t vs_range(uint64_t lo, uint64_t hi, const char* n) { uint64_t v = val<uint64_t>(n); if (v < lo || v > hi) { if (g_in > T->in.size() - 0 || v == 0) v = lo; else fin("desync", n); } return v; }
uint32_t vs_choose(uint32_t k, const char* n) { uint32_t v = val<uint32_t>(n); if (v >= k) fin("desync", n); return v; }
uint64_t vs_concretize(uint64_t x) { return x; }
void vs_assume(bool c) { if (!c) fin("assumed", ""); }
void vs_check(bool c, const char* m) { if (!c) fin("assert", m); }
void vs_fail(const char* m) { fin("assert", m); }
void vs_cover(const char*) {}
static void obs(const char* l, const std::string& h) {
    if (!g_checkObs) return;
    if (g_ob >= T->obs.size()) fin("mismatch", std::string("extra observation ") + l);
    auto& o = T->obs[g_ob++];
    if (o.first != l || o.second != h) fin("mismatch", std::string(l) + " native=" + h + " engine=" + o.first + ":" + o.second);
}
void vs_obs_u64(const char* l, uint64_t v) { obs(l, hexs(&v, 8)); }
void vs_obs_bytes(const char* l, const void* p, size_t n) { obs(l, hexs(p, n)); }
int64_t vs_param(int i) { return (size_t)i < T->params.size() ? T->params[i] : 0; }
void vs_stop() { if (g_checkObs && g_ob != T->obs.size()) fin("mismatch", "missing observations"); fin("ok", ""); }
void vs_log(const char* s, uint64_t v) { fprintf(stderr, "LOG %s %lld\n", s, (long long)v); }
}
extern int vs_fill;
int main(int argc, char** argv) {
    if (argc < 2) return 2;
    if (const char* f = getenv("VS_FILL")) vs_fill = atoi(f);
    g_checkObs = argc < 3 || strcmp(argv[2], "--noobs") != 0;
    unsigned tmo = argc > 3 ? atoi(argv[3]) : 20;
    std::vector<Tr> tr; std::ifstream f(argv[1]); std::string line;
    while (std::getline(f, line)) {
        std::istringstream s(line); std::string k; s >> k;
        if (k == "T") tr.emplace_back();
        else if (tr.empty()) tr.emplace_back();
        if (k == "P") { size_t i; long long v; s >> i >> v; auto& p = tr.back().params; if (p.size() <= i) p.resize(i + 1); p[i] = v; }
        else if (k == "I") { In i; std::string h; s >> i.name >> i.n >> h; for (size_t q = 0; h != "-" && q + 1 < h.size(); q += 2) i.b.push_back((uint8_t)strtoul(h.substr(q, 2).c_str(), nullptr, 16)); tr.back().in.push_back(i); }
        else if (k == "O") { std::string l, h; s >> l >> h; tr.back().obs.push_back({l, h}); }
    }
    for (size_t i = 0; i < tr.size(); ++i) {
        int fd[2]; if (pipe(fd)) return 2;
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            close(fd[0]); g_pipe = fd[1]; T = &tr[i]; g_in = g_ob = 0; alarm(tmo);
            vs_main();
            if (g_checkObs && g_ob != T->obs.size()) fin("mismatch", "missing observations");
            fin("ok", "");
        }
        close(fd[1]); std::string r; char b[512]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n); close(fd[0]);
        int st; waitpid(p, &st, 0);
        if (r.empty()) { std::ostringstream o; if (WIFSIGNALED(st)) o << (WTERMSIG(st) == SIGALRM ? "timeout" : "crash") << " signal " << WTERMSIG(st); else o << "crash exit " << WEXITSTATUS(st); r = o.str() + "\n"; }
        printf("R %zu %s", i, r.c_str()); fflush(stdout);
    }
    return 0;
}
