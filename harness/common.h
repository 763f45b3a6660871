// Event output and the process driver shared by the harnesses: every scenario runs in a child of its own.
#pragma once
#include "vsim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <csignal>
#include <ctime>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
using std::string;
static int trace_fd = -1;
static string trace_buf;
static void out_flush() { size_t o = 0; while (o < trace_buf.size()) { ssize_t r = syscall(SYS_write, trace_fd, trace_buf.data() + o, trace_buf.size() - o); if (r <= 0) break; o += r; } trace_buf.clear(); }
static void raw_out(const string &s) { trace_buf += s; out_flush(); }
struct Ev {
    string s;
    Ev(const char *n) { s = string("{\"ev\":\"") + n + "\""; }
    Ev &i(const char *k, long long v) { s += string(",\"") + k + "\":" + std::to_string(v); return *this; }
    Ev &b(const char *k, bool v) { s += string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
    Ev &t(const char *k, const string &v) { s += string(",\"") + k + "\":\"" + v + "\""; return *this; }
    Ev &l(const char *k, const std::vector<long long> &v) { s += string(",\"") + k + "\":["; for (size_t j = 0; j < v.size(); j++) s += (j ? "," : "") + std::to_string(v[j]); s += "]"; return *this; }
};
static void emit(const Ev &e) { raw_out(e.s + "}\n"); }
static void fatal_hook(const char *k, const string &d) { Ev e("fatal"); e.t("kind", k).t("detail", d); emit(e); }
struct NoPre { NoPre() { vsim::nopreempt(1); } ~NoPre() { vsim::nopreempt(-1); } };
static std::vector<string> toks(const string &l) { std::vector<string> r; size_t i = 0; while (i < l.size()) { while (i < l.size() && l[i] == ' ') i++; size_t j = i; while (j < l.size() && l[j] != ' ') j++; if (j > i) r.push_back(l.substr(i, j - i)); i = j; } return r; }
static std::map<string, string> kvs(const std::vector<string> &t) { std::map<string, string> m; for (auto &x: t) { auto p = x.find('='); if (p != string::npos) m[x.substr(0, p)] = x.substr(p + 1); } return m; }
static double D(std::map<string, string> &m, const char *k, double d) { return m.count(k) ? atof(m[k].c_str()) : d; }
static long long I(std::map<string, string> &m, const char *k, long long d) { return m.count(k) ? atoll(m[k].c_str()) : d; }
static vsim::Cfg parse_sim(const std::vector<string> &t) {
    vsim::Cfg c; auto k = kvs(t); c.seed = strtoull(k["seed"].c_str(), 0, 10); c.policy = (int)I(k, "policy", 0); c.p_sys = D(k, "psys", 0.3); c.p_lock = D(k, "plock", 0.05);
    c.p_atomic = D(k, "patomic", 0.01); c.p_cb = D(k, "pcb", 0.3); c.p_creep = D(k, "pcreep", 0); c.p_cas_fail = D(k, "pcas", 0); c.max_steps = I(k, "maxsteps", 4000000); return c;
}
static void run_scenario(const std::vector<string> &lines);
// usage: harness SCENARIOS OUT [shard nshards]; scenarios are separated by lines "=== name"
static int process_driver(int argc, char **argv) {
    if (argc < 3) return 2;
    long shard = argc > 3 ? atol(argv[3]) : 0, nsh = argc > 4 ? atol(argv[4]) : 1;
    FILE *f = fopen(argv[1], "r"); if (!f) return 2;
    FILE *o = fopen(argv[2], "w"); if (!o) return 2;
    std::vector<std::pair<string, std::vector<string>>> scs; char *lp = nullptr; size_t cap = 0; ssize_t r;
    while ((r = getline(&lp, &cap, f)) > 0) { string s(lp, r); while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); if (s.compare(0, 4, "=== ") == 0) scs.push_back({s.substr(4), {}}); else if (!scs.empty()) scs.back().second.push_back(s); }
    fclose(f);
    int nlong = 0;
    for (size_t i = 0; i < scs.size(); i++) {
        if ((long)(i % nsh) != shard) continue;
        if (nlong >= 2) { fprintf(o, "=== %s\n", scs[i].first.c_str()); continue; }     // enough: skip the rest
        int p[2]; if (syscall(SYS_pipe2, p, 0)) return 2;
        pid_t pid = fork(); if (pid < 0) return 2;
        if (!pid) {
            close(p[0]); trace_fd = p[1];
            const char *dbg = getenv("VSIM_STDERR"); int e = open(dbg ? dbg : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(e, 2);
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            run_scenario(scs[i].second); out_flush(); _exit(0);
        }
        close(p[1]); string out; char buf[65536]; bool to = false; struct pollfd pf = {p[0], POLLIN, 0}; long budget = getenv("VSIM_TIMEOUT") ? atol(getenv("VSIM_TIMEOUT")) : 60;
        time_t t0 = time(nullptr);
        for (;;) { int k = ::poll(&pf, 1, 1000); if (time(nullptr) - t0 > budget) { to = true; kill(pid, SIGKILL); break; } if (k <= 0) continue; ssize_t q = read(p[0], buf, sizeof buf); if (q <= 0) break; out.append(buf, q); if (out.size() > (64u << 20)) { to = true; kill(pid, SIGKILL); break; } }
        close(p[0]); int st; waitpid(pid, &st, 0);
        if (!out.empty() && out.back() != '\n') { auto q = out.rfind('\n'); out.resize(q == string::npos ? 0 : q + 1); }
        if (to) out += "{\"ev\":\"hang\"}\n";
        if (to || out.find("\"livelock\"") != string::npos) nlong++;
        else if (WIFSIGNALED(st)) out += "{\"ev\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}\n";
        else if (WEXITSTATUS(st) == 79) { fprintf(stderr, "bad scenario %s\n", scs[i].first.c_str()); return 2; }
        else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77) out += "{\"ev\":\"crash\",\"sig\":" + std::to_string(1000 + WEXITSTATUS(st)) + "}\n";
        fprintf(o, "=== %s\n%s", scs[i].first.c_str(), out.c_str()); fflush(o);
    }
    fclose(o); return 0;
}
