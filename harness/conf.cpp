// Text the user writes: addresses, options on the command line and in files, formatting and splitting of strings.
#include "common.h"
#include "salticidae/config.h"
#include "salticidae/stream.h"
#include "salticidae/netaddr.h"
#include "salticidae/util.h"
#include <dirent.h>
#include <cmath>
#include <getopt.h>
using namespace salticidae;
static string unhex(const string &h) { string r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), 0, 16)); return r; }
static string js(const string &s) { string r = "["; for (size_t i = 0; i < s.size(); i++) r += (i ? "," : "") + std::to_string((uint8_t)s[i]); return r + "]"; }
static string jss(const std::vector<string> &v) { string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + js(v[i]); return r + "]"; }
static Ev &J(Ev &e, const char *k, const string &j) { e.s += string(",\"") + k + "\":" + j; return e; }
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
struct O { string ty; RcObj<Config::OptValFlag> f; RcObj<Config::OptValStr> s; RcObj<Config::OptValInt> i; RcObj<Config::OptValDouble> d; RcObj<Config::OptValStrVec> v; };
static std::vector<string> files(10); static string paths[10];
static string subst(string s) { for (size_t p = 0; (p = s.find('@', p)) != string::npos && p + 1 < s.size(); p++) if (isdigit(s[p + 1])) s.replace(p, 2, paths[s[p + 1] - '0']); return s; }
static int code_of(const std::function<void()> &f) { try { f(); return 0; } catch (SalticidaeError &e) { return e.get_code(); } catch (std::exception &) { return -2; } catch (...) { return -3; } }
static string vfmt(const char *f, ...) { va_list ap; va_start(ap, f); auto r = vstringprintf(f, ap); va_end(ap); return r; }
struct TLog: Logger { using Logger::Logger; };
static void run_scenario(const std::vector<string> &lines) {
    BoxObj<Config> cfg; std::vector<O> os; opterr = 0; bool capi = false;
    for (int i = 0; i < 10; i++) paths[i] = "/proc/self/fd/" + std::to_string(100 + i);
    for (auto &l: lines) {
        auto t = toks(l); if (t.empty()) continue; string k = t[0]; if (k == "sim") continue; if (k == "capi") { capi = true; continue; }
        auto A = [&](size_t i) { return i < t.size() ? t[i] : string("-"); };
        Ev e("op"); e.t("k", k);
        if (k == "file") { int n = atoi(A(1).c_str()); string d, raw; long lng = 0; // file N hex [long]: the text, then a line of 'long' letters
            raw = unhex(A(2)); lng = atol(A(3).c_str()); d = subst(raw); if (lng) d += string(lng, 'x') + "\n";
            int fd = (int)syscall(SYS_memfd_create, "conf", 0); if (fd < 0 || ::write(fd, d.data(), d.size()) != (ssize_t)d.size()) _exit(79);
            if (dup2(fd, 100 + n) != 100 + n) _exit(79); ::close(fd); J(e.i("n", n), "d", js(raw)).i("lng", lng); }
        else if (k == "cfg") { string f = A(1); os.clear(); if (f == "-") cfg = new Config(); else cfg = new Config(f == "none" ? string("") : subst(f)); J(e, "f", js(f)); }
        else if (k == "opt") { // opt name type action short
            O o; o.ty = A(2); Config::optval_t v; string a = A(3); char sh = A(4) == "-" ? -1 : A(4)[0];
            if (o.ty == "flag") { o.f = Config::OptValFlag::create(false); v = o.f; } else if (o.ty == "str") { o.s = Config::OptValStr::create(string("def")); v = o.s; } else if (o.ty == "int") { o.i = Config::OptValInt::create(7); v = o.i; }
            else if (o.ty == "dbl") { o.d = Config::OptValDouble::create(0.5); v = o.d; } else { o.v = Config::OptValStrVec::create(); v = o.v; }
            Config::Action ac = a == "on" ? Config::SWITCH_ON : a == "set" ? Config::SET_VAL : Config::APPEND;
            int c = code_of([&] { cfg->add_opt(A(1), v, ac, sh, "doc of " + A(1)); }); if (!c) os.push_back(o);
            J(e, "name", js(A(1))).t("ty", o.ty).t("a", a).i("sh", A(4) == "-" ? 0 : sh).i("c", c); }
        else if (k == "parse" || k == "load") {
            int before = nfds(); size_t ind = 0; std::vector<string> args, raw; int c; bool found = false;
            if (k == "parse") { raw.push_back("prog"); for (size_t i = 1; i < t.size(); i++) raw.push_back(unhex(t[i])); for (auto &x: raw) args.push_back(subst(x)); std::vector<char *> av; for (auto &x: args) av.push_back(&x[0]); av.push_back(nullptr); optind = 0; c = code_of([&] { ind = cfg->parse((int)args.size(), av.data()); }); raw.erase(raw.begin()); }
            else { raw.push_back(A(1)); c = code_of([&] { found = cfg->load(subst(A(1))); }); }
            string vals = "["; for (size_t i = 0; i < os.size(); i++) { auto &o = os[i]; vals += i ? "," : ""; if (o.f) vals += o.f->get() ? "[1]" : "[0]"; else if (o.s) vals += js(o.s->get()); else if (o.i) vals += js(std::to_string(o.i->get())); else if (o.d) vals += "[" + std::to_string((long long)llround(o.d->get() * 1000)) + "]"; else vals += jss(o.v->get()); } vals += "]";
            J(J(e, "args", jss(raw)), "vals", vals).i("c", c).i("ind", (long long)ind).b("found", found).i("leak", nfds() - before); }
        else if (k == "addr") { string s = unhex(A(1)); NetAddr a; int c = 0; if (capi) { SalticidaeCError ce = salticidae_cerror_normal(); auto p = netaddr_new_from_sipport(s.c_str(), &ce); c = ce.code; if (p) { a = *p; netaddr_free(p); } else if (!c) c = -4; } else c = code_of([&] { a = NetAddr(s); });
            uint32_t ip = ntohl(a.ip); J(J(e, "a", js(s)), "ip", "[" + std::to_string(ip >> 24) + "," + std::to_string(ip >> 16 & 255) + "," + std::to_string(ip >> 8 & 255) + "," + std::to_string(ip & 255) + "]").i("port", ntohs(a.port)).i("c", c); }
        else if (k == "ipport") { string s = unhex(A(1)); int port = atoi(A(2).c_str()); NetAddr a; int c = 0; if (capi) { SalticidaeCError ce = salticidae_cerror_normal(); auto p = netaddr_new_from_sip_port(s.c_str(), port, &ce); c = ce.code; if (p) { a = *p; netaddr_free(p); } else if (!c) c = -4; } else c = code_of([&] { a = NetAddr(s, port); });
            uint32_t ip = ntohl(a.ip); string str = (string)a; J(J(J(e, "a", js(s)), "ip", "[" + std::to_string(ip >> 24) + "," + std::to_string(ip >> 16 & 255) + "," + std::to_string(ip >> 8 & 255) + "," + std::to_string(ip & 255) + "]"), "str", js(str)).i("n", port).i("port", ntohs(a.port)).i("c", c).b("nul", capi ? netaddr_is_null(&a) : a.is_null()); }
        else if (k == "acmp") { auto num = [&](size_t i) { return (uint32_t)strtoul(A(i).c_str(), 0, 10); }; NetAddr a(num(1), num(2)), b(num(3), num(4)); e.i("a", num(1)).i("ap", num(2)).i("b", num(3)).i("bp", num(4)).b("eq", capi ? netaddr_is_eq(&a, &b) : a == b).b("ne", a != b).b("heq", std::hash<NetAddr>()(a) == std::hash<NetAddr>()(b)); }
        else if (k == "fmt") { int n = atoi(A(1).c_str()), m = atoi(A(2).c_str()); string s; for (int i = 0; i < n; i++) s += (char)('a' + (i * 7 + i / 26) % 26); string w = s + "|" + std::to_string(m); string r = m % 2 ? stringprintf("%s|%d", s.c_str(), m) : vfmt("%s|%d", s.c_str(), m); size_t j = 0; while (j < r.size() && j < w.size() && r[j] == w[j]) j++; e.i("n", n).i("m", m).i("len", r.size()).i("want", w.size()).i("same", j); }
        else if (k == "log") { int n = atoi(A(1).c_str()), lv = atoi(A(2).c_str()); string s; for (int i = 0; i < n; i++) s += (char)('a' + (i * 5) % 26); int p[2]; if (syscall(SYS_pipe2, p, 0)) _exit(79); TLog lg("pfx", p[1]); if (lv == 0) lg.info("%s", s.c_str()); else if (lv == 1) lg.debug("%s", s.c_str()); else if (lv == 2) lg.warning("%s", s.c_str()); else lg.error("%s", s.c_str());
            ::close(p[1]); string r; char b[4096]; ssize_t x; while ((x = syscall(SYS_read, p[0], b, sizeof b)) > 0) r.append(b, x); ::close(p[0]); string w = string(" [pfx ") + (lv == 0 ? "info" : lv == 1 ? "debug" : lv == 2 ? "warn" : "error") + "] " + s + "\n"; bool ok = r.size() >= w.size() && r.compare(r.size() - w.size(), w.size(), w) == 0 && r.find('\n') == r.size() - 1; e.i("n", n).b("ok", ok); }
        else if (k == "split") { string s = unhex(A(1)), d = unhex(A(2)); J(J(J(e, "a", js(s)), "b", js(d)), "out", jss(split(s, d))); }
        else if (k == "trim") { string s = unhex(A(1)); string r = A(2) == "-" ? trim(s) : trim(s, unhex(A(2))); J(J(J(J(e, "a", js(s)), "b", js(A(2) == "-" ? string("\t\r\n ") : unhex(A(2)))), "out", js(r)), "all", jss(trim_all(split(s, ",")))); }
        else if (k == "rnd") { int b = atoi(A(1).c_str()); double lo = 1e18, hi = -1e18; for (int i = 0; i < 50; i++) { double x = gen_rand_timeout(b / 1000.0); lo = std::min(lo, x); hi = std::max(hi, x); } e.i("b", b).i("lo", (long long)floor(lo * 1000 + 1e-6)).i("hi", (long long)ceil(hi * 1000 - 1e-6)); }
        else if (k == "sec") { int ms = atoi(A(1).c_str()); struct timeval tv; sec2tv(ms / 1000.0, tv); e.i("ms", ms).i("s", tv.tv_sec).i("us", tv.tv_usec); }
        else if (k == "err") { int c = atoi(A(1).c_str()), o = atoi(A(2).c_str()); string str = salticidae_strerror(c); bool in = str != "invalid", ok = true; if (in) { SalticidaeError x(c, o); string w = str + (o ? string(": ") + strerror(o) : string()); ok = w == x.what() && w == (string)x && x.get_code() == c && x.get_oscode() == o && x.get_cerr().code == c && x.get_cerr().oscode == o; } e.i("c", c).b("in", in).b("ok", ok); J(e, "str", js(str)); }
        else _exit(79);
        emit(e);
    }
    Ev e("done"); emit(e);
}
int main(int argc, char **argv) { return process_driver(argc, argv); }
