// Timers, descriptor events, timed descriptor events, signal and check events on one loop: operations at given
// times and from inside callbacks; every operation and every callback is reported.
#include "common.h"
#include "salticidae/event.h"
#include <thread>
#include <set>
using namespace salticidae;
static const int N = 4;
static EventContext *EC; static TimerEvent T[N]; static FdEvent F[N]; static TimedFdEvent X[N]; static SigEvent G[N]; static CheckEvent C[N];
static std::vector<int> rd, wr; static int pipe_of_F[N], pipe_of_X[N]; static bool capi, top;
struct On { int left; std::vector<string> op; }; static std::multimap<int, On> ons;
static long long now() { return (long long)(vsim::now_us() / 1000); }
static void exec(const std::vector<string> &t);
static int pidx(int fd) { for (size_t i = 0; i < rd.size(); i++) if (rd[i] == fd || wr[i] == fd) return (int)i; return -1; }
static void react(int cb) { std::vector<std::vector<string>> todo; auto r = ons.equal_range(cb); for (auto i = r.first; i != r.second; ++i) if (i->second.left > 0) { i->second.left--; todo.push_back(i->second.op); } for (auto &o: todo) exec(o); }
static void fdfire(const char *c, int cb, int fd, int ev) {
    int p = pidx(fd), bits = 0, n = 0; if (ev & FdEvent::READ) bits |= 1; if (ev & FdEvent::WRITE) bits |= 2; if (ev & FdEvent::ERROR) bits |= 4; if (ev & TimedFdEvent::TIMEOUT) bits |= 8; if (ev & ~(FdEvent::READ | FdEvent::WRITE | FdEvent::ERROR | TimedFdEvent::TIMEOUT)) bits |= 16;
    if ((ev & FdEvent::READ) && p >= 0 && fd == rd[p]) { char b[256]; while (true) { ssize_t k = read(fd, b, sizeof b); if (k <= 0) break; n += k; if (k < (ssize_t)sizeof b) break; } }
    { Ev e("fire"); e.t("c", c).i("cb", cb).i("t", now()).i("p", p).i("e", bits).i("n", n); emit(e); }
    if ((ev & FdEvent::WRITE) && p >= 0) for (int i = 0; i < N; i++) { if (pipe_of_F[i] == p && *c == 'F') exec({"Fdel", std::to_string(i)}); if (pipe_of_X[i] == p && *c == 'X') exec({"Xdel", std::to_string(i)}); }
    react(cb);
}
static void tfire(int cb, TimerEvent &ev) { int who = -1; for (int i = 0; i < N; i++) if (&ev == &T[i]) who = i; Ev e("fire"); e.t("c", "T").i("cb", cb).i("t", now()).i("who", who); emit(e); react(cb); }
static void sfire(int cb, int sig) { Ev e("fire"); e.t("c", "G").i("cb", cb).i("t", now()).i("sig", sig); emit(e); react(cb); }
static void cfire(int cb) { Ev e("fire"); e.t("c", "C").i("cb", cb).i("t", now()); emit(e); react(cb); }
static void c_t(timerev_t *ev, void *u) { tfire((int)(intptr_t)u, *ev); }
static void c_s(int sig, void *u) { sfire((int)(intptr_t)u, sig); }
static TimerEvent::callback_t tcb(int cb) { return [cb](TimerEvent &ev) { tfire(cb, ev); }; }
static FdEvent::callback_t fcb(int cb) { return [cb](int fd, int e) { fdfire("F", cb, fd, e); }; }
static FdEvent::callback_t xcb(int cb) { return [cb](int fd, int e) { fdfire("X", cb, fd, e); }; }
static SigEvent::callback_t scb(int cb) { return [cb](int s) { sfire(cb, s); }; }
static CheckEvent::callback_t kcb(int cb) { return [cb]() { cfire(cb); }; }
template<class E> static void mv(E *a, int i, int j, int how, int *pp) {
    if (how == 0) a[j] = std::move(a[i]); else if (how == 1) { E tmp(std::move(a[i])); a[j] = std::move(tmp); } else if (how == 2) a[i].swap(a[j]); else if (how == 3) std::swap(a[i], a[j]); else if (i != j) { a[j].~E(); new (&a[j]) E(std::move(a[i])); }
    if (pp) { if (how == 2 || how == 3) std::swap(pp[i], pp[j]); else if (i != j) { pp[j] = pp[i]; pp[i] = -1; } else if (how == 1) {} }
}
static void exec(const std::vector<string> &t) {
    string k = t[0]; char c = k[0]; string o = k.substr(1); auto A = [&](size_t i) { return i < t.size() ? atoi(t[i].c_str()) : 0; }; int i = A(1);
    Ev e("op"); e.t("c", string(1, c)).t("k", o).i("i", i).i("t", now()).b("top", top);
    auto live = [&]() -> bool { switch (c) { case 'T': return (bool)T[i]; case 'F': return (bool)F[i]; case 'X': return (bool)X[i]; case 'G': return (bool)G[i]; case 'C': return (bool)C[i]; } return false; };
    if (k == "pipe") { int p[2]; if (pipe2(p, O_NONBLOCK)) _exit(79); rd.push_back(p[0]); wr.push_back(p[1]); return; }
    if (k == "wr") { if (i >= (int)wr.size()) return; if (::write(wr[i], "x", 1) != 1) _exit(79); e.i("p", i); emit(e); return; }
    if (k == "raise") { e.i("sig", i); emit(e); vsim::raise_signal(i); return; }
    if (o == "state") { e.b("v", live()); emit(e); return; }
    if (o == "new") { int cb = A(2), p = A(3); bool w = A(4); if ((c == 'F' || c == 'X') && p >= (int)rd.size()) return;
        // one event object per descriptor
        if (c == 'F' || c == 'X') for (int j = 0; j < N; j++) if ((pipe_of_F[j] == p && F[j] && !(c == 'F' && j == i)) || (pipe_of_X[j] == p && X[j] && !(c == 'X' && j == i))) return;
        if ((c == 'F' && F[i] && pipe_of_F[i] == p) || (c == 'X' && X[i] && pipe_of_X[i] == p)) return;
        e.i("cb", cb).i("p", p).b("w", w);
        if (c == 'T') { if (capi) { auto x = timerev_new(EC, c_t, (void *)(intptr_t)cb); T[i] = std::move(*x); timerev_free(x); } else T[i] = TimerEvent(*EC, tcb(cb)); }
        else if (c == 'F') { F[i] = FdEvent(*EC, w ? wr[p] : rd[p], fcb(cb)); pipe_of_F[i] = p; } else if (c == 'X') { X[i] = TimedFdEvent(*EC, w ? wr[p] : rd[p], xcb(cb)); pipe_of_X[i] = p; }
        else if (c == 'G') { if (capi) { auto x = sigev_new(EC, c_s, (void *)(intptr_t)cb); G[i] = std::move(*x); sigev_free(x); } else G[i] = SigEvent(*EC, scb(cb)); } else C[i] = CheckEvent(*EC, kcb(cb));
        emit(e); return; }
    if (o == "reset") { emit(e); if (c == 'T') T[i] = TimerEvent(); else if (c == 'F') { F[i] = FdEvent(); pipe_of_F[i] = -1; } else if (c == 'X') { X[i] = TimedFdEvent(); pipe_of_X[i] = -1; } else if (c == 'G') G[i] = SigEvent(); else C[i] = CheckEvent(); return; }
    if (o == "clear") { emit(e); if (c == 'T') { if (capi) timerev_clear(&T[i]); else T[i].clear(); } else if (c == 'F') { F[i].clear(); pipe_of_F[i] = -1; } else if (c == 'X') { X[i].clear(); pipe_of_X[i] = -1; } else if (c == 'G') { if (capi) sigev_clear(&G[i]); else G[i].clear(); } else C[i].clear(); return; }
    if (o == "del") { emit(e); if (c == 'T') { if (capi) timerev_del(&T[i]); else T[i].del(); } else if (c == 'F') F[i].del(); else if (c == 'X') X[i].del(); else if (c == 'G') { if (capi) sigev_del(&G[i]); else G[i].del(); } else C[i].del(); return; }
    if (o == "mv") { int j = A(2), how = A(3); e.i("j", j).i("how", how); emit(e); if (c == 'T') mv(T, i, j, how, nullptr); else if (c == 'F') mv(F, i, j, how, pipe_of_F); else if (c == 'X') mv(X, i, j, how, pipe_of_X); else if (c == 'G') mv(G, i, j, how, nullptr); else mv(C, i, j, how, nullptr); return; }
    if (!live()) return;
    if (o == "set") { int cb = A(2); e.i("cb", cb); emit(e); if (c == 'T') { if (capi) timerev_set_callback(&T[i], c_t, (void *)(intptr_t)cb); else T[i].set_callback(tcb(cb)); } else if (c == 'F') F[i].set_callback(fcb(cb)); else if (c == 'X') X[i].set_callback(xcb(cb)); else if (c == 'G') G[i].set_callback(scb(cb)); else C[i].set_callback(kcb(cb)); return; }
    if (o == "add") {
        if (c == 'T') { e.i("ms", A(2)); emit(e); if (capi) timerev_add(&T[i], A(2) / 1000.0); else T[i].add(A(2) / 1000.0); }
        else if (c == 'F') { e.i("m", A(2)); emit(e); F[i].add((A(2) & 1 ? FdEvent::READ : 0) | (A(2) & 2 ? FdEvent::WRITE : 0)); }
        else if (c == 'X') { e.i("m", A(2)).i("ms", A(3)); emit(e); X[i].add((A(2) & 1 ? FdEvent::READ : 0) | (A(2) & 2 ? FdEvent::WRITE : 0), A(3) / 1000.0); }
        else if (c == 'G') { e.i("sig", A(2)).b("once", A(3)); emit(e); if (A(3)) G[i].add_once(A(2)); else if (capi) sigev_add(&G[i], A(2)); else G[i].add(A(2)); }
        else { emit(e); C[i].add(); } return; }
    _exit(79);
}
struct At { int ms; std::vector<string> op; uv_timer_t h; };
static void run_scenario(const std::vector<string> &lines) {
    vsim::on_fatal = fatal_hook; vsim::Cfg c; std::vector<At *> ats; int end = 0;
    for (int i = 0; i < N; i++) pipe_of_F[i] = pipe_of_X[i] = -1;
    for (auto &l: lines) { auto t = toks(l); if (t.empty()) continue; if (t[0] == "sim") c = parse_sim(t); else if (t[0] == "capi") capi = true;
        else if (t[0] == "on") ons.insert({atoi(t[1].c_str()), On{atoi(t[2].c_str()), std::vector<string>(t.begin() + 3, t.end())}});
        else if (t[0] == "at") { auto a = new At(); a->ms = atoi(t[1].c_str()); a->op = std::vector<string>(t.begin() + 2, t.end()); ats.push_back(a); end = std::max(end, a->ms); } else _exit(79); }
    vsim::start(c); EC = new EventContext();
    for (int i = 0; i < N; i++) exec({"pipe"});
    auto fin = new At(); fin->ms = end + 300; ats.push_back(fin); static long nat; nat = (long)ats.size();
    for (auto a: ats) { uv_timer_init(EC->get(), &a->h); a->h.data = a; uv_timer_start(&a->h, [](uv_timer_t *h) { auto a = (At *)h->data; top = true; if (!a->op.empty()) exec(a->op); else for (const char *c: {"T", "F", "X", "G", "C"}) for (int i = 0; i < N; i++) exec({string(c) + (i % 2 ? "clear" : "reset"), std::to_string(i)}); top = false; }, a->ms, 0); }
    std::thread th([] { EC->dispatch(); });
    for (int t = 0; t <= end + 400; t += 50) { vsim::settle(); Ev q("quiet"); q.i("t", now()); emit(q); vsim::run_for(50000); }
    { Ev e("end"); e.i("left", vsim::live_handles() - nat); emit(e); out_flush(); }
    _exit(0);
}
int main(int argc, char **argv) { return process_driver(argc, argv); }
