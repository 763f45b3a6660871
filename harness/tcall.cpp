// Cross-thread calls: ThreadCall on event loops, used from many threads.
#include "common.h"
#include "salticidae/event.h"
#include <thread>
#include <memory>
#include <stdexcept>
using namespace salticidae;
struct Tok { long id; Tok(long id): id(id) {} ~Tok() { Ev e("gone"); e.i("id", id).i("thr", vsim::self()); emit(e); } };
struct Loop { EventContext ec; std::thread *th = nullptr; ThreadCall *stopper = new ThreadCall(ec); };
static std::map<int, Loop *> loops; static std::map<int, ThreadCall *> tcs; static std::map<int, int> tcec; static long nid = 0; static size_t CAPI;
struct Boom: std::runtime_error { long id; Boom(long id): std::runtime_error("boom"), id(id) {} };
static void ran(long id, const char *ev) { Ev e(ev); e.i("id", id).i("thr", vsim::self()); emit(e); }
static void endloop(int l);
// kinds: a plain, A throws, n posts to another (or the same) loop, s stops the ThreadCall; c/S/v/C synchronous
static void act(int by, char k, int tc, int tc2) {
    long id = ++nid; auto tok = std::make_shared<Tok>(id); auto t = tcs[tc];
    bool sync = strchr("cSvC", k);
    { Ev e("post"); e.i("id", id).i("by", by).i("tc", tc).t("kind", string(1, k)).b("sync", sync); emit(e); }
    auto fn = [id, k, tc, tc2, tok](ThreadCall::Handle &h) {
        ran(id, "run"); vsim::point(vsim::PT_CB);
        if (k == 'n') act(100 + tcec[tc], 'a', tc2, 0);
        if (k == 's') { tcs[tc]->stop(); Ev e("stopped"); e.i("tc", tc); emit(e); }
        if (k == 'c') h.set_result(id * 10);
        if (k == 'S') h.set_result(string("a result that does not fit a small string ") + std::to_string(id));
        vsim::point(vsim::PT_CB);
        ran(id, "end");
        if (k == 'A' || k == 'C') throw Boom(id);
    };
    tok = nullptr;
    if (!sync) {
        if (CAPI && k == 'a') { auto p = new std::function<void(ThreadCall::Handle &)>(std::move(fn)); threadcall_async_call(t, [](threadcall_handle_t *h, void *u) { auto p = (std::function<void(ThreadCall::Handle &)> *)u; (*p)(*h); delete p; }, p); }
        else t->async_call(std::move(fn));
        Ev e("posted"); e.i("id", id); emit(e); return;
    }
    string what = "none"; long v = 0;
    try {
        auto r = t->call(std::move(fn)); void *d = r.get();
        if (!d) what = "null";
        else if (k == 'c') { v = *(long *)d; what = "val"; }
        else if (k == 'S') { auto &s = *(string *)d; what = s == string("a result that does not fit a small string ") + std::to_string(id) ? "str" : "bad"; v = id; }
        else what = "bad";
    } catch (Boom &b) { what = "boom"; v = b.id; } catch (SalticidaeError &e) { what = "error"; v = e.get_code(); } catch (...) { what = "other"; }
    Ev e("res"); e.i("id", id).t("what", what).i("v", v); emit(e);
}
static void prog(int by, const std::vector<string> &ops) {
    for (auto &o: ops) { int tc = 0, tc2 = 0; char k = o[0]; sscanf(o.c_str() + 1, ":%d:%d", &tc, &tc2); if (k == 'w') std::this_thread::sleep_for(std::chrono::milliseconds(tc)); else act(by, k, tc, tc2); }
}
static void endloop(int l) { auto lp = loops[l]; lp->stopper->async_call([lp](ThreadCall::Handle &) { lp->ec.stop(); }); lp->th->join(); delete lp->th; lp->th = nullptr; delete lp->stopper; Ev e("loopend"); e.i("loop", l); emit(e); }
static void run_scenario(const std::vector<string> &lines) {
    vsim::on_fatal = fatal_hook; bool started = false; vsim::Cfg c; std::vector<std::pair<int, std::vector<string>>> progs; std::vector<std::thread *> ths;
    for (auto &l: lines) {
        auto t = toks(l); if (t.empty()) continue; auto k = kvs(t);
        if (t[0] == "sim") { c = parse_sim(t); continue; }
        if (!started) { vsim::start(c); started = true; }
        int n = t.size() > 1 ? atoi(t[1].c_str()) : 0;
        if (t[0] == "capi") CAPI = 1;
        else if (t[0] == "ec") loops[n] = new Loop();
        else if (t[0] == "tc") { int e = atoi(t[2].c_str()); tcec[n] = e; tcs[n] = I(k, "burst", 0) ? new ThreadCall(loops[e]->ec, I(k, "burst", 0)) : new ThreadCall(loops[e]->ec); Ev v("tc"); v.i("tc", n).i("loop", e); emit(v); }
        else if (t[0] == "loop") { auto lp = loops[n]; lp->th = new std::thread([lp, n]() { { Ev e("loop"); e.i("loop", n).i("thr", vsim::self()); emit(e); } lp->ec.dispatch(); }); }
        else if (t[0] == "t") progs.push_back({n, std::vector<string>(t.begin() + 2, t.end())});
        else if (t[0] == "go") { for (auto &p: progs) ths.push_back(new std::thread([p]() { prog(p.first, p.second); })); progs.clear(); }
        else if (t[0] == "join") { for (auto x: ths) { x->join(); delete x; } ths.clear(); }
        else if (t[0] == "run") vsim::run_for(n * 1000);
        else if (t[0] == "settle") vsim::settle();
        else if (t[0] == "quiet") { vsim::settle(); Ev e("quiet"); emit(e); }
        else if (t[0] == "endloop") endloop(n);
        else if (t[0] == "freetc") { { Ev e("free"); e.i("tc", n); emit(e); } delete tcs[n]; tcs[n] = nullptr; Ev e("freed"); e.i("tc", n); emit(e); }
        else if (t[0] == "stoptc") { tcs[n]->stop(); Ev e("stopped"); e.i("tc", n); emit(e); }
        else _exit(79);
    }
    Ev e("done"); emit(e);
}
int main(int argc, char **argv) { return process_driver(argc, argv); }
