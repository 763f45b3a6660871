// Concurrent histories of the queues (plain and event driven).
#include "common.h"
#include "salticidae/event.h"
#include "salticidae/queue.h"
#include <thread>
#include <memory>
using namespace salticidae;

static string enc(long v) { return "value-" + std::to_string(v) + "-padding-padding-padding-" + std::to_string(v * 7919 % 100003); }
static long dec(const string &s) { if (s.compare(0, 6, "value-")) return -1; long v = atol(s.c_str() + 6); return enc(v) == s ? v : -1; }
// copying an element takes time: another thread may run before and after it
static bool slow;
struct El { string s; static int pt() { if (slow) vsim::atomic_point(); return 0; }
    El() {} El(const string &x): s(x) {} El(const El &o): s((pt(), o.s)) { pt(); } El(El &&o): s((pt(), std::move(o.s))) { pt(); }
    El &operator=(const El &o) { pt(); s = o.s; pt(); return *this; } El &operator=(El &&o) { pt(); s = std::move(o.s); pt(); return *this; } };
struct QBase { virtual ~QBase() {} virtual bool enq(long, bool) = 0; virtual bool deq(long &) = 0; virtual void rewind(long) {} virtual void cap(size_t) = 0; };
template<class Q> static bool rew(Q &, const El &, long) { return false; }
static bool rew(MPSCQueue<El> &q, const El &s, int) { return q.rewind(s); }
template<class Q> struct QImpl: QBase {
    Q q;
    bool enq(long v, bool unb) override { El s(enc(v)); bool r = q.enqueue(s, unb); if (!r && dec(s.s) != v) { Ev e("eaten"); e.i("v", v); emit(e); } return r; }
    bool deq(long &v) override { El s; bool r = q.try_dequeue(s); v = r ? dec(s.s) : 0; return r; }
    void rewind(long v) override { rew(q, El(enc(v)), 0); }
    void cap(size_t c) override { q.set_capacity(c); }
};
static QBase *Q; static long nextv = 0; static bool bounded;
static void step(int t, char op, std::vector<long> &last) {
    long v = 0; bool ok = true;
    if (op == 'e' || op == 'b') v = ++nextv; else if (op == 'r') { if (last.empty()) return; v = last.back(); last.pop_back(); }
    { Ev e("call"); e.i("t", t).t("op", string(1, op)).i("v", v); emit(e); }
    if (op == 'e') ok = Q->enq(v, true); else if (op == 'b') ok = Q->enq(v, false); else if (op == 'd') { ok = Q->deq(v); if (ok) last.push_back(v); else if (bounded) last.clear(); } /* putting back across a block already given up may need a block of its own */ else if (op == 'r') Q->rewind(v);
    { Ev e("ret"); e.i("t", t).b("ok", ok).i("v", v); emit(e); }
}
// ---- event driven
struct EQBase { virtual ~EQBase() {} virtual void enq(long) = 0; virtual void reg(EventContext &, int loop, int burst) = 0; virtual void unreg() = 0; };
template<class Q> static bool handle(Q &q, int loop, int burst) { El s; int n = 0; while (q.try_dequeue(s)) { { Ev e("got"); e.i("loop", loop).i("v", dec(s.s)).i("thr", vsim::self()); emit(e); } vsim::point(vsim::PT_CB); if (++n == burst) return true; } return false; }
struct EQS: EQBase { MPSCQueueEventDriven<El> q; void enq(long v) override { q.enqueue(El(enc(v))); } void reg(EventContext &ec, int l, int b) override { q.reg_handler(ec, [l, b](MPSCQueueEventDriven<El> &q) { return handle(q, l, b); }); } void unreg() override { q.unreg_handler(); } };
struct EQM: EQBase { MPMCQueueEventDriven<El> q; void enq(long v) override { q.enqueue(El(enc(v))); } void reg(EventContext &ec, int l, int b) override { q.reg_handler(ec, [l, b](MPMCQueueEventDriven<El> &q) { return handle(q, l, b); }); } void unreg() override { q.unreg_handlers(); } };

static void run_scenario(const std::vector<string> &lines) {
    vsim::on_fatal = fatal_hook; bool started = false; vsim::Cfg c; std::vector<std::pair<int, string>> progs; EQBase *eq = nullptr; std::vector<EventContext *> ecs; std::vector<ThreadCall *> tcs; std::vector<std::thread *> loops;
    std::vector<std::thread *> ths;
    for (auto &l: lines) {
        auto t = toks(l); if (t.empty()) continue; auto k = kvs(t);
        if (t[0] == "sim") { c = parse_sim(t); continue; }
        if (!started) { vsim::start(c); started = true; }
        if (t[0] == "q" || t[0] == "evq") slow = I(k, "slow", 0);
        if (t[0] == "q") {
            Q = t[1] == "mpsc" ? (QBase *)new QImpl<MPSCQueue<El>>() : new QImpl<MPMCQueue<El>>();
            bounded = I(k, "cap", 0); if (bounded) Q->cap(I(k, "cap", 0));
            Ev e("q"); e.t("kind", t[1]).i("slots", I(k, "slots", 0)).i("blk", I(k, "blk", 0)); emit(e);
        } else if (t[0] == "pre") { NoPre np; long v; for (long i = 0; i < atol(t[1].c_str()); i++) { Q->enq(1, true); Q->deq(v); } }
        else if (t[0] == "fill") { NoPre np; std::vector<long> z; for (long i = 0; i < atol(t[1].c_str()); i++) step(0, 'e', z); }
        else if (t[0] == "t") { string p; for (size_t i = 2; i < t.size(); i++) p += t[i]; progs.push_back({atoi(t[1].c_str()), p}); }
        else if (t[0] == "go") { std::vector<std::thread *> th; for (auto &p: progs) th.push_back(new std::thread([p]() { std::vector<long> last; for (char o: p.second) step(p.first, o, last); })); for (auto x: th) { x->join(); delete x; } progs.clear(); }
        else if (t[0] == "drain") { for (int n = 0; n < 100000; n++) { std::vector<long> last; step(0, 'd', last); if (last.empty()) break; } }
        else if (t[0] == "freeq") { delete Q; Q = nullptr; Ev e("freed"); emit(e); }
        // event driven
        else if (t[0] == "evq") { int nl = (int)I(k, "loops", 1); eq = t[1] == "mpsc" ? (EQBase *)new EQS() : new EQM(); for (int i = 0; i < nl; i++) { ecs.push_back(new EventContext()); tcs.push_back(new ThreadCall(*ecs[i])); eq->reg(*ecs[i], i + 1, (int)I(k, "burst", 0)); } Ev e("evq"); e.t("kind", t[1]).i("loops", nl); emit(e); }
        else if (t[0] == "loops") { for (size_t i = 0; i < ecs.size(); i++) loops.push_back(new std::thread([&ecs, i]() { { Ev e("loop"); e.i("loop", i + 1).i("thr", vsim::self()); emit(e); } ecs[i]->dispatch(); })); }
        else if (t[0] == "prod") { int n = atoi(t[1].c_str()), cnt = atoi(t[2].c_str()), gap = t.size() > 3 ? atoi(t[3].c_str()) : 0; ths.push_back(new std::thread([n, cnt, gap, eq]() { for (int i = 1; i <= cnt; i++) { long v = n * 1000 + i; { Ev e("put"); e.i("p", n).i("v", v); emit(e); } eq->enq(v); { Ev e("putd"); e.i("p", n).i("v", v); emit(e); } if (gap) std::this_thread::sleep_for(std::chrono::milliseconds(gap)); } })); }
        else if (t[0] == "join") { for (auto x: ths) { x->join(); delete x; } ths.clear(); }
        else if (t[0] == "run") vsim::run_for(atol(t[1].c_str()) * 1000);
        else if (t[0] == "settle") vsim::settle();
        else if (t[0] == "quiet") { vsim::settle(); Ev e("quiet"); emit(e); }
        else if (t[0] == "stop") { for (size_t i = 0; i < ecs.size(); i++) { auto ec = ecs[i]; tcs[i]->async_call([ec](ThreadCall::Handle &) { ec->stop(); }); loops[i]->join(); delete loops[i]; delete tcs[i]; } loops.clear(); eq->unreg(); delete eq; Ev e("freed"); emit(e); }
        else { fprintf(stderr, "unknown command %s\n", t[0].c_str()); _exit(79); }
    }
    Ev e("done"); e.i("steps", vsim::steps()); emit(e);
}
int main(int argc, char **argv) { return process_driver(argc, argv); }
