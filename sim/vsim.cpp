// See vsim.h.  Nothing here includes library headers; only <uv.h> types and libc.
#include <uv.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <set>
#include <deque>
#include <list>
#include <unordered_map>
#include <algorithm>
#include "vsim.h"

#define REAL(name) ((decltype(&::name))real_sym(#name))
static void *real_sym(const char *n) { void *p = dlsym(RTLD_NEXT, n); if (!p) { fprintf(stderr, "no real %s\n", n); abort(); } return p; }
#define DEFREAL(name) static decltype(&::name) r_##name() { static decltype(&::name) f = REAL(name); return f; }

DEFREAL(pthread_create) DEFREAL(pthread_join) DEFREAL(pthread_detach)
DEFREAL(pthread_mutex_lock) DEFREAL(pthread_mutex_trylock) DEFREAL(pthread_mutex_unlock)
DEFREAL(pthread_cond_wait) DEFREAL(pthread_cond_timedwait) DEFREAL(pthread_cond_signal) DEFREAL(pthread_cond_broadcast)
DEFREAL(pthread_rwlock_rdlock) DEFREAL(pthread_rwlock_wrlock) DEFREAL(pthread_rwlock_tryrdlock) DEFREAL(pthread_rwlock_trywrlock) DEFREAL(pthread_rwlock_unlock)
DEFREAL(sched_yield) DEFREAL(nanosleep) DEFREAL(usleep)
DEFREAL(read) DEFREAL(write) DEFREAL(readv) DEFREAL(writev) DEFREAL(close) DEFREAL(send) DEFREAL(recv) DEFREAL(sendto) DEFREAL(recvfrom) DEFREAL(sendmsg) DEFREAL(recvmsg)
DEFREAL(socket) DEFREAL(connect) DEFREAL(bind) DEFREAL(listen) DEFREAL(accept) DEFREAL(accept4) DEFREAL(shutdown) DEFREAL(setsockopt) DEFREAL(getsockopt)
DEFREAL(getsockname) DEFREAL(getpeername) DEFREAL(eventfd) DEFREAL(pipe) DEFREAL(pipe2) DEFREAL(fcntl) DEFREAL(ioctl) DEFREAL(poll)

namespace vsim {

Cfg cfg;
bool active = false;
void (*on_fatal)(const char *, const std::string &) = nullptr;
FdStat fdstat;
std::vector<uint16_t> nonce_script;
uint64_t nonce_mod = 0;
void (*on_wire)(int, const void *, const char *, size_t, size_t) = nullptr;

static uint64_t rs = 0x9e3779b97f4a7c15ULL;
uint64_t rnd() {
    uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
uint64_t rnd(uint64_t n) { return n ? rnd() % n : 0; }
double rndf() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

static void fatal(const char *kind, const std::string &d = "") {
    if (on_fatal) on_fatal(kind, d);
    fprintf(stderr, "vsim fatal: %s %s\n", kind, d.c_str());
    _exit(77);
}

// ------------------------------------------------------------------ scheduler
enum W { W_RUN, W_MUTEX, W_RDLOCK, W_WRLOCK, W_COND, W_JOIN, W_POLL, W_SLEEP, W_IDLE, W_FDREAD };
struct VT {
    int id; sem_t sem; bool alive = true; W w = W_RUN; void *obj = nullptr; uint64_t until = 0;
    bool signaled = false, timedout = false; bool timed = false; pthread_t pt; int prio = 0; const char *name = "";
    int nopre = 0; sigset_t dummy;
};
static std::vector<VT *> vts;
static thread_local VT *me = nullptr;
static long nsteps = 0, since_switch = 0;
static uint64_t clock_us = 1000000, clock_limit = 0;
static int pct_next = 0;

struct MutexSt { VT *owner = nullptr; int rec = 0; };
static std::unordered_map<void *, MutexSt> mtx;
struct RwSt { VT *w = nullptr; int readers = 0; };
static std::unordered_map<void *, RwSt> rws;

uint64_t now_us() { return clock_us; }
int self() { return me ? me->id : -1; }
long steps() { return nsteps; }
void name_thread(const char *n) { if (me) me->name = strdup(n); }
int nthreads() { return (int)vts.size(); }
void nopreempt(int d) { if (me) me->nopre += d; }

struct Loop;
static bool loop_ready(Loop *l);
static uint64_t loop_next_timer(Loop *l);
static std::list<Loop *> loops;
static bool net_pending();
static void net_step();
static std::vector<uint64_t> &slow_syns();

static bool runnable(VT *t) {
    if (!t->alive) return false;
    switch (t->w) {
        case W_RUN: return true;
        case W_MUTEX: return mtx[t->obj].owner == nullptr;
        case W_RDLOCK: return rws[t->obj].w == nullptr;
        case W_WRLOCK: { auto &r = rws[t->obj]; return r.w == nullptr && r.readers == 0; }
        case W_COND: return t->signaled || (t->timed && clock_us >= t->until);
        case W_JOIN: return !((VT *)t->obj)->alive;
        case W_POLL: return loop_ready((Loop *)t->obj);
        case W_SLEEP: return clock_us >= t->until;
        case W_IDLE: return false;
        default: return false;
    }
}

static uint64_t next_event_time() {
    uint64_t best = UINT64_MAX;
    for (auto t: vts) if (t->alive) {
        if (t->w == W_SLEEP || (t->w == W_COND && t->timed)) best = std::min(best, t->until);
        if (t->w == W_POLL) best = std::min(best, loop_next_timer((Loop *)t->obj));
    }
    for (auto &x: slow_syns()) best = std::min(best, x);
    return best;
}

static std::vector<VT *> cand;       // reserved up front: picking must not allocate on behalf of the code under test
static VT *pick() {
    auto &c = cand;
    for (;;) {
        if (cfg.p_creep > 0 && clock_us < clock_limit && rndf() < cfg.p_creep)
            clock_us = std::min<uint64_t>(clock_us + 1000, clock_limit);
        c.clear();
        for (auto t: vts) if (runnable(t)) c.push_back(t);
        bool np = net_pending();
        if (c.empty() && !np) {
            VT *ctl = vts[0];
            if (ctl->alive && ctl->w == W_IDLE) return ctl;
            uint64_t n = next_event_time();
            if (n == UINT64_MAX) {
                std::string d;
                for (auto t: vts) if (t->alive) d += std::string(t->name) + "#" + std::to_string(t->id) + ":" + std::to_string((int)t->w) + " ";
                fatal("deadlock", d);
            }
            if (n > clock_us) clock_us = n;
            if (++nsteps > cfg.max_steps) fatal("livelock");
            continue;
        }
        size_t tot = c.size() + (np ? 1 : 0);
        if (cfg.policy == 1) {
            // priorities; the network has a random share
            if (np && (c.empty() || rnd(100) < 20)) { net_step(); if (++nsteps > cfg.max_steps) fatal("livelock"); continue; }
            if (--pct_next <= 0) { pct_next = 1 + rnd(400); vts[rnd(vts.size())]->prio = (int)rnd(1000); }
            if (since_switch > 3000) { since_switch = 0; for (auto t: vts) t->prio = (int)rnd(1000); }
            VT *b = c[0];
            for (auto t: c) if (t->prio > b->prio) b = t;
            return b;
        }
        size_t k = rnd(tot);
        if (k == c.size()) { net_step(); if (++nsteps > cfg.max_steps) fatal("livelock"); continue; }
        return c[k];
    }
}

static void switch_from(VT *from, VT *to) {
    since_switch = 0;
    sem_post(&to->sem);
    if (from) while (sem_wait(&from->sem) != 0) {}
}

static void resched() {
    VT *t = pick();
    if (t != me) switch_from(me, t);
    me->w = W_RUN;
}

static void wait_until_runnable() {    // me->w is set
    if (me->nopre) {}
    resched();
}

void point(PointKind k) {
    if (!active || !me) return;
    if (++nsteps > cfg.max_steps) fatal("livelock");
    since_switch++;
    if (me->nopre) return;
    double p = k == PT_SYS ? cfg.p_sys : k == PT_LOCK ? cfg.p_lock : k == PT_ATOMIC ? cfg.p_atomic : k == PT_CB ? cfg.p_cb : 1.0;
    if (since_switch > 5000) p = 1.0;
    if (p <= 0 || (p < 1.0 && rndf() >= p)) return;
    if (k == PT_YIELD && cfg.policy == 1) me->prio = -(int)rnd(1000);
    me->w = W_RUN;
    resched();
}
void atomic_point() { point(PT_ATOMIC); }
bool cas_spurious() { return active && me && cfg.p_cas_fail > 0 && rndf() < cfg.p_cas_fail; }

void start(const Cfg &c) {
    cfg = c; rs = c.seed * 0x2545F4914F6CDD1DULL + 12345;
    cpu_set_t cs; CPU_ZERO(&cs);
    int cpu = sched_getcpu(); if (cpu < 0) cpu = 0;
    CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs);
    VT *t = new VT(); t->id = 0; sem_init(&t->sem, 0, 0); t->pt = pthread_self(); t->name = "ctl"; t->prio = 500;
    vts.push_back(t); me = t; active = true;
    clock_limit = clock_us; cand.reserve(4096);
}

void settle() {
    if (!me || me->id != 0) abort();
    me->w = W_IDLE; wait_until_runnable();
}
void run_for(uint64_t us) {
    uint64_t target = clock_us + us; clock_limit = target;
    for (;;) {
        settle();
        uint64_t n = next_event_time();
        if (n == UINT64_MAX || n > target) break;
        if (n > clock_us) clock_us = n;
        if (++nsteps > cfg.max_steps) fatal("livelock");
    }
    if (clock_us < target) clock_us = target;
    settle();
    clock_limit = clock_us;
}

// ------------------------------------------------------------------ TCP
struct End; struct Lst;
struct FdObj { int kind; int flags = 0; virtual ~FdObj() {} FdObj(int k): kind(k) {} };
enum { K_SOCK = 1, K_EVENT, K_PIPE_R, K_PIPE_W };
struct EventObj: FdObj { uint64_t v = 0; EventObj(): FdObj(K_EVENT) {} };
struct PipeBuf { std::string b; int refs = 2; bool rclosed = false, wclosed = false; };
struct PipeObj: FdObj { PipeBuf *p; PipeObj(int k, PipeBuf *b): FdObj(k), p(b) {} };

enum SS { S_NEW, S_BOUND, S_LISTEN, S_CONNECTING, S_EST, S_DEAD };
struct End {   // one endpoint of a connection
    int uid = 0; End *peer = nullptr; std::string rx; std::string out; // out: in flight towards peer
    bool fin_queued = false, fin_sent = false, fin_rcvd = false, rst_queued = false; int err = 0; bool closed = false; bool est = false; bool errored = false;
    bool shut_rd = false; bool stalled = false; bool raw = false, hold = false; size_t window = SIZE_MAX;
    uint32_t lip = 0, rip = 0; uint16_t lport = 0, rport = 0; // host order ports, net order ip
    std::string rawin; size_t cap = 0; int creator = -1;
};
struct Raw { End *e; bool gone = false; };
struct Sock: FdObj { SS st = S_NEW; End *e = nullptr; uint16_t lport = 0; uint32_t lip = 0; int backlog = 0; std::deque<End *> acceptq; bool nonblock = false; Sock(): FdObj(K_SOCK) {} };
struct Syn { End *c; uint16_t port; int seq; uint64_t t; };
static std::map<int, FdObj *> fds;
static std::map<uint16_t, Sock *> listeners;
static std::map<uint16_t, std::deque<End *>> rawlst;
static std::set<uint16_t> rawlisten;
static std::map<uint16_t, int> portmode, connseq;  // modes: 1 black hole, 2 unreachable, 4 an attempt succeeds once the next one begins, >= 100 answers after so many ms
static std::deque<Syn> syns;
static std::vector<End *> ends;
static int next_uid = 1; static uint16_t next_eph = 40000;
static std::map<std::string, std::pair<int, int>> failmap;

void fail_next(const char *call, int err, int count) { failmap[call] = {err, count}; }
static bool injected(const char *call) {
    auto it = failmap.find(call);
    if (it == failmap.end() || it->second.second <= 0) return false;
    it->second.second--; errno = it->second.first; return true;
}
static int newfd(FdObj *o) { int f = cfg.fd_base; while (fds.count(f)) f++; fds[f] = o; fdstat.opened++; return f; }
static FdObj *get(int fd) { if (!active || fd < cfg.fd_base) return nullptr; auto it = fds.find(fd); return it == fds.end() ? nullptr : it->second; }
static bool simfd(int fd) { return active && fd >= cfg.fd_base; }
long open_fds() { return (long)fds.size(); }
long open_socks() { long n = 0; for (auto &p: fds) if (p.second->kind == K_SOCK) n++; return n; }
bool eph_owner(uint16_t lport, int &thread, int &uid, bool &raw) { for (auto it = ends.rbegin(); it != ends.rend(); ++it) if ((*it)->lport == lport && (*it)->rport != lport) { thread = (*it)->creator; uid = (*it)->uid; raw = (*it)->raw; return true; } return false; }
int sock_uid(int fd) { auto o = get(fd); if (!o || o->kind != K_SOCK) return -1; auto s = (Sock *)o; return s->e ? s->e->uid : -1; }

static End *mkend() { End *e = new End(); e->creator = self(); e->cap = cfg.snd_cap; ends.push_back(e); return e; }
static void deliver_rst(End *to) {     // `to` learns of a reset
    if (!to || to->closed) return;
    if (to->errored) return;
    to->errored = true; to->err = to->fin_rcvd ? EPIPE : ECONNRESET; to->out.clear();
    if (to->raw) {}
}
static size_t flight_room(End *e) { // how many more bytes may be queued by e
    size_t used = e->out.size(); if (e->peer) used += e->peer->rx.size();
    return used >= e->cap ? 0 : e->cap - used;
}
static bool end_can_deliver(End *e) {
    if (!e->est || e->stalled || !e->peer) return false;
    if (!e->out.empty()) {
        if (e->peer->closed) return true;
        if (e->peer->raw && e->peer->hold) return false;
        if (e->peer->raw && e->peer->window == 0) return false;
        return true;
    }
    if (e->rst_queued) return true;
    if (e->fin_queued && !e->fin_sent) return true;
    return false;
}
static bool syn_can(const Syn &s) {
    if (s.c->stalled && !s.c->closed) return false;
    if (portmode.count(s.port) && portmode[s.port] == 1 && !s.c->closed) return false;
    if (portmode.count(s.port) && portmode[s.port] == 4 && !s.c->closed && s.seq >= connseq[s.port]) return false;
    if (portmode.count(s.port) && portmode[s.port] >= 100 && !s.c->closed && clock_us < s.t + (uint64_t)portmode[s.port] * 1000) return false;
    auto it = listeners.find(s.port);
    if (it != listeners.end() && (int)it->second->acceptq.size() > it->second->backlog && !s.c->closed) return false;
    return true;
}
static std::vector<uint64_t> &slow_syns() {
    static std::vector<uint64_t> v; v.clear();
    for (auto &s: syns) { auto it = portmode.find(s.port); if (it != portmode.end() && it->second >= 100 && clock_us < s.t + (uint64_t)it->second * 1000) v.push_back(s.t + (uint64_t)it->second * 1000); }
    return v;
}
static bool net_pending() {
    for (auto &s: syns) if (syn_can(s)) return true;
    for (auto e: ends) if (end_can_deliver(e)) return true;
    return false;
}
static void net_step() {
    static std::vector<int> c; c.clear();
    for (size_t i = 0; i < syns.size(); i++) if (syn_can(syns[i])) c.push_back(-(int)i - 1);
    for (size_t i = 0; i < ends.size(); i++) if (end_can_deliver(ends[i])) c.push_back((int)i);
    if (c.empty()) return;
    int k = c[rnd(c.size())];
    if (k < 0) {
        Syn s = syns[-k - 1]; syns.erase(syns.begin() + (-k - 1));
        if (s.c->closed) return;
        auto it = listeners.find(s.port); bool rl = rawlisten.count(s.port) > 0;
        if (it == listeners.end() && !rl) { s.c->errored = true; s.c->err = ECONNREFUSED; return; }
        End *se = mkend(); se->uid = s.c->uid; se->peer = s.c; s.c->peer = se; se->est = s.c->est = true;
        se->lip = s.c->rip; se->lport = s.c->rport; se->rip = s.c->lip; se->rport = s.c->lport;
        if (rl) { se->raw = true; rawlst[s.port].push_back(se); }
        else it->second->acceptq.push_back(se);
        return;
    }
    End *e = ends[k]; End *p = e->peer;
    if (!e->out.empty()) {
        if (p->closed) { e->out.clear(); if (!e->closed) deliver_rst(e); return; }
        size_t n = 1 + rnd(std::min(e->out.size(), cfg.seg_max));
        if (rnd(3) == 0) n = std::min(e->out.size(), cfg.seg_max);
        if (p->raw) { n = std::min(n, p->window); if (p->window != SIZE_MAX) p->window -= n; p->rawin.append(e->out, 0, n); }
        else if (p->errored) {}
        else p->rx.append(e->out, 0, n);
        e->out.erase(0, n);
        return;
    }
    if (e->rst_queued) { e->rst_queued = false; e->fin_queued = false; e->fin_sent = true; deliver_rst(p); return; }
    if (e->fin_queued) { e->fin_sent = true; p->fin_rcvd = true; return; }
}
static void close_end(End *e) {
    if (e->closed) return;
    e->closed = true;
    if (!e->peer) return;
    if (!e->rx.empty() || e->errored) {
        if (!e->errored) { if (!e->out.empty()) e->out.resize(rnd(e->out.size() + 1)); e->rst_queued = true; }
        e->rx.clear();
    } else if (!e->fin_queued) e->fin_queued = true;
}
static ssize_t end_send(End *e, const char *b, size_t n, bool raise_sig) {
    if (e->errored) {
        int er = e->err; if (er) { e->err = 0; errno = er == ECONNREFUSED ? ECONNREFUSED : er; if (er != EPIPE) return -1; }
        errno = EPIPE; if (raise_sig) raise(SIGPIPE); errno = EPIPE; return -1;
    }
    if (!e->est) { errno = EAGAIN; return -1; }
    if (e->fin_queued) { errno = EPIPE; if (raise_sig) raise(SIGPIPE); errno = EPIPE; return -1; }
    if (n == 0) return 0;
    size_t room = flight_room(e);
    if (!room) { errno = EAGAIN; return -1; }
    size_t m = std::min(n, room);
    if (rnd(4) == 0) m = 1 + rnd(m);
    e->out.append(b, m);
    if (on_wire && !e->raw) on_wire(e->uid, e, b, m, n);
    return (ssize_t)m;
}
static ssize_t end_recv(End *e, char *b, size_t n, bool peek) {
    if (!e->rx.empty()) {
        size_t m = std::min(std::min(n, e->rx.size()), cfg.recv_max);
        memcpy(b, e->rx.data(), m); if (!peek) e->rx.erase(0, m); return (ssize_t)m;
    }
    if (e->errored) { int er = e->err; e->err = 0; if (er) { errno = er; return -1; } return 0; }
    if (e->fin_rcvd || e->shut_rd) return 0;
    if (!e->est) { errno = EAGAIN; return -1; }
    errno = EAGAIN; return -1;
}
static short fd_events(int fd) {    // POLL* bits
    FdObj *o = get(fd); if (!o) return 0;
    short r = 0;
    if (o->kind == K_EVENT) { auto ev = (EventObj *)o; if (ev->v) r |= POLLIN; r |= POLLOUT; }
    else if (o->kind == K_PIPE_R) { auto p = (PipeObj *)o; if (!p->p->b.empty()) r |= POLLIN; if (p->p->wclosed) r |= POLLHUP; }
    else if (o->kind == K_PIPE_W) { r |= POLLOUT; }
    else {
        auto s = (Sock *)o;
        if (s->st == S_LISTEN) { if (!s->acceptq.empty()) r |= POLLIN; }
        else if (s->e) {
            auto e = s->e;
            if (e->errored) r |= POLLIN | POLLOUT | POLLHUP | (e->err ? POLLERR : 0) | POLLRDHUP;
            else if (e->est) {
                if (!e->rx.empty() || e->fin_rcvd) r |= POLLIN;
                if (e->fin_rcvd) r |= POLLRDHUP;
                if (flight_room(e) > 0) r |= POLLOUT;
                if (e->fin_rcvd && e->fin_queued) r |= POLLHUP;
            }
        } else r |= POLLOUT | POLLHUP;
    }
    return r;
}

// raw endpoints
Raw *raw_connect(uint16_t port, uint16_t sp, uint32_t sip) {
    End *e = mkend(); e->raw = true; e->uid = next_uid++; e->lip = sip ? sip : inet_addr("127.0.0.1"); e->lport = sp ? sp : next_eph++;
    e->rip = inet_addr("127.0.0.1"); e->rport = port; syns.push_back({e, port, -1}); Raw *r = new Raw(); r->e = e; return r;
}
void raw_listen(uint16_t port, bool on) {
    if (on) rawlisten.insert(port); else { rawlisten.erase(port); for (auto e: rawlst[port]) { close_end(e); } rawlst[port].clear(); }
}
bool raw_port_listening(uint16_t port) { return rawlisten.count(port) > 0; }
Raw *raw_accept(uint16_t port) { auto &q = rawlst[port]; if (q.empty()) return nullptr; Raw *r = new Raw(); r->e = q.front(); q.pop_front(); return r; }
void raw_send(Raw *r, const std::string &b) { if (r->e->closed || r->e->errored) return; r->e->out += b; }
std::string raw_take(Raw *r) { std::string s; s.swap(r->e->rawin); return s; }
void raw_close(Raw *r) { if (!r->e->closed) { r->e->closed = true; r->e->fin_queued = true; } }
void raw_reset(Raw *r) { if (!r->e->closed) { r->e->closed = true; r->e->rst_queued = true; } }
void raw_hold(Raw *r, bool h) { r->e->hold = h; }
void raw_window(Raw *r, size_t n) { r->e->window = n; }
bool raw_eof(Raw *r) { return r->e->fin_rcvd; }
bool raw_err(Raw *r) { return r->e->errored; }
bool raw_connected(Raw *r) { return r->e->est; }
size_t raw_unread_peer(Raw *r) { return r->e->out.size() + (r->e->peer ? r->e->peer->rx.size() : 0); }
int raw_uid(Raw *r) { return r->e->uid; }
void port_mode(uint16_t port, int mode) { portmode[port] = mode; }
void cut(int uid, int how) {
    for (auto e: ends) if (e->uid == uid) { if (how == 0) e->stalled = true; else if (how == 1) e->stalled = false; else { e->out.clear(); deliver_rst(e); } }
    if (how == 1) for (auto &s: syns) if (s.c->uid == uid) s.c->stalled = false;
}
std::vector<int> live_uids(uint16_t port) { std::vector<int> r; for (auto e: ends) if (e->est && e->peer && !e->closed && !e->errored && !e->peer->closed && !e->peer->errored && e->rport == port) r.push_back(e->uid); return r; }
size_t sock_queued_to(int uid, int) { size_t n = 0; for (auto e: ends) if (e->uid == uid) n += e->out.size() + e->rx.size(); return n; }

// ------------------------------------------------------------------ libuv
struct H { uv_handle_t *h; Loop *l; uv_handle_type type; bool act = false, closing = false; uv_close_cb ccb = nullptr; bool refd = true;
    int fd = -1; int pev = 0; uv_poll_cb pcb = nullptr; bool dead = false;
    uint64_t due = 0, rep = 0, seq = 0; uv_timer_cb tcb = nullptr; uv_signal_cb scb = nullptr; int signum = 0; bool oneshot = false; int sigpend = 0;
    uv_check_cb kcb = nullptr; uv_async_cb acb = nullptr; bool apend = false; };
struct Loop { uv_loop_t *l; std::list<H *> hs; std::list<H *> closing; bool stop = false; VT *runner = nullptr; int running = 0; };
static long nhandles = 0; static uint64_t tseq = 0;
long live_handles() { return nhandles; }
static Loop *L(uv_loop_t *l) { return (Loop *)l->internal_fields; }
static H *HH(const void *h) { return (H *)((uv_handle_t *)h)->u.reserved[0]; }
static void own(Loop *l, const char *what) {
    if (l->running && l->runner != me) fatal("uvrace", what);
}
static bool alive(Loop *l) { if (!l->closing.empty()) return true; for (auto h: l->hs) if (h->act && h->refd && !h->closing) return true; return false; }
static short poll_bits(H *h) {
    if (!h->act || h->closing || !h->pev) return 0;
    short want = POLLERR | POLLHUP; if (h->pev & UV_READABLE) want |= POLLIN; if (h->pev & UV_WRITABLE) want |= POLLOUT; if (h->pev & UV_DISCONNECT) want |= POLLRDHUP;
    short ev = fd_events(h->fd) & want;
    if (ev == POLLERR || ev == POLLHUP) ev |= want & (POLLIN | POLLOUT | POLLRDHUP);
    return ev;
}
static bool loop_ready(Loop *l) {
    if (l->stop || !l->closing.empty() || !alive(l)) return true;
    for (auto h: l->hs) {
        if (h->closing || !h->act) continue;
        if (h->type == UV_POLL && poll_bits(h)) return true;
        if (h->type == UV_TIMER && h->due <= clock_us) return true;
        if (h->type == UV_SIGNAL && h->sigpend) return true;
        if (h->type == UV_ASYNC && h->apend) return true;
        if (h->type == UV_IDLE) return true;
    }
    return false;
}
static uint64_t loop_next_timer(Loop *l) { uint64_t b = UINT64_MAX; for (auto h: l->hs) if (h->act && !h->closing && h->type == UV_TIMER) b = std::min(b, h->due); return b; }
static H *mk(uv_loop_t *l, void *hp, uv_handle_type t) {
    Loop *lp = L(l); own(lp, "init");
    uv_handle_t *h = (uv_handle_t *)hp; H *x = new H(); x->h = h; x->l = lp; x->type = t; h->loop = l; h->type = t; h->u.reserved[0] = x; h->flags = 0; h->close_cb = nullptr;
    lp->hs.push_back(x); nhandles++; return x;
}
static bool in_list(Loop *l, H *x) { for (auto h: l->hs) if (h == x) return true; return false; }
static void run_timers(Loop *l) {
    std::vector<std::pair<std::pair<uint64_t, uint64_t>, H *>> due;
    for (auto h: l->hs) if (h->type == UV_TIMER && h->act && !h->closing && h->due <= clock_us) due.push_back({{h->due, h->seq}, h});
    std::sort(due.begin(), due.end());
    for (auto &d: due) {
        H *h = d.second; if (!in_list(l, h) || !h->act || h->closing || h->seq != d.first.second) continue;
        point(PT_CB);
        if (!in_list(l, h) || !h->act || h->closing || h->seq != d.first.second) continue;
        h->act = false; if (h->rep) { h->act = true; h->due = clock_us + h->rep; h->seq = ++tseq; }
        h->tcb((uv_timer_t *)h->h);
    }
}
static void run_kind(Loop *l, uv_handle_type t) {
    std::vector<H *> v; for (auto h: l->hs) if (h->type == t && h->act && !h->closing) v.push_back(h);
    for (auto h: v) if (in_list(l, h) && h->act && !h->closing) h->kcb((uv_check_t *)h->h);
}
static int run_loop(Loop *l, uv_run_mode mode) {
    if (l->running) fatal("uvrace", "uv_run re-entered");
    l->running = 1; l->runner = me;
    bool r = alive(l);
    if (mode == UV_RUN_DEFAULT && r && !l->stop) run_timers(l);
    while (r && !l->stop) {
        run_kind(l, UV_IDLE); run_kind(l, UV_PREPARE);
        if (me && active) {
            if (mode == UV_RUN_DEFAULT || mode == UV_RUN_ONCE) {
                if (!loop_ready(l)) { if (me->nopre) {} me->w = W_POLL; me->obj = l; resched(); } else point(PT_SYS);
            }
        }
        std::vector<std::pair<H *, short>> ev;
        for (auto h: l->hs) if (h->type == UV_POLL) { short b = poll_bits(h); if (b) ev.push_back({h, b}); }
        for (size_t i = ev.size(); i > 1; i--) std::swap(ev[i - 1], ev[rnd(i)]);
        // occasionally the kernel hands back only part of what is ready
        if (ev.size() > 1 && rnd(8) == 0) ev.resize(1 + rnd(ev.size() - 1));
        for (auto &p: ev) {
            H *h = p.first; if (!in_list(l, h) || !h->act || h->closing) continue;
            point(PT_CB);
            if (!in_list(l, h) || !h->act || h->closing || !h->pev) continue;
            short b = p.second;
            if (b & POLLERR) { h->act = false; h->pev = 0; h->pcb((uv_poll_t *)h->h, UV_EBADF, 0); continue; }
            int e = 0; if (b & POLLIN) e |= UV_READABLE; if (b & POLLOUT) e |= UV_WRITABLE; if (b & POLLRDHUP) e |= UV_DISCONNECT;
            e &= h->pev; if (!e && (b & POLLHUP)) e = h->pev & (UV_READABLE | UV_WRITABLE);
            if (!e) continue;
            h->pcb((uv_poll_t *)h->h, 0, e);
        }
        { std::vector<H *> v; for (auto h: l->hs) if ((h->type == UV_SIGNAL && h->sigpend) || (h->type == UV_ASYNC && h->apend)) v.push_back(h);
          for (auto h: v) { if (!in_list(l, h) || h->closing) continue;
            if (h->type == UV_ASYNC) { h->apend = false; h->acb((uv_async_t *)h->h); }
            else { h->sigpend--; if (!h->act) continue; if (h->oneshot) h->act = false; h->scb((uv_signal_t *)h->h, h->signum); } } }
        run_kind(l, UV_CHECK);
        while (!l->closing.empty()) { H *h = l->closing.front(); l->closing.pop_front(); l->hs.remove(h); auto cb = h->ccb; auto hp = h->h; hp->flags = 3; nhandles--; delete h; hp->u.reserved[0] = nullptr; if (cb) cb(hp); }
        run_timers(l);
        r = alive(l);
        if (mode != UV_RUN_DEFAULT) break;
    }
    l->stop = false; l->running = 0; l->runner = nullptr;
    return r;
}
void raise_signal(int s) { for (auto l: loops) for (auto h: l->hs) if (h->type == UV_SIGNAL && h->act && h->signum == s) h->sigpend++; }
} // namespace vsim

using namespace vsim;
extern "C" {
// ---- uv API
int uv_loop_init(uv_loop_t *l) { memset(l, 0, sizeof *l); Loop *x = new Loop(); x->l = l; l->internal_fields = x; loops.push_back(x); return 0; }
int uv_loop_close(uv_loop_t *l) { Loop *x = L(l); if (!x->closing.empty()) return UV_EBUSY; for (auto h: x->hs) { (void)h; return UV_EBUSY; } loops.remove(x); delete x; l->internal_fields = nullptr; return 0; }
int uv_run(uv_loop_t *l, uv_run_mode m) { return run_loop(L(l), m); }
void uv_stop(uv_loop_t *l) { own(L(l), "uv_stop"); L(l)->stop = true; }
int uv_loop_alive(const uv_loop_t *l) { return alive(L((uv_loop_t *)l)); }
void uv_walk(uv_loop_t *l, uv_walk_cb cb, void *arg) { own(L(l), "uv_walk"); std::vector<H *> v(L(l)->hs.begin(), L(l)->hs.end()); for (auto h: v) if (in_list(L(l), h)) cb(h->h, arg); }
void uv_update_time(uv_loop_t *) {}
uint64_t uv_now(const uv_loop_t *) { return clock_us / 1000; }
uint64_t uv_hrtime(void) { return clock_us * 1000; }
int uv_is_closing(const uv_handle_t *h) { H *x = HH(h); return !x || x->closing; }
int uv_is_active(const uv_handle_t *h) { H *x = HH(h); return x && x->act && !x->closing; }
void uv_ref(uv_handle_t *h) { HH(h)->refd = true; }
void uv_unref(uv_handle_t *h) { HH(h)->refd = false; }
void uv_close(uv_handle_t *h, uv_close_cb cb) {
    H *x = HH(h); if (!x) fatal("uvmisuse", "uv_close on a closed handle"); own(x->l, "uv_close");
    if (x->closing) fatal("uvmisuse", "double uv_close");
    x->closing = true; x->act = false; x->pev = 0; x->ccb = cb; x->l->closing.push_back(x);
}
static int poll_init(uv_loop_t *l, uv_poll_t *h, int fd) {
    if (active && fd >= cfg.fd_base && !get(fd)) return UV_EBADF;
    for (auto x: L(l)->hs) if (x->type == UV_POLL && x->fd == fd && x->act && x->pev && !x->closing) return UV_EEXIST;
    H *x = mk(l, h, UV_POLL); x->fd = fd; return 0;
}
int uv_poll_init(uv_loop_t *l, uv_poll_t *h, int fd) { point(PT_SYS); return poll_init(l, h, fd); }
int uv_poll_init_socket(uv_loop_t *l, uv_poll_t *h, uv_os_sock_t fd) { return poll_init(l, h, fd); }
int uv_poll_stop(uv_poll_t *h) { H *x = HH(h); if (!x) fatal("uvmisuse", "poll_stop on closed handle"); own(x->l, "uv_poll_stop"); x->act = false; x->pev = 0; return 0; }
int uv_poll_start(uv_poll_t *h, int ev, uv_poll_cb cb) {
    H *x = HH(h); if (!x || x->closing) fatal("uvmisuse", "poll_start on closing handle"); own(x->l, "uv_poll_start");
    for (auto y: x->l->hs) if (y != x && y->type == UV_POLL && y->fd == x->fd && y->act && y->pev && !y->closing) return UV_EEXIST;
    x->act = false; x->pev = 0; if (!ev) return 0;
    x->act = true; x->pev = ev; x->pcb = cb; return 0;
}
int uv_timer_init(uv_loop_t *l, uv_timer_t *h) { mk(l, h, UV_TIMER); return 0; }
int uv_timer_stop(uv_timer_t *h) { H *x = HH(h); if (!x) fatal("uvmisuse", "timer_stop on closed handle"); own(x->l, "uv_timer_stop"); x->act = false; return 0; }
int uv_timer_start(uv_timer_t *h, uv_timer_cb cb, uint64_t t, uint64_t rep) {
    H *x = HH(h); if (!x) fatal("uvmisuse", "timer_start on closed handle"); own(x->l, "uv_timer_start");
    if (x->closing || !cb) return UV_EINVAL;
    x->act = true; x->tcb = cb; x->due = clock_us + std::max<uint64_t>(t, 1) * 1000; x->rep = rep * 1000; x->seq = ++tseq; return 0;
}
int uv_timer_again(uv_timer_t *h) { H *x = HH(h); if (!x->tcb) return UV_EINVAL; if (x->rep) { x->act = true; x->due = clock_us + x->rep; x->seq = ++tseq; } return 0; }
void uv_timer_set_repeat(uv_timer_t *h, uint64_t r) { HH(h)->rep = r * 1000; }
int uv_signal_init(uv_loop_t *l, uv_signal_t *h) { mk(l, h, UV_SIGNAL); return 0; }
int uv_signal_start(uv_signal_t *h, uv_signal_cb cb, int s) { H *x = HH(h); own(x->l, "uv_signal_start"); if (x->closing || !s) return UV_EINVAL; if (x->signum != s) x->sigpend = 0; x->scb = cb; x->signum = s; x->act = true; x->oneshot = false; return 0; }
int uv_signal_start_oneshot(uv_signal_t *h, uv_signal_cb cb, int s) { int r = uv_signal_start(h, cb, s); if (!r) HH(h)->oneshot = true; return r; }
int uv_signal_stop(uv_signal_t *h) { H *x = HH(h); if (!x) fatal("uvmisuse", "signal_stop on closed handle"); own(x->l, "uv_signal_stop"); x->act = false; x->sigpend = 0; return 0; }
#define KIND(name, TYPE) \
int uv_##name##_init(uv_loop_t *l, uv_##name##_t *h) { mk(l, h, TYPE); return 0; } \
int uv_##name##_start(uv_##name##_t *h, uv_##name##_cb cb) { H *x = HH(h); own(x->l, "uv_" #name "_start"); if (!cb) return UV_EINVAL; x->kcb = (uv_check_cb)(void *)cb; x->act = true; return 0; } \
int uv_##name##_stop(uv_##name##_t *h) { H *x = HH(h); if (!x) fatal("uvmisuse", #name "_stop on closed handle"); own(x->l, "uv_" #name "_stop"); x->act = false; return 0; }
KIND(check, UV_CHECK) KIND(prepare, UV_PREPARE) KIND(idle, UV_IDLE)
int uv_async_init(uv_loop_t *l, uv_async_t *h, uv_async_cb cb) { H *x = mk(l, h, UV_ASYNC); x->acb = cb; x->act = true; return 0; }
int uv_async_send(uv_async_t *h) { point(PT_SYS); H *x = HH(h); if (x && !x->closing) x->apend = true; return 0; }
const char *uv_strerror(int e) { return strerror(-e); }
const char *uv_err_name(int) { return "UVERR"; }
void *uv_handle_get_data(const uv_handle_t *h) { return h->data; }
void uv_handle_set_data(uv_handle_t *h, void *d) { h->data = d; }
uv_loop_t *uv_handle_get_loop(const uv_handle_t *h) { return h->loop; }
uv_loop_t *uv_default_loop(void) { static uv_loop_t l; static bool i = false; if (!i) { uv_loop_init(&l); i = true; } return &l; }

// ---- threads
struct Tramp { VT *t; void *(*fn)(void *); void *arg; };
static void *tramp(void *p) {
    Tramp *x = (Tramp *)p; me = x->t; auto fn = x->fn; auto arg = x->arg; delete x;
    while (sem_wait(&me->sem) != 0) {}
    void *r = fn(arg);
    VT *t = me; t->alive = false;
    VT *n = pick(); me = nullptr; switch_from(nullptr, n);
    return r;
}
int pthread_create(pthread_t *th, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!active || !me) return r_pthread_create()(th, a, fn, arg);
    VT *t = new VT(); t->id = (int)vts.size(); sem_init(&t->sem, 0, 0); t->prio = (int)rnd(1000);
    Tramp *x = new Tramp{t, fn, arg};
    int r = r_pthread_create()(&t->pt, a, tramp, x);
    if (r) { delete x; delete t; return r; }
    vts.push_back(t); *th = t->pt;
    point(PT_SYS);
    return 0;
}
int pthread_join(pthread_t th, void **ret) {
    if (active && me) {
        for (auto t: vts) if (t->pt == th && t != me && t->alive) { me->w = W_JOIN; me->obj = t; resched(); break; }
    }
    return r_pthread_join()(th, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!active || !me) return r_pthread_mutex_lock()(m);
    auto &s0 = mtx[m];
    if (s0.owner == me) { if (m->__data.__kind & 1) { s0.rec++; return 0; } fatal("deadlock", "self-lock of a mutex"); }
    point(PT_LOCK);
    while (mtx[m].owner) { me->w = W_MUTEX; me->obj = m; resched(); }
    auto &s = mtx[m]; s.owner = me; s.rec = 1; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!active || !me) return r_pthread_mutex_trylock()(m);
    point(PT_LOCK); auto &s = mtx[m]; if (s.owner) { if (s.owner == me && (m->__data.__kind & 1)) { s.rec++; return 0; } return EBUSY; } s.owner = me; s.rec = 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!active || !me) return r_pthread_mutex_unlock()(m);
    auto it = mtx.find(m); if (it == mtx.end() || it->second.owner == nullptr) { return r_pthread_mutex_unlock()(m); }
    if (--it->second.rec > 0) return 0;
    mtx.erase(it); point(PT_LOCK); return 0;
}
static int condwait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, uint64_t until) {
    int rec = mtx[m].rec; mtx.erase(m);
    me->w = W_COND; me->obj = c; me->signaled = false; me->timed = timed; me->until = until;
    if (rnd(16) == 0) me->signaled = true;      // spurious wakeup
    resched();
    bool to = !me->signaled && timed; me->timed = false;
    while (mtx[m].owner) { me->w = W_MUTEX; me->obj = m; resched(); }
    auto &s = mtx[m]; s.owner = me; s.rec = rec ? rec : 1;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!active || !me) return r_pthread_cond_wait()(c, m); return condwait(c, m, false, 0); }
static uint64_t abs2until(clockid_t ck, const struct timespec *ts) {
    struct timespec n; clock_gettime(ck, &n);
    int64_t d = (ts->tv_sec - n.tv_sec) * 1000000LL + (ts->tv_nsec - n.tv_nsec) / 1000; if (d < 0) d = 0; return clock_us + (uint64_t)d;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!active || !me) return r_pthread_cond_timedwait()(c, m, ts); return condwait(c, m, true, abs2until(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t ck, const struct timespec *ts) { if (!active || !me) { static auto f = (int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *))real_sym("pthread_cond_clockwait"); return f(c, m, ck, ts); } return condwait(c, m, true, abs2until(ck, ts)); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!active || !me) return r_pthread_cond_signal()(c);
    std::vector<VT *> v; for (auto t: vts) if (t->alive && t->w == W_COND && t->obj == c && !t->signaled) v.push_back(t);
    if (!v.empty()) v[rnd(v.size())]->signaled = true;
    point(PT_LOCK); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!active || !me) return r_pthread_cond_broadcast()(c);
    for (auto t: vts) if (t->alive && t->w == W_COND && t->obj == c) t->signaled = true;
    point(PT_LOCK); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (!active || !me) return r_pthread_rwlock_rdlock()(l);
    point(PT_LOCK); if (rws[l].w == me) fatal("deadlock", "rdlock while holding wrlock");
    while (rws[l].w) { me->w = W_RDLOCK; me->obj = l; resched(); }
    rws[l].readers++; return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (!active || !me) return r_pthread_rwlock_wrlock()(l);
    point(PT_LOCK); if (rws[l].w == me) fatal("deadlock", "recursive wrlock");
    while (rws[l].w || rws[l].readers) { me->w = W_WRLOCK; me->obj = l; resched(); }
    rws[l].w = me; return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { if (!active || !me) return r_pthread_rwlock_tryrdlock()(l); point(PT_LOCK); auto &r = rws[l]; if (r.w) return EBUSY; r.readers++; return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { if (!active || !me) return r_pthread_rwlock_trywrlock()(l); point(PT_LOCK); auto &r = rws[l]; if (r.w || r.readers) return EBUSY; r.w = me; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!active || !me) return r_pthread_rwlock_unlock()(l);
    auto it = rws.find(l); if (it == rws.end()) return r_pthread_rwlock_unlock()(l);
    if (it->second.w) it->second.w = nullptr; else if (it->second.readers > 0) it->second.readers--;
    if (!it->second.w && !it->second.readers) rws.erase(it);
    point(PT_LOCK); return 0;
}
int sched_yield(void) { if (!active || !me) return r_sched_yield()(); point(PT_YIELD); return 0; }
static int vsleep(uint64_t us) { me->w = W_SLEEP; me->until = clock_us + us; resched(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!active || !me) return r_nanosleep()(a, b); return vsleep(a->tv_sec * 1000000ULL + a->tv_nsec / 1000); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (!active || !me || (f & TIMER_ABSTIME)) { static auto r = (int (*)(clockid_t, int, const struct timespec *, struct timespec *))real_sym("clock_nanosleep"); return r(c, f, a, b); } return vsleep(a->tv_sec * 1000000ULL + a->tv_nsec / 1000); }
int usleep(useconds_t u) { if (!active || !me) return r_usleep()(u); return vsleep(u); }

// ---- descriptors
int socket(int d, int t, int p) {
    if (!active || !me || d != AF_INET) return r_socket()(d, t, p);
    point(PT_SYS); if (injected("socket")) return -1;
    Sock *s = new Sock(); s->nonblock = (t & SOCK_NONBLOCK); return newfd(s);
}
int eventfd(unsigned int v, int f) { if (!active || !me) return r_eventfd()(v, f); if (injected("eventfd")) return -1; auto e = new EventObj(); e->v = v; return newfd(e); }
int pipe2(int p[2], int fl) { if (!active || !me) return r_pipe2()(p, fl); auto b = new PipeBuf(); p[0] = newfd(new PipeObj(K_PIPE_R, b)); p[1] = newfd(new PipeObj(K_PIPE_W, b)); return 0; }
int pipe(int p[2]) { if (!active || !me) return r_pipe()(p); return pipe2(p, 0); }
int close(int fd) {
    if (!simfd(fd)) return r_close()(fd);
    point(PT_SYS);
    FdObj *o = get(fd); if (!o) { fdstat.badclose++; errno = EBADF; return -1; }
    if (o->kind == K_SOCK) { auto s = (Sock *)o;
        if (s->st == S_LISTEN) { auto it = listeners.find(s->lport); if (it != listeners.end() && it->second == s) listeners.erase(it); for (auto e: s->acceptq) { e->closed = true; e->rst_queued = true; } }
        if (s->e) close_end(s->e); }
    if (o->kind == K_PIPE_R || o->kind == K_PIPE_W) { auto p = (PipeObj *)o; if (o->kind == K_PIPE_R) p->p->rclosed = true; else p->p->wclosed = true; if (!--p->p->refs) delete p->p; }
    fds.erase(fd); delete o; fdstat.closed++;
    return 0;
}
int bind(int fd, const struct sockaddr *a, socklen_t n) {
    if (!simfd(fd)) return r_bind()(fd, a, n);
    point(PT_SYS); auto o = get(fd); if (!o || o->kind != K_SOCK) { errno = EBADF; return -1; } if (injected("bind")) return -1;
    auto s = (Sock *)o; auto in = (const struct sockaddr_in *)a; uint16_t port = ntohs(in->sin_port);
    if (port && (listeners.count(port) || rawlisten.count(port))) { errno = EADDRINUSE; return -1; }
    s->lport = port; s->lip = in->sin_addr.s_addr; s->st = S_BOUND; return 0;
}
int listen(int fd, int b) {
    if (!simfd(fd)) return r_listen()(fd, b);
    point(PT_SYS); auto o = get(fd); if (!o || o->kind != K_SOCK) { errno = EBADF; return -1; } if (injected("listen")) return -1;
    auto s = (Sock *)o; if (listeners.count(s->lport) && listeners[s->lport] != s) { errno = EADDRINUSE; return -1; }
    if (!s->lport) s->lport = next_eph++;
    s->st = S_LISTEN; s->backlog = b < 1 ? 1 : b; listeners[s->lport] = s; return 0;
}
int connect(int fd, const struct sockaddr *a, socklen_t n) {
    if (!simfd(fd)) return r_connect()(fd, a, n);
    point(PT_SYS); auto o = get(fd); if (!o || o->kind != K_SOCK) { errno = EBADF; return -1; } if (injected("connect")) return -1;
    auto s = (Sock *)o; auto in = (const struct sockaddr_in *)a; uint16_t port = ntohs(in->sin_port);
    if (s->st == S_CONNECTING) { errno = s->e->est ? EISCONN : EALREADY; return -1; }
    if (portmode.count(port) && portmode[port] == 2) { errno = ENETUNREACH; return -1; }
    End *e = mkend(); e->uid = next_uid++; e->lip = inet_addr("127.0.0.1"); e->lport = s->lport ? s->lport : next_eph++; e->rip = in->sin_addr.s_addr; e->rport = port;
    s->e = e; s->st = S_CONNECTING; syns.push_back({e, port, ++connseq[port], clock_us});
    errno = EINPROGRESS; return -1;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *n) {
    point(PT_SYS); auto o = get(fd); if (!o || o->kind != K_SOCK) { errno = EBADF; return -1; }
    if (injected("accept")) return -1;
    auto s = (Sock *)o; if (s->acceptq.empty()) { errno = EAGAIN; return -1; }
    End *e = s->acceptq.front(); s->acceptq.pop_front();
    Sock *c = new Sock(); c->st = S_EST; c->e = e;
    if (a && n) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_addr.s_addr = e->rip; in.sin_port = htons(e->rport); memcpy(a, &in, std::min<size_t>(*n, sizeof in)); *n = sizeof in; }
    return newfd(c);
}
int accept(int fd, struct sockaddr *a, socklen_t *n) { if (!simfd(fd)) return r_accept()(fd, a, n); return do_accept(fd, a, n); }
int accept4(int fd, struct sockaddr *a, socklen_t *n, int f) { if (!simfd(fd)) return r_accept4()(fd, a, n, f); return do_accept(fd, a, n); }
int shutdown(int fd, int how) {
    if (!simfd(fd)) return r_shutdown()(fd, how);
    point(PT_SYS); auto o = get(fd); if (!o || o->kind != K_SOCK) { errno = EBADF; return -1; } auto s = (Sock *)o; if (!s->e || !s->e->est) { errno = ENOTCONN; return -1; }
    if (how != SHUT_RD) s->e->fin_queued = true; if (how != SHUT_WR) s->e->shut_rd = true; return 0;
}
static ssize_t vsend(int fd, const void *b, size_t n, int flags, const char *nm) {
    point(PT_SYS);
    auto o = get(fd); if (!o) { errno = EBADF; return -1; }
    if (o->kind == K_EVENT) { if (n < 8) { errno = EINVAL; return -1; } uint64_t v; memcpy(&v, b, 8); ((EventObj *)o)->v += v; return 8; }
    if (o->kind == K_PIPE_W) { auto p = (PipeObj *)o; if (p->p->rclosed) { errno = EPIPE; return -1; } p->p->b.append((const char *)b, n); return n; }
    if (o->kind != K_SOCK) { errno = EBADF; return -1; }
    auto s = (Sock *)o; if (!s->e) { errno = ENOTCONN; return -1; }
    if (n && injected(nm)) return -1;
    if (s->e->est) s->st = S_EST;
    return end_send(s->e, (const char *)b, n, !(flags & MSG_NOSIGNAL));
}
static ssize_t vrecv(int fd, void *b, size_t n, int flags, const char *nm) {
    point(PT_SYS);
    auto o = get(fd); if (!o) { errno = EBADF; return -1; }
    if (o->kind == K_EVENT) { auto e = (EventObj *)o; if (n < 8) { errno = EINVAL; return -1; } if (!e->v) { errno = EAGAIN; return -1; } memcpy(b, &e->v, 8); e->v = 0; return 8; }
    if (o->kind == K_PIPE_R) { auto p = (PipeObj *)o; if (p->p->b.empty()) { if (p->p->wclosed) return 0; errno = EAGAIN; return -1; } size_t m = std::min(n, p->p->b.size()); memcpy(b, p->p->b.data(), m); p->p->b.erase(0, m); return m; }
    if (o->kind != K_SOCK) { errno = EBADF; return -1; }
    auto s = (Sock *)o; if (!s->e) { errno = ENOTCONN; return -1; }
    if (injected(nm)) return -1;
    return end_recv(s->e, (char *)b, n, flags & MSG_PEEK);
}
ssize_t send(int fd, const void *b, size_t n, int f) { if (!simfd(fd)) return r_send()(fd, b, n, f); return vsend(fd, b, n, f, "send"); }
ssize_t recv(int fd, void *b, size_t n, int f) { if (!simfd(fd)) return r_recv()(fd, b, n, f); return vrecv(fd, b, n, f, "recv"); }
ssize_t __recv_chk(int fd, void *b, size_t n, size_t, int f) { return recv(fd, b, n, f); }
ssize_t write(int fd, const void *b, size_t n) { if (!simfd(fd)) return r_write()(fd, b, n); return vsend(fd, b, n, 0, "send"); }
ssize_t read(int fd, void *b, size_t n) { if (!simfd(fd)) return r_read()(fd, b, n); return vrecv(fd, b, n, 0, "recv"); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { if (!simfd(fd)) return r_sendto()(fd, b, n, f, a, l); return vsend(fd, b, n, f, "send"); }
ssize_t recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { if (!simfd(fd)) return r_recvfrom()(fd, b, n, f, a, l); return vrecv(fd, b, n, f, "recv"); }
static ssize_t vv(int fd, const struct iovec *v, int c, int fl, bool wr) {
    size_t tot = 0; for (int i = 0; i < c; i++) tot += v[i].iov_len; std::string t(tot, 0);
    if (wr) { size_t o = 0; for (int i = 0; i < c; i++) { memcpy(&t[o], v[i].iov_base, v[i].iov_len); o += v[i].iov_len; } return vsend(fd, t.data(), tot, fl, "send"); }
    ssize_t r = vrecv(fd, &t[0], tot, fl, "recv"); if (r > 0) { size_t o = 0; for (int i = 0; i < c && o < (size_t)r; i++) { size_t m = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, &t[o], m); o += m; } } return r;
}
ssize_t writev(int fd, const struct iovec *v, int c) { if (!simfd(fd)) return r_writev()(fd, v, c); return vv(fd, v, c, 0, true); }
ssize_t readv(int fd, const struct iovec *v, int c) { if (!simfd(fd)) return r_readv()(fd, v, c); return vv(fd, v, c, 0, false); }
ssize_t sendmsg(int fd, const struct msghdr *m, int f) { if (!simfd(fd)) return r_sendmsg()(fd, m, f); return vv(fd, m->msg_iov, (int)m->msg_iovlen, f, true); }
ssize_t recvmsg(int fd, struct msghdr *m, int f) { if (!simfd(fd)) return r_recvmsg()(fd, m, f); return vv(fd, m->msg_iov, (int)m->msg_iovlen, f, false); }
int setsockopt(int fd, int l, int o, const void *v, socklen_t n) { if (!simfd(fd)) return r_setsockopt()(fd, l, o, v, n); auto x = get(fd); if (!x || x->kind != K_SOCK) { errno = EBADF; return -1; } if (injected("setsockopt")) return -1; return 0; }
int getsockopt(int fd, int l, int o, void *v, socklen_t *n) {
    if (!simfd(fd)) return r_getsockopt()(fd, l, o, v, n);
    auto x = get(fd); if (!x || x->kind != K_SOCK) { errno = EBADF; return -1; } auto s = (Sock *)x;
    int r = 0; if (l == SOL_SOCKET && o == SO_ERROR) { if (s->e && s->e->errored) { r = s->e->err; s->e->err = 0; } } else if (l == SOL_SOCKET && o == SO_TYPE) r = SOCK_STREAM; else r = 1;
    if (*n >= sizeof r) { memcpy(v, &r, sizeof r); *n = sizeof r; } return 0;
}
static int vname(int fd, struct sockaddr *a, socklen_t *n, bool peer) {
    auto x = get(fd); if (!x || x->kind != K_SOCK) { errno = EBADF; return -1; } auto s = (Sock *)x; struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET;
    if (peer) { if (!s->e || !s->e->est) { errno = ENOTCONN; return -1; } in.sin_addr.s_addr = s->e->rip; in.sin_port = htons(s->e->rport); }
    else { in.sin_addr.s_addr = s->e ? s->e->lip : s->lip; in.sin_port = htons(s->e ? s->e->lport : s->lport); }
    memcpy(a, &in, std::min<size_t>(*n, sizeof in)); *n = sizeof in; return 0;
}
int getsockname(int fd, struct sockaddr *a, socklen_t *n) { if (!simfd(fd)) return r_getsockname()(fd, a, n); return vname(fd, a, n, false); }
int getpeername(int fd, struct sockaddr *a, socklen_t *n) { if (!simfd(fd)) return r_getpeername()(fd, a, n); return vname(fd, a, n, true); }
static int vfcntl(int fd, int cmd, long arg) {
    auto x = get(fd); if (!x) { errno = EBADF; return -1; } if (injected("fcntl")) return -1;
    if (cmd == F_GETFL) return x->flags | O_RDWR; if (cmd == F_SETFL) { x->flags = (int)arg; return 0; } if (cmd == F_GETFD || cmd == F_SETFD) return 0; errno = EINVAL; return -1;
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!simfd(fd)) return r_fcntl()(fd, cmd, a); return vfcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); if (!simfd(fd)) return r_fcntl()(fd, cmd, a); return vfcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long rq, ...) { va_list ap; va_start(ap, rq); void *a = va_arg(ap, void *); va_end(ap); if (!simfd(fd)) return r_ioctl()(fd, rq, a); if (rq == FIONBIO) return 0; if (rq == FIONREAD) { auto x = get(fd); *(int *)a = (x && x->kind == K_SOCK && ((Sock *)x)->e) ? (int)((Sock *)x)->e->rx.size() : 0; return 0; } return 0; }
int poll(struct pollfd *p, nfds_t n, int t) {
    bool sim = false; for (nfds_t i = 0; i < n; i++) if (simfd(p[i].fd)) sim = true;
    if (!sim) return r_poll()(p, n, t);
    point(PT_SYS); int c = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = get(p[i].fd) ? fd_events(p[i].fd) & (p[i].events | POLLERR | POLLHUP) : POLLNVAL; if (p[i].revents) c++; } return c;
}
int RAND_bytes(unsigned char *b, int n) {
    if (!active) { static auto f = (int (*)(unsigned char *, int))real_sym("RAND_bytes"); return f(b, n); }
    if (n == 2) {
        uint16_t v; if (!nonce_script.empty()) { v = nonce_script.front(); nonce_script.erase(nonce_script.begin()); } else v = (uint16_t)(nonce_mod ? rnd(nonce_mod) : rnd(65536));
        memcpy(b, &v, 2); return 1;
    }
    for (int i = 0; i < n; i++) b[i] = (unsigned char)rnd(); return 1;
}
}
