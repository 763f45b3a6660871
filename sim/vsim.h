// Deterministic runtime under the real salticidae sources: a baton scheduler for
// real pthreads, a virtual clock, simulated TCP/eventfd descriptors and a libuv work-alike.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace vsim {

enum PointKind { PT_SYS = 0, PT_LOCK = 1, PT_ATOMIC = 2, PT_CB = 3, PT_YIELD = 4 };

void atomic_point();
struct Cfg {
    uint64_t seed = 1;
    int policy = 0;               // 0 random walk, 1 priorities (PCT-like)
    double p_sys = 0.3;           // probability of considering a switch at a syscall
    double p_lock = 0.1;
    double p_atomic = 0.02;
    double p_cb = 0.3;
    double p_creep = 0.0;         // per pick, probability that the clock moves by 1ms
    double p_cas_fail = 0.0;      // spurious compare_exchange_weak failures
    double p_eintr = 0.0;
    size_t snd_cap = 1 << 20;     // in-flight + unread bytes allowed per direction
    size_t seg_max = 1 << 16;     // largest chunk moved by one network step
    size_t recv_max = 1 << 20;    // largest chunk returned by one recv
    long max_steps = 4000000;
    int fd_base = 1000;
};

extern Cfg cfg;
extern bool active;               // simulation running

void start(const Cfg &c);         // the calling thread becomes vthread 0 (controller)
void point(PointKind k);
uint64_t rnd();                   // scheduler PRNG
uint64_t rnd(uint64_t n);
double rndf();
uint64_t now_us();
int self();                       // vthread id or -1
long steps();
void name_thread(const char *n);
int nthreads();                   // vthreads created so far

// controller only
void settle();                    // run everything until nothing can move at the current time
void run_for(uint64_t us);        // let the clock move by us, settling on the way
void nopreempt(int d);

// reporting hook: fatal conditions (deadlock, livelock, cross-thread uv use, ...)
extern void (*on_fatal)(const char *kind, const std::string &detail);
// informational hook: an fd-level event (socket opened/closed)
struct FdStat { long opened = 0, closed = 0, badclose = 0; };
extern FdStat fdstat;
long open_fds();                  // simulated descriptors currently open
long open_socks();                // simulated sockets currently open (no eventfds/pipes)
int sock_uid(int fd);             // identity of the TCP connection behind fd, the same at both ends (-1 none)
bool eph_owner(uint16_t lport, int &thread, int &uid, bool &raw); // who connected from this (ephemeral) port
long live_handles();              // uv handles not yet closed

// ---- raw (driver controlled) TCP endpoints -----------------------------------------
struct Raw;                       // opaque
Raw *raw_connect(uint16_t port, uint16_t src_port = 0, uint32_t src_ip = 0);
void raw_listen(uint16_t port, bool on);
bool raw_port_listening(uint16_t port);
Raw *raw_accept(uint16_t port);   // next connection waiting at a raw listening port or null
void raw_send(Raw *, const std::string &bytes);
std::string raw_take(Raw *);      // bytes received so far (removed)
void raw_close(Raw *);            // FIN
void raw_reset(Raw *);            // RST
void raw_hold(Raw *, bool);       // stop draining (receive window closes)
void raw_window(Raw *, size_t);
bool raw_eof(Raw *);              // peer closed (FIN)
bool raw_err(Raw *);              // peer reset
bool raw_connected(Raw *);
size_t raw_unread_peer(Raw *);    // bytes we sent which the other side has not consumed
int raw_uid(Raw *);

// ---- fault injection -----------------------------------------------------------------
void port_mode(uint16_t port, int mode); // 0 normal, 1 blackhole (SYN lost), 2 unreachable (connect fails at once)
void cut(int uid, int how);       // 0 stall (nothing moves), 1 resume, 2 reset both ends
std::vector<int> live_uids(uint16_t listen_port);
void fail_next(const char *call, int err, int count); // e.g. "accept", EMFILE
void raise_signal(int signum);    // deliver to uv_signal handles
size_t sock_queued_to(int uid, int dir);
extern std::vector<uint16_t> nonce_script;
// every chunk written by the code under test: connection, which end, bytes, how many were taken and how many offered
extern void (*on_wire)(int uid, const void *end, const char *b, size_t n, size_t offered);
extern uint64_t nonce_mod;        // 0: full range
// callback invoked in scheduler context whenever the clock is moved (for tracing)
}
