// Script-driven harness: runs the real salticidae networks inside the simulator and records
// one totally ordered trace of everything a user of the library can observe.
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <poll.h>
#include <signal.h>
#include <openssl/sha.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <openssl/rand.h>
#include "salticidae/network.h"
#include "salticidae/event.h"
#include "salticidae/stream.h"
#include "vsim.h"

using namespace salticidae;
using std::string;
typedef uint8_t op_t;

// ------------------------------------------------------------------ trace
static int trace_fd = -1;
static void raw_out(const string &s) { size_t o = 0; while (o < s.size()) { long r = syscall(SYS_write, trace_fd, s.data() + o, s.size() - o); if (r <= 0) break; o += r; } }
struct Ev {
    string s;
    Ev(const char *n) { s = string("{\"ev\":\"") + n + "\""; }
    Ev &i(const char *k, long long v) { s += string(",\"") + k + "\":" + std::to_string(v); return *this; }
    Ev &b(const char *k, bool v) { s += string(",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
    Ev &t(const char *k, const string &v) { s += string(",\"") + k + "\":\"" + v + "\""; return *this; }
    Ev &l(const char *k, const std::vector<long long> &v) { s += string(",\"") + k + "\":["; for (size_t j = 0; j < v.size(); j++) s += (j ? "," : "") + std::to_string(v[j]); s += "]"; return *this; }
};
// runs of consecutive deliveries / sends are merged into one event with n > 1
struct Run { bool on = false; string key; Ev ev{""}; long long i0 = 0, n = 0; } run_;
static void flush_run() { if (run_.on) { run_.on = false; raw_out(run_.ev.s + ",\"i\":" + std::to_string(run_.i0) + ",\"n\":" + std::to_string(run_.n) + "}\n"); } }
static void emit(const Ev &e) { flush_run(); raw_out(e.s + ",\"ms\":" + std::to_string(vsim::now_us() / 1000) + "}\n"); }
static uint64_t progress;       // messages delivered so far
static void emit_run(const Ev &e, long long idx) {
    progress++;
    if (run_.on && run_.key == e.s && idx == run_.i0 + run_.n) { run_.n++; return; }
    flush_run(); run_.on = true; run_.key = e.s; run_.ev = e; run_.i0 = idx; run_.n = 1;
}
static void fatal_hook(const char *k, const string &d) { Ev e("fatal"); e.t("kind", k).t("detail", d); emit(e); }

// ------------------------------------------------------------------ messages
// payload: u32 stream, u32 index, u32 attempt, filler derived from them
static string payload_of(uint32_t s, uint32_t i, uint32_t a, size_t size) {
    string p(std::max<size_t>(size, 12), 0);
    uint32_t h[3] = {htole32(s), htole32(i), htole32(a)}; memcpy(&p[0], h, 12);
    uint32_t x = s * 2654435761u ^ i * 40503u ^ a;
    for (size_t k = 12; k < p.size(); k++) { x = x * 1664525u + 1013904223u; p[k] = (char)(x >> 24); }
    return p;
}
struct Dec { bool ok = false; uint32_t s = 0, i = 0, a = 0; };
static std::map<uint32_t, std::map<std::pair<uint32_t,uint32_t>, size_t>> sizes;   // sent size per (stream, idx, att)
static Dec decode(const uint8_t *d, size_t n, int op) {
    Dec r; if (n < 12) return r;
    uint32_t h[3]; memcpy(h, d, 12); r.s = le32toh(h[0]); r.i = le32toh(h[1]); r.a = le32toh(h[2]);
    string p = payload_of(r.s, r.i, r.a, n);
    if (memcmp(p.data(), d, n)) return r;
    auto it = sizes.find(r.s); if (it == sizes.end()) return r;
    auto jt = it->second.find({r.i, r.a}); if (jt == it->second.end() || jt->second != (n | (size_t)op << 40)) return r;
    r.ok = true; return r;
}
static bytearray_t bytes(const string &s) { return bytearray_t(s.begin(), s.end()); }
struct MsgData {
    static const op_t opcode = 0x01; DataStream serialized; bytearray_t body;
    MsgData(const string &p): serialized(bytes(p)) {}
    MsgData(DataStream &&s) { body = bytearray_t(std::move(s)); }
};
const op_t MsgData::opcode;
#ifndef VSIM_BLK
#define VSIM_BLK 4096       // elements per block of the library's queues
#endif
struct MsgPoison {      // decoding throws when the body is odd
    static const op_t opcode = 0x03; DataStream serialized; bytearray_t body;
    MsgPoison(const string &p): serialized(bytes(p)) {}
    MsgPoison(DataStream &&s) {
        body = bytearray_t((const DataStream &)s);
        if (body.size() == 14) throw std::invalid_argument("poison");
        if (body.size() == 15) throw std::out_of_range("poison");
        uint64_t a, b; s >> a >> b;     // throws when shorter than 16 bytes
    }
};
const op_t MsgPoison::opcode;
struct MsgEmpty {       // zero length payload, identity is the opcode's business
    static const op_t opcode = 0x02; DataStream serialized;
    MsgEmpty() {}
    MsgEmpty(DataStream &&) {}
};
const op_t MsgEmpty::opcode;

static string wire(uint32_t magic, uint8_t op, const string &payload, int64_t lenov = -1, bool badsum = false) {
    string w; uint32_t m = htole32(magic), l = htole32(lenov >= 0 ? (uint32_t)lenov : (uint32_t)payload.size());
    w.append((char *)&m, 4); w.append(1, (char)op); w.append((char *)&l, 4);
    unsigned char md[20]; ::SHA1((const unsigned char *)payload.data(), payload.size(), md);
    if (badsum) md[0] ^= 0x40;
    w.append((char *)md, 4); w += payload; return w;
}

// ------------------------------------------------------------------ networks
using MN = MsgNetwork<op_t>; using PN = PeerNetwork<op_t>; using CN = ClientNetwork<op_t>;
using bconn_t = MN::conn_t;
static int next_lid = 1; static long live_conns = 0;
struct LidBase { int lid; int net; LidBase(int n): lid(next_lid++), net(n) { live_conns++; } virtual ~LidBase() { live_conns--; } };
template<class B> struct TNet: public B {
    int nid;
    struct TConn: public B::Conn, public LidBase { TConn(int n): LidBase(n) {} };
    ConnPool::Conn *create_conn() override { return new TConn(nid); }
    template<class C> TNet(int nid, const EventContext &ec, const C &c): B(ec, c), nid(nid) {}
};
template<class C> static int lid_of(const C &c) { if (!c) return 0; auto p = dynamic_cast<LidBase *>(c.get()); return p ? p->lid : 0; }
static int fd_of(const bconn_t &c) { string s = std::string(*c); int fd = -1; auto p = s.find("fd="); if (p != string::npos) fd = atoi(s.c_str() + p + 3); return fd; }
static int uid_of(const bconn_t &c) { vsim::nopreempt(1); int u = -1; if (!c->is_terminated()) { int fd = fd_of(c); if (!c->is_terminated()) u = vsim::sock_uid(fd); } vsim::nopreempt(-1); return u; }

struct Net {
    int id; string kind; uint16_t port = 0; bool tls = false; string idmode;
    EventContext ec; std::unique_ptr<ThreadCall> utc; std::thread uth; int uthr_id = -1;
    MN *mn = nullptr; PN *pn = nullptr; CN *cn = nullptr;
    int incb = 0; bool dispatching = false, stopped = false;
    std::map<int, bconn_t> live, dead; bool keep = false; std::vector<int> order;   // up connections (lid), in order of notification
    std::map<int, bconn_t> ext;                               // from connect_sync
    int echo = 0; int refuse_every = 0; int ups = 0; int act_up = 0; int term_on_recv = 0; int stop_on_recv = 0; int nrecv = 0; bool hold_refs = true;
    bool gate = false; std::mutex gm; std::condition_variable gcv; int cert = 0; bool cb_points = true;
    std::mutex am; std::condition_variable acv; int agen = 0;  // helpers which wait for the next connection
    void fire() { { std::lock_guard<std::mutex> g(am); agen++; } acv.notify_all(); }
    bool in_user() { return vsim::self() == uthr_id; }
};
static std::map<int, Net *> nets;
static std::map<uint16_t, int> port2net;
static std::map<string, int> pid2net;
struct Stream { int net = 0, lid = 0; int raw = 0; uint32_t id; uint32_t idx = 0, att = 0; };
static std::map<string, Stream> streams; static uint32_t next_stream = 1;
static Stream &stream_for(const string &key, int net, int lid, int raw, int dst, bool thr = false) {
    auto it = streams.find(key); if (it != streams.end()) return it->second;
    Stream s; s.net = net; s.lid = lid; s.raw = raw; s.id = next_stream++; Ev e("stream"); e.i("s", s.id).i("net", net).i("c", lid).i("raw", raw).i("dst", dst).b("thr", thr).i("slack", (long long)(vsim::cfg.snd_cap / 20 + 4)); emit(e);
    return streams[key] = s;
}
static bool streams_known(uint32_t s) { return s > 0 && s < next_stream; }
static string certdir; static int nhelper = 0;
static string pidkey(const PeerId &p) { return get_hex(p); }
static int net_of_pid(const PeerId &p) { auto it = pid2net.find(pidkey(p)); return it == pid2net.end() ? -1 : it->second; }
static NetAddr addr_of_port(uint16_t port) { return NetAddr(inet_addr("127.0.0.1"), htons(port)); }

// callbacks ---------------------------------------------------------------
struct NoPre { NoPre() { vsim::nopreempt(1); } ~NoPre() { vsim::nopreempt(-1); } };
struct CbScope {
    Net *n; bool on;
    CbScope(Net *n): n(n) { on = n->in_user() && n->incb == 0; n->incb++; }
    ~CbScope() { n->incb--; }
    void pt() { if (n->cb_points) vsim::point(vsim::PT_CB); }
};
static std::map<int, std::pair<salticidae::X509 *, string>> certs; // idx -> der hex
static int cert_idx(const salticidae::X509 *c) { if (!c) return 0; string h = get_hex(c->get_der()); for (auto &p: certs) if (p.second.second == h) return p.first; return -1; }
static void do_send(Net *n, const bconn_t &c, int lid, const string &thr, int cnt, size_t size, bool deferred);

static std::map<int, int> thr2net; static int pk_raw(int uid);
// which peer is at the other end: the id of its net, or its port when it is driven by hand
static int pk_of(const bconn_t &c) {
    NoPre np; uint16_t port = ntohs(c->get_addr().port);
    if (c->get_mode() == ConnPool::Conn::ACTIVE) { auto it = port2net.find(port); return it == port2net.end() ? port : it->second; }
    int t, u; bool raw; if (!vsim::eph_owner(port, t, u, raw)) return 0;
    if (raw) return pk_raw(u);
    auto it = thr2net.find(t); return it == thr2net.end() ? 0 : it->second;
}
static bool on_conn(Net *n, const bconn_t &c, bool up) {
    CbScope sc(n); int lid = lid_of(c); int uid = uid_of(c);
    bool ret = true; if (up) { n->ups++; if (n->refuse_every && n->ups % n->refuse_every == 0) ret = false; }
    Ev e("conn"); e.i("net", n->id).i("c", lid).b("up", up).i("uid", uid).b("on", sc.on).b("act", c->get_mode() == ConnPool::Conn::ACTIVE)
        .i("port", ntohs(c->get_addr().port)).i("pk", pk_of(c)).b("ret", ret).i("cert", n->tls ? cert_idx(c->get_peer_cert()) : 0); emit(e);
    if (up) { NoPre np; n->live[lid] = c; n->order.push_back(lid); }
    sc.pt();
    if (up) n->fire();
    if (up && n->act_up == 1) do_send(n, c, lid, "u", 2, 40, false);
    if (up && n->act_up == 2) { Ev t("term"); t.i("net", n->id).i("c", lid).i("uid", uid_of(c)); emit(t); n->mn->terminate(c); }
    if (!up) { NoPre np; if (n->keep) { n->dead[lid] = c; if (n->dead.size() > 8) n->dead.erase(n->dead.begin()); } n->live.erase(lid); n->order.erase(std::remove(n->order.begin(), n->order.end(), lid), n->order.end()); }
    { Ev f("connend"); f.i("net", n->id).i("c", lid).b("up", up); emit(f); }
    return ret;
}
static void on_data(Net *n, const bytearray_t &body, const bconn_t &c, int op) {
    CbScope sc(n); int lid = lid_of(c); Dec d = decode(body.data(), body.size(), op);
    Ev e("recv"); e.i("net", n->id).i("c", lid).i("s", d.ok ? d.s : 0).i("a", d.ok ? d.a : 0).b("ok", d.ok).b("on", sc.on).i("op", op).i("raw", 0);
    emit_run(e, d.ok ? d.i : 0); n->nrecv++;
    sc.pt();
    if (n->echo) do_send(n, c, lid, "u", n->echo, 24, false);
    if (n->stop_on_recv && n->nrecv == n->stop_on_recv && !n->stopped) { n->stopped = true; { Ev t("stopc"); t.i("net", n->id); emit(t); } n->mn->stop(); Ev t("stopped"); t.i("net", n->id).b("u", true); emit(t); }
    if (n->term_on_recv && n->nrecv == n->term_on_recv) { Ev t("term"); t.i("net", n->id).i("c", lid).i("uid", uid_of(c)); emit(t); n->mn->terminate(c); }
}
static void on_err(Net *n, const std::exception_ptr ep, bool fatal, int32_t aid) {
    CbScope sc(n); int code = -1, os = 0; try { std::rethrow_exception(ep); } catch (const SalticidaeError &e) { code = e.get_code(); os = e.get_oscode(); } catch (const std::exception &) { code = -2; } catch (...) {}
    Ev e("err"); e.i("net", n->id).i("aid", aid).b("fatal", fatal).i("code", code).i("os", os).b("on", sc.on); emit(e); sc.pt();
}
template<class N> static void reg_common(Net *n, N *net) {
    net->reg_conn_handler([n](const ConnPool::conn_t &c, bool up) { return on_conn(n, static_pointer_cast<MN::Conn>(c), up); });
    net->reg_error_handler([n](const std::exception_ptr e, bool f, int32_t id) { on_err(n, e, f, id); });
}
static void reg_msgs(Net *n, MN *net) {
    net->reg_handler([n](MsgData &&m, const bconn_t &c) { on_data(n, m.body, c, 1); });
    net->reg_handler([n](MsgPoison &&m, const bconn_t &c) { on_data(n, m.body, c, 3); });
    net->reg_handler([n](MsgEmpty &&, const bconn_t &c) { CbScope sc(n); Ev e("recv0"); e.i("net", n->id).i("c", lid_of(c)).b("on", sc.on).i("raw", 0); emit(e); sc.pt(); });
    net->set_handler(0x04, [n](const MN::Msg &m, const bconn_t &c) { bytearray_t b = m.get_payload(); on_data(n, b, c, 4); });
}
static void reg_peer(Net *n) {
    n->pn->reg_peer_handler([n](const PN::conn_t &c, bool up) {
        CbScope sc(n); Ev e("peer"); int lid = lid_of(c); int uid = uid_of(c); e.i("net", n->id).i("c", lid).b("up", up).i("uid", uid).i("pk", pk_of(c)).b("act", c->get_mode() == ConnPool::Conn::ACTIVE).b("on", sc.on); emit(e); sc.pt(); });
    n->pn->reg_unknown_peer_handler([n](const NetAddr &a, const salticidae::X509 *cert) {
        CbScope sc(n); Ev e("unk"); e.i("net", n->id).i("port", ntohs(a.port)).i("cert", cert_idx(cert)).b("on", sc.on); emit(e); sc.pt(); });
}

// sending -------------------------------------------------------------------
static int code_of(std::exception_ptr ep) { try { std::rethrow_exception(ep); } catch (const SalticidaeError &e) { return e.get_code(); } catch (...) { return -2; } }
template<class F> static void send_loop(Stream &st, int net, int cnt, size_t size, int op, F &&f) {
    { Ev e("sendc"); e.i("s", st.id).i("upto", st.idx + cnt); emit(e); }
    for (int k = 0; k < cnt; k++) {
        uint32_t idx = ++st.idx, att = ++st.att; string p = payload_of(st.id, idx, att, size); sizes[st.id][{idx, att}] = p.size() | (size_t)op << 40;
        bool ok = false; int code = 0;
        try { ok = f(p, op); } catch (...) { code = code_of(std::current_exception()); }
        Ev e("send"); e.i("s", st.id).b("ok", ok).i("code", code).i("net", net);
        emit_run(e, idx);
        if (!ok) { st.idx--; }
        if (ok) st.att = 0; // attempts restart for the next index
    }
}
static bool send_one(MN *mn, const string &p, int op, const bconn_t &c) {
    if (op == 3) return mn->send_msg(MsgPoison(p), c);
    if (op == 4) { MN::Msg m; m.set_opcode(4); m.set_payload(bytes(p)); m.set_checksum(); return mn->_send_msg(m, c); }
    return mn->send_msg(MsgData(p), c);
}
static void do_send(Net *n, const bconn_t &c, int lid, const string &thr, int cnt, size_t size, bool deferred) {
    Stream &st = stream_for("n" + std::to_string(n->id) + "c" + std::to_string(lid) + "t" + thr + (deferred ? "d" : ""), n->id, lid, 0, 0);
    if (deferred) for (int k = 0; k < cnt; k++) {
        uint32_t idx = ++st.idx; string p = payload_of(st.id, idx, 1, size); sizes[st.id][{idx, 1}] = p.size() | (size_t)1 << 40;
        { Ev e("sendc"); e.i("s", st.id).i("upto", idx); emit(e); }
        int32_t aid = n->mn->send_msg_deferred(MsgData(p), c);
        Ev e("sendd"); e.i("s", st.id).i("net", n->id).i("aid", aid).i("i", idx); emit(e);
    } else send_loop(st, n->id, cnt, size, 1, [&](const string &p, int op) { return send_one(n->mn, p, op, c); });
}

// raw peers -------------------------------------------------------------------
static void load_cert(int k);
struct RawP { int id; vsim::Raw *r; SSL *ssl = nullptr; BIO *rb = nullptr, *wb = nullptr; string pend; int hs = 0; size_t txb = 0; long maxw = 13; string in; bool parse = true; bool autohb = false; int pongnonce = -1; uint16_t myport = 0; bool autodrain = true; bool seof = false, serr = false; bool bad = false; };
static std::map<int, RawP *> raws;
static string netaddr_bytes(uint16_t port) { uint32_t ip = inet_addr("127.0.0.1"); uint16_t p = htons(port); string s; s.append((char *)&ip, 4); s.append((char *)&p, 2); return s; }
static string hs_payload(uint16_t port, uint32_t nonce) { string s(1, 1); s += netaddr_bytes(port); uint32_t n = htole32(nonce); s.append((char *)&n, 4); return s; }
static void rawtls_drain(RawP *p) { char b[4096]; int k; string o; while ((k = BIO_read(p->wb, b, sizeof b)) > 0) o.append(b, k); if (!o.empty()) vsim::raw_send(p->r, o); }
static void rawtls_step(RawP *p) {
    ERR_clear_error();
    if (p->hs == 0) { int r = SSL_do_handshake(p->ssl); if (r == 1) { p->hs = 1; Ev e("rawtls"); e.i("raw", p->id).b("ok", true); emit(e); } else { int er = SSL_get_error(p->ssl, r); if (er != SSL_ERROR_WANT_READ && er != SSL_ERROR_WANT_WRITE) { p->hs = -1; Ev e("rawtls"); e.i("raw", p->id).b("ok", false); emit(e); } } }
    if (p->hs == 1) { char b[4096]; int k; while ((k = SSL_read(p->ssl, b, sizeof b)) > 0) p->in.append(b, k);
        if (!p->pend.empty()) { SSL_write(p->ssl, p->pend.data(), (int)p->pend.size()); p->pend.clear(); } }
    rawtls_drain(p); ERR_clear_error();
}
static void raw_tx(RawP *p, const string &b) { if (p->ssl) { p->pend += b; rawtls_step(p); } else { p->txb += b.size(); vsim::raw_send(p->r, b); } }
static void rawtls_setup(RawP *p, int cert, int key, bool server) {
    SSL_CTX *x = SSL_CTX_new(TLS_method()); SSL_CTX_set_verify(x, SSL_VERIFY_NONE, nullptr);
    if (cert) { load_cert(cert); SSL_CTX_use_certificate_file(x, (certdir + "/c" + std::to_string(cert) + ".pem").c_str(), SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(x, (certdir + "/k" + std::to_string(key) + ".pem").c_str(), SSL_FILETYPE_PEM); }
    p->ssl = SSL_new(x); p->rb = BIO_new(BIO_s_mem()); p->wb = BIO_new(BIO_s_mem()); SSL_set_bio(p->ssl, p->rb, p->wb); if (server) SSL_set_accept_state(p->ssl); else SSL_set_connect_state(p->ssl);
    if (!server) rawtls_step(p);
}
static bool raw_pump_one(RawP *p) {
    bool moved = false; string d = vsim::raw_take(p->r); if (p->ssl) { if (!d.empty()) { BIO_write(p->rb, d.data(), (int)d.size()); rawtls_step(p); moved = true; } } else p->in += d;
    while (p->parse && !p->bad && p->in.size() >= 13) {
        uint32_t len; memcpy(&len, p->in.data() + 5, 4); len = le32toh(len); uint8_t op = p->in[4];
        if (len > (1u << 24)) { p->bad = true; Ev e("wirebad"); e.i("raw", p->id); emit(e); break; }
        if (p->in.size() < 13 + (size_t)len) break;
        string pl = p->in.substr(13, len); string w = wire(0, op, pl);
        bool sum = !memcmp(w.data() + 9, p->in.data() + 9, 4); p->in.erase(0, 13 + len); moved = true;
        if (!sum) { Ev e("wirebad"); e.i("raw", p->id); emit(e); p->bad = true; break; }
        if (op == 0xf0 || op == 0xf1) {
            Ev e("wirehs"); bool f = pl.size() >= 11 && pl[0]; uint16_t port = 0; uint32_t nonce = 0; if (f) { memcpy(&port, pl.data() + 5, 2); port = ntohs(port); memcpy(&nonce, pl.data() + 7, 4); }
            e.i("raw", p->id).b("ping", op == 0xf0).b("hs", f).i("port", port).i("nonce", nonce); emit(e);
            if (op == 0xf0 && !f && p->autohb) raw_tx(p, wire(0, 0xf1, string(1, 0)));
            if (op == 0xf0 && f && p->pongnonce >= 0) raw_tx(p, wire(0, 0xf1, hs_payload(p->myport, p->pongnonce)));
        } else if (op == 2) { Ev e("recv0"); e.i("net", 0).i("c", 0).b("on", true).i("raw", p->id); emit(e); }
        else { Dec x = decode((const uint8_t *)pl.data(), pl.size(), op); Ev e("recv"); e.i("net", 0).i("c", 0).i("s", x.ok ? x.s : 0).i("a", x.ok ? x.a : 0).b("ok", x.ok).b("on", true).i("op", op).i("raw", p->id); emit_run(e, x.ok ? x.i : 0); }
    }
    if (vsim::raw_err(p->r) && !p->serr) { p->serr = true; Ev e("rawend"); e.i("raw", p->id).t("how", "rst").i("left", p->parse ? (long long)p->in.size() : 0); emit(e); moved = true; }
    else if (vsim::raw_eof(p->r) && !p->seof && !p->serr) { p->seof = true; Ev e("rawend"); e.i("raw", p->id).t("how", "fin").i("left", p->parse ? (long long)p->in.size() : 0); emit(e); moved = true; }
    return moved;
}
struct AutoAcc { uint16_t port; int base; int next; bool hb; int pong; int tls; };
static std::vector<AutoAcc> autoacc;
static bool pump() {
    bool m = false;
    for (auto &a: autoacc) for (;;) {
        vsim::Raw *r = vsim::raw_accept(a.port); if (!r) break;
        RawP *p = new RawP(); p->id = a.base + a.next++; p->r = r; p->myport = a.port; p->autohb = a.hb; p->pongnonce = a.pong; raws[p->id] = p; m = true;
        Ev e("rawacc"); e.i("raw", p->id).i("port", a.port).i("uid", vsim::raw_uid(r)).i("as", p->myport).b("hb", p->autohb).i("tls", a.tls); emit(e); if (a.tls >= 0) rawtls_setup(p, a.tls, a.tls, true);
    }
    for (auto &p: raws) if (p.second->autodrain) m |= raw_pump_one(p.second);
    return m;
}
static int pk_raw(int uid) { for (auto &r: raws) if (vsim::raw_uid(r.second->r) == uid) return r.second->myport; return 0; }
static void settle() { do { vsim::settle(); } while (pump()); }
static void run_ms(long ms) {
    // small slices so that raw peers answer promptly
    long slice = 20; while (ms > 0) { long k = std::min(ms, slice); settle(); vsim::run_for(k * 1000); settle(); ms -= k; }
    settle();
}

// What the code under test writes on a connection. With TLS every byte has to belong to a record; without it the
// bytes have to be a sequence of whole messages, and the trace says which messages have (partly) been handed over.
struct Sniff { size_t left = 0; string hdr; bool bad = false; string msg; bool told = false; };
static std::map<std::pair<int, const void *>, Sniff> sniffs; static bool any_tls = false, any_peer = false;
static void on_wire(int uid, const void *end, const char *b, size_t n, size_t offered) {
    Sniff &s = sniffs[{uid, end}]; if (s.bad) return;
    if (any_tls) { for (size_t i = 0; i < n;) {
        if (s.left) { size_t m = std::min(s.left, n - i); s.left -= m; i += m; continue; }
        s.hdr += b[i++]; if (s.hdr.size() < 5) continue;
        unsigned char *h = (unsigned char *)&s.hdr[0]; size_t len = h[3] * 256 + h[4];
        if (h[0] < 20 || h[0] > 23 || h[1] != 3 || h[2] > 4 || len > 17000) { s.bad = true; Ev e("wireplain"); e.i("uid", uid); emit(e); return; }
        s.left = len; s.hdr.clear();
    } return; }
    if (!any_peer) return;
    for (size_t i = 0; i < n;) {
        size_t have = s.msg.size(), need = 13; uint32_t len = 0;
        if (have >= 13) { memcpy(&len, &s.msg[5], 4); need = 13 + (size_t)le32toh(len); if (le32toh(len) > (1u << 24)) { s.bad = true; Ev e("wiremis"); e.i("uid", uid); emit(e); return; } }
        if (have < need) { size_t m = std::min(need - have, n - i); s.msg.append(b + i, m); i += m; have += m; }
        if (!s.told && have) { // look ahead into what was offered
            string v = s.msg + string(b + i, offered - i);
            if (v.size() >= 13 && ((uint8_t)v[4] == 0xf0 || (uint8_t)v[4] == 0xf1)) s.told = true;
            else if (v.size() >= 25) { uint32_t h[2]; memcpy(h, v.data() + 13, 8); s.told = true; Ev e("wrote"); e.i("uid", uid).i("s", le32toh(h[0])); if (streams_known(le32toh(h[0]))) emit_run(e, le32toh(h[1])); }
        }
        if (have == need && need >= 13) {
            memcpy(&len, &s.msg[5], 4); if (have < 13 + (size_t)le32toh(len)) continue;
            string w = wire(0, s.msg[4], s.msg.substr(13)); bool ok = w == s.msg; s.msg.clear(); s.told = false;
            if (!ok) { s.bad = true; Ev e("wiremis"); e.i("uid", uid); emit(e); return; }
        }
    }
}
// script ----------------------------------------------------------------------
typedef std::map<string, string> KV;
static std::vector<string> toks(const string &l) { std::vector<string> r; string c; for (char ch: l) { if (ch == ' ' || ch == '\t') { if (!c.empty()) r.push_back(c), c.clear(); } else c += ch; } if (!c.empty()) r.push_back(c); return r; }
static KV kvs(const std::vector<string> &t) { KV m; for (auto &x: t) { auto p = x.find('='); if (p != string::npos) m[x.substr(0, p)] = x.substr(p + 1); } return m; }
static double D(KV &k, const char *n, double d) { return k.count(n) ? atof(k[n].c_str()) : d; }
static long I(KV &k, const char *n, long d) { return k.count(n) ? atol(k[n].c_str()) : d; }
static std::vector<std::thread *> helpers;

static PeerId pid_of(int m) { // id of net m
    Net *t = nets.count(m) ? nets[m] : nullptr;
    if (t && t->tls && t->idmode == "cert") return PeerId(*certs[t->cert].first);
    uint16_t port = t ? t->port : (uint16_t)m;
    return PeerId(addr_of_port(port));
}
static void load_cert(int k) { if (certs.count(k)) return; salticidae::X509 *x = new salticidae::X509(salticidae::X509::create_from_pem_file(certdir + "/c" + std::to_string(k) + ".pem")); certs[k] = {x, get_hex(x->get_der())}; }

static void mk_net(int id, KV k) {
    Net *n = new Net(); n->id = id; n->kind = k.count("kind") ? k["kind"] : "msg"; n->tls = I(k, "tls", 0); n->idmode = k.count("idmode") ? k["idmode"] : "addr";
    n->keep = I(k, "keep", 0); n->echo = I(k, "echo", 0); n->refuse_every = I(k, "refuse", 0); n->act_up = I(k, "onup", 0); n->term_on_recv = I(k, "termrecv", 0); n->stop_on_recv = I(k, "stoprecv", 0); n->cert = I(k, "cert", id); n->port = (uint16_t)I(k, "port", 7000 + id);
    MN::Config mc;
    mc.max_msg_size(I(k, "maxmsg", 65536)).max_msg_queue_size(I(k, "qsize", 65536)).burst_size(I(k, "burst", 1000));
    mc.recv_chunk_size(I(k, "chunk", 4096)).nworker(I(k, "nworker", 1)).max_recv_buff_size(I(k, "rbuf", 4096)).max_send_buff_size(I(k, "sbuf", 0)).conn_server_timeout(D(k, "cto", 2)).max_listen_backlog(I(k, "backlog", 10));
    if (n->tls) { load_cert(n->cert); mc.enable_tls(true).tls_cert_file(certdir + "/c" + std::to_string(n->cert) + ".pem").tls_key_file(certdir + "/k" + std::to_string(I(k, "key", n->cert)) + ".pem"); }
    try {
    if (n->kind == "msg") { auto t = new TNet<MN>(id, n->ec, mc); n->mn = t; }
    else if (n->kind == "client") { auto t = new TNet<CN>(id, n->ec, mc); n->mn = t; n->cn = t; }
    else { PN::Config pc(mc); pc.ping_period(D(k, "ping", 30)).conn_timeout(D(k, "ctimeout", 180)).id_mode(n->idmode == "cert" ? PN::CERT_BASED : PN::ADDR_BASED); auto t = new TNet<PN>(id, n->ec, pc); n->mn = t; n->pn = t; }
    } catch (...) { Ev e("neterr"); e.i("net", id).i("code", code_of(std::current_exception())).b("mismatch", I(k, "key", n->cert) != n->cert); emit(e); return; }
    nets[id] = n; port2net[n->port] = id;
    reg_common(n, n->mn); reg_msgs(n, n->mn); if (n->pn) { any_peer = true; reg_peer(n); pid2net[pidkey(pid_of(id))] = id; }
    n->utc.reset(new ThreadCall(n->ec));
    if (n->tls) any_tls = true; Ev e("net"); e.i("net", id).i("cert", n->tls ? n->cert : 0).b("mismatch", n->tls && I(k, "key", n->cert) != n->cert).i("qsize", I(k, "qsize", 65536)).i("blk", VSIM_BLK).i("rbuf", I(k, "rbuf", 4096)).i("chunk", I(k, "chunk", 4096)).t("kind", n->kind).b("tls", n->tls).i("maxmsg", I(k, "maxmsg", 65536)).i("sbuf", I(k, "sbuf", 0)).i("port", n->port).i("pingms", (long)(D(k, "ping", 30) * 1000)).i("ctms", (long)(D(k, "ctimeout", 180) * 1000)).i("ctoms", (long)(D(k, "cto", 2) * 1000)); emit(e);
}
static void start_net(Net *n) {
    int t0 = vsim::nthreads();
    n->uth = std::thread([n]() { sigset_t m; sigemptyset(&m); sigaddset(&m, SIGINT); pthread_sigmask(SIG_BLOCK, &m, nullptr); vsim::name_thread("user"); n->uthr_id = vsim::self(); n->dispatching = true; n->ec.dispatch(); n->dispatching = false; });
    n->mn->start(); for (int t = t0; t < vsim::nthreads(); t++) thr2net[t] = n->id;
    Ev e("start"); e.i("net", n->id); emit(e);
}
static void stop_loop(Net *n) {
    if (!n->uth.joinable()) return;
    if (n->gate) { std::lock_guard<std::mutex> g(n->gm); n->gate = false; n->gcv.notify_all(); }
    EventContext ec = n->ec; n->utc->async_call([ec](ThreadCall::Handle &) { ec.stop(); }); n->uth.join();
    Ev e("loopend"); e.i("net", n->id); emit(e);
}
static bconn_t pick_conn(Net *n, int k, int &lid) {
    NoPre np; if (n->order.empty()) return bconn_t(); lid = n->order[k % n->order.size()]; return n->live[lid];
}
static void api(Net *n, const char *nm, long arg, int32_t aid, long arg2 = 0) { Ev e("api"); e.i("net", n->id).t("op", nm).i("arg", arg).i("arg2", arg2).i("aid", aid); emit(e); }

static void exec(const std::vector<string> &lines) {
    for (auto &line: lines) {
        auto t = toks(line); if (t.empty() || t[0][0] == '#') continue; auto k = kvs(t); const string &c = t[0];
        auto A = [&](size_t i) { return i < t.size() ? atol(t[i].c_str()) : 0L; };
        Net *n = nullptr; if (t.size() > 1 && nets.count((int)A(1))) n = nets[(int)A(1)];
        int lid = 0;
        if (c == "net") mk_net((int)A(1), k);
        else if (c == "settle") { settle(); Ev e("settled"); emit(e); }
        else if (c == "run") { run_ms(A(1)); Ev e("settled"); emit(e); }
        else if (c == "slice") { vsim::run_for((uint64_t)A(1) * 1000); }
        else if (c == "steps") { for (long i = 0; i < A(1); i++) vsim::point(vsim::PT_YIELD); }
        else if (c == "nonces") { for (size_t i = 1; i < t.size(); i++) vsim::nonce_script.push_back((uint16_t)A(i)); }
        else if (c == "noncemod") vsim::nonce_mod = A(1);
        else if (c == "portmode") { vsim::port_mode((uint16_t)A(1), (int)A(2)); Ev e("portmode"); e.i("port", A(1)).i("mode", A(2)); emit(e); }
        else if (c == "fail") { vsim::fail_next(t[1].c_str(), (int)A(2), (int)A(3)); Ev e("inject"); e.t("call", t[1]).i("err", A(2)).i("cnt", A(3)); emit(e); }
        else if (c == "cut") { // cut PORT HOW [K]: connections accepted at PORT
            auto u = vsim::live_uids((uint16_t)A(1)); for (size_t i = 0; i < u.size(); i++) if (t.size() < 4 || (long)i == A(3) % (long)u.size()) { Ev e("cut"); e.i("uid", u[i]).i("how", A(2)).i("port", A(1)); emit(e); vsim::cut(u[i], (int)A(2)); } }
        else if (c == "absorb") { for (auto &r: raws) if (!r.second->ssl) { Ev e("absorb"); e.i("raw", r.first).i("w", r.second->maxw).i("b", (long long)(r.second->txb - vsim::raw_unread_peer(r.second->r))); emit(e); } }
        else if (c == "join") { for (auto &x: nets) x.second->fire(); for (auto h: helpers) { h->join(); delete h; } helpers.clear(); Ev e("joined"); emit(e); }
        // raw peers
        else if (c == "rawlisten") { vsim::raw_listen((uint16_t)A(1), true); autoacc.push_back({(uint16_t)A(1), (int)I(k, "base", 100), 0, I(k, "hb", 0) != 0, (int)I(k, "pong", -1), (int)I(k, "tls", -1)}); Ev e("rawlisten"); e.i("port", A(1)).b("on", true); emit(e); }
        else if (c == "rawunlisten") { vsim::raw_listen((uint16_t)A(1), false); for (size_t i = 0; i < autoacc.size(); i++) if (autoacc[i].port == A(1)) { autoacc.erase(autoacc.begin() + i); break; } Ev e("rawlisten"); e.i("port", A(1)).b("on", false); emit(e); }
        else if (c == "rawconn") { RawP *p = new RawP(); p->id = (int)A(1); p->myport = (uint16_t)I(k, "as", 0); p->autohb = I(k, "hb", 0); p->pongnonce = (int)I(k, "pong", -1); p->parse = I(k, "parse", 1); p->r = vsim::raw_connect((uint16_t)A(2), (uint16_t)I(k, "src", 0)); raws[p->id] = p; Ev e("rawconn"); e.i("raw", p->id).i("port", A(2)).i("uid", vsim::raw_uid(p->r)).i("src", I(k, "src", 0)).i("as", p->myport).b("hb", p->autohb).i("tls", I(k, "tls", -1)); emit(e); if (I(k, "tls", -1) >= 0) rawtls_setup(p, (int)I(k, "tls", 0), (int)I(k, "key", I(k, "tls", 0)), false); }
        else if (c.compare(0, 3, "raw") == 0) {
            if (!raws.count((int)A(1))) continue; RawP *p = raws[(int)A(1)];
            if (c == "rawclose") { Ev e("rawact"); e.i("raw", p->id).t("a", "close"); emit(e); vsim::raw_close(p->r); }
            else if (c == "rawrst") { Ev e("rawact"); e.i("raw", p->id).t("a", "rst"); emit(e); vsim::raw_reset(p->r); }
            else if (c == "rawhold") { while (raw_pump_one(p)) {} Ev e("rawact"); e.i("raw", p->id).t("a", A(2) ? "hold" : "unhold"); emit(e); vsim::raw_hold(p->r, A(2)); }
            else if (c == "rawhs") { Ev e("rawhs"); e.i("raw", p->id).b("ping", t[2] == "ping").i("port", A(3)).i("nonce", A(4)); emit(e); raw_tx(p, wire(0, t[2] == "ping" ? 0xf0 : 0xf1, hs_payload((uint16_t)A(3), (uint32_t)A(4)))); }
            else if (c == "rawhb") { Ev e("rawhb"); e.i("raw", p->id).b("ping", t[2] == "ping"); emit(e); raw_tx(p, wire(0, t[2] == "ping" ? 0xf0 : 0xf1, string(1, 0))); }
            else if (c == "rawset") { if (k.count("hb")) p->autohb = I(k, "hb", 0); if (k.count("pong")) p->pongnonce = (int)I(k, "pong", -1); if (k.count("as")) p->myport = (uint16_t)I(k, "as", 0); Ev e("rawset"); e.i("raw", p->id).b("hb", p->autohb); emit(e); }
            else if (c == "rawbytes") { string b; for (size_t i = 0; i + 1 < t[2].size(); i += 2) b += (char)strtol(t[2].substr(i, 2).c_str(), 0, 16); Ev e("rawact"); e.i("raw", p->id).t("a", "junk"); emit(e); raw_tx(p, b); }
            else if (c == "rawmsg") { // rawmsg R CNT SIZE kind
                string kind = t.size() > 4 ? t[4] : "ok"; p->maxw = std::max(p->maxw, std::max(A(3), 12L) + 13); Stream &st = stream_for("r" + std::to_string(p->id), 0, 0, p->id, 0); string all;
                for (long j = 0; j < A(2); j++) {
                    if (kind == "empty") { Ev e("send0"); e.i("raw", p->id); emit(e); all += wire(0, 2, ""); continue; }
                    bool good = kind == "ok" || kind == "op4" || kind == "op3";
                    uint32_t idx = good ? ++st.idx : st.idx + 1; uint32_t att = good ? 0 : 7; string pl = payload_of(st.id, idx, att, (size_t)A(3));
                    sizes[st.id][{idx, att}] = pl.size() | (size_t)(kind == "op4" ? 4 : kind == "op3" ? 3 : 1) << 40;
                    if (good) { Ev e("send"); e.i("s", st.id).b("ok", true).i("code", 0).i("net", 0); emit_run(e, idx); all += wire(0x77, kind == "op4" ? 4 : kind == "op3" ? 3 : 1, pl); }
                    else { Ev e("rawbad"); e.i("raw", p->id).i("s", st.id).t("kind", kind); emit(e);
                        if (kind == "badsum") all += wire(0, 1, pl, -1, true);
                        else if (kind == "flip") { string w = wire(0, 1, pl); w[13 + (idx * 7 + j) % pl.size()] ^= (char)(1 << (idx % 8)); all += w; }
                        else if (kind == "over") all += wire(0, 1, pl, A(5));
                        else if (kind == "unkop") all += wire(0, 0x55, pl);
                        else if (kind == "poison") all += wire(0, 3, pl.substr(0, std::min<size_t>(pl.size(), 13 + std::max<long>(0, A(3)) % 3)));
                        else if (kind == "part") { string w = wire(0, 1, pl, -1, true); all += w.substr(0, w.size() - std::max(1L, A(5))); }
                    }
                }
                raw_tx(p, all);
            }
        }
        else if (!n) continue;
        else if (c == "start") start_net(n);
        else if (c == "listen") { uint16_t port = t.size() > 2 ? (uint16_t)A(2) : n->port; int code = 0; { Ev e("listenc"); e.i("net", n->id).i("port", port); emit(e); } try { if (n->pn) n->pn->listen(addr_of_port(port)); else n->mn->listen(addr_of_port(port)); } catch (...) { code = code_of(std::current_exception()); } Ev e("listen"); e.i("net", n->id).i("port", port).i("code", code); emit(e); }
        else if (c == "connect") { { Ev e("connectc"); e.i("net", n->id).i("port", A(2)); emit(e); } int32_t a = n->mn->connect(addr_of_port((uint16_t)A(2))); api(n, "connect", A(2), a); }
        else if (c == "uconnect") { uint16_t port = (uint16_t)A(2); n->utc->async_call([n, port](ThreadCall::Handle &) { { Ev e("connectc"); e.i("net", n->id).i("port", port); emit(e); } int32_t a = n->mn->connect(addr_of_port(port)); api(n, "connect", port, a); }); }
        else if (c == "connects") { { Ev e("connectc"); e.i("net", n->id).i("port", A(2)); emit(e); } int code = 0; int l = 0; try { auto cc = n->mn->connect_sync(addr_of_port((uint16_t)A(2))); l = lid_of(cc); n->ext[l] = cc; } catch (...) { code = code_of(std::current_exception()); } Ev e("connects"); e.i("net", n->id).i("port", A(2)).i("c", l).i("code", code); emit(e); }
        else if (c == "send" || c == "sendd") { auto cc = pick_conn(n, (int)A(2), lid); if (!cc) continue; int cnt = (int)A(3); size_t sz = A(4); string thr = t.size() > 5 ? t[5] : "c"; bool df = c == "sendd"; if (thr[0] == 'h') thr += "." + std::to_string(++nhelper);
            if (thr == "u") n->utc->async_call([n, cc, lid, cnt, sz, df](ThreadCall::Handle &) { do_send(n, cc, lid, "u", cnt, sz, df); });
            else if (thr[0] == 'h') helpers.push_back(new std::thread([=]() { do_send(n, cc, lid, thr, cnt, sz, df); }));
            else do_send(n, cc, lid, thr, cnt, sz, df); }
        else if (c == "sendop") { auto cc = pick_conn(n, (int)A(2), lid); if (!cc) continue; Stream &st = stream_for("n" + std::to_string(n->id) + "c" + std::to_string(lid) + "tc", n->id, lid, 0, 0); send_loop(st, n->id, (int)A(3), A(4), (int)A(5), [&](const string &p, int op) { return send_one(n->mn, p, op, cc); }); }
        else if (c == "send0") { auto cc = pick_conn(n, (int)A(2), lid); if (!cc) continue; { Ev e("send0"); e.i("raw", 0).i("net", n->id).i("c", lid); emit(e); } n->mn->send_msg(MsgEmpty(), cc); }
        else if (c == "write0") { auto cc = pick_conn(n, (int)A(2), lid); if (!cc) continue; bool ok = cc->write(bytearray_t()); Ev e("write0"); e.i("net", n->id).i("c", lid).b("ok", ok); emit(e); }
        else if (c == "xsend") { if (n->ext.empty()) continue; auto it = n->ext.begin(); std::advance(it, A(2) % n->ext.size()); do_send(n, it->second, it->first, "c", (int)A(3), A(4), false); }
        else if (c == "term") { auto cc = pick_conn(n, (int)A(2), lid); if (!cc) continue; { Ev e("term"); e.i("net", n->id).i("c", lid).i("uid", uid_of(cc)); emit(e); } n->mn->terminate(cc); }
        else if (c == "xterm") { if (n->ext.empty()) continue; auto it = n->ext.begin(); std::advance(it, A(2) % n->ext.size()); { Ev e("term"); e.i("net", n->id).i("c", it->first).i("uid", uid_of(it->second)); emit(e); } n->mn->terminate(it->second); }
        else if (c == "pause") { n->gate = true; { Ev e("pause"); e.i("net", n->id); emit(e); } n->utc->async_call([n](ThreadCall::Handle &) { std::unique_lock<std::mutex> g(n->gm); n->gcv.wait(g, [n] { return !n->gate; }); }); }
        else if (c == "resume") { { Ev e("resume"); e.i("net", n->id); emit(e); } std::lock_guard<std::mutex> g(n->gm); n->gate = false; n->gcv.notify_all(); }
        else if (c == "echo") n->echo = (int)A(2);
        // p2p
        else if (c == "addpeer") { { Ev e("apic"); e.i("net", n->id).t("op", "addpeer").i("arg", A(2)).i("arg2", 0); emit(e); } api(n, "addpeer", A(2), n->pn->add_peer(pid_of((int)A(2)))); }
        else if (c == "delpeer") { { Ev e("apic"); e.i("net", n->id).t("op", "delpeer").i("arg", A(2)).i("arg2", 0); emit(e); } api(n, "delpeer", A(2), n->pn->del_peer(pid_of((int)A(2)))); }
        else if (c == "setaddr") { uint16_t port = t.size() > 3 ? (uint16_t)A(3) : (nets.count((int)A(2)) ? nets[(int)A(2)]->port : (uint16_t)A(2)); NetAddr a = port ? addr_of_port(port) : NetAddr(); { Ev e("apic"); e.i("net", n->id).t("op", "setaddr").i("arg", A(2)).i("arg2", port); emit(e); } api(n, "setaddr", A(2), n->pn->set_peer_addr(pid_of((int)A(2)), a), port); }
        else if (c == "connpeer") { int32_t ntry = t.size() > 3 ? (int32_t)A(3) : -1; double d = t.size() > 4 ? A(4) / 1000.0 : 2; { Ev e("apic"); e.i("net", n->id).t("op", "connpeer").i("arg", A(2)).i("arg2", ntry).i("delay", (long)(d * 1000)); emit(e); } api(n, "connpeer", A(2), n->pn->conn_peer(pid_of((int)A(2)), ntry, d), ntry); }
        else if (c == "haspeer") { bool r = n->pn->has_peer(pid_of((int)A(2))); Ev e("haspeer"); e.i("net", n->id).i("arg", A(2)).b("r", r); emit(e); }
        else if (c == "getconn") { int code = 0, l = 0, uid = -1; bool tm = true; try { auto cc = n->pn->get_peer_conn(pid_of((int)A(2))); l = lid_of(cc); tm = cc->is_terminated(); uid = l ? uid_of(cc) : -1; } catch (...) { code = code_of(std::current_exception()); } Ev e("getconn"); e.i("net", n->id).i("arg", A(2)).i("c", l).i("uid", uid).b("term", tm).i("code", code); emit(e); }
        else if (c == "peerid") { // identity reported by live peer connections
            std::map<int, bconn_t> snap; { NoPre np; snap = n->live; snap.insert(n->dead.begin(), n->dead.end()); } for (auto &l: snap) { auto pc = static_pointer_cast<PN::Conn>(l.second); PeerId p = pc->get_peer_id(); NetAddr a = pc->get_peer_addr(); Ev e("peerid"); e.i("net", n->id).i("c", l.first).i("pid", net_of_pid(p)).i("port", ntohs(a.port)).b("nul", p == PeerId() || p.is_null()); emit(e); } }
        else if (c == "npending") { size_t r = n->pn->get_npending(); Ev e("npending"); e.i("net", n->id).i("r", (long long)r); emit(e); }
        else if (c == "psend" || c == "psendd") { int m = (int)A(2); int cnt = (int)A(3); size_t sz = A(4); string thr = t.size() > 5 ? t[5] : "c"; if (thr[0] == 'h' || thr[0] == 'g') thr += "." + std::to_string(++nhelper); PeerId pid = pid_of(m); int gen = n->agen;
            auto f = [n, m, cnt, sz, pid, thr, c, gen]() {
                if (thr[0] == 'g') { std::unique_lock<std::mutex> l(n->am); while (n->agen == gen) n->acv.wait(l); }
                Stream &st = stream_for("n" + std::to_string(n->id) + "p" + std::to_string(m) + "t" + thr + (c == "psendd" ? "d" : ""), n->id, 0, 0, m, thr != "c");
                if (c == "psend") send_loop(st, n->id, cnt, sz, 1, [&](const string &p, int) { return n->pn->send_msg(MsgData(p), pid); });
                else for (int q = 0; q < cnt; q++) { uint32_t idx = ++st.idx; string p = payload_of(st.id, idx, 1, sz); sizes[st.id][{idx, 1}] = p.size() | (size_t)1 << 40; { Ev e("sendc"); e.i("s", st.id).i("upto", idx); emit(e); } int32_t aid = n->pn->send_msg_deferred(MsgData(p), pid); Ev e("sendd"); e.i("s", st.id).i("net", n->id).i("aid", aid).i("i", idx); emit(e); }
            };
            if (thr == "u") n->utc->async_call([f](ThreadCall::Handle &) { f(); }); else if (thr[0] == 'h' || thr[0] == 'g') helpers.push_back(new std::thread(f)); else f(); }
        else if (c == "mcast") { // mcast N m1,m2 cnt size
            std::vector<PeerId> v; std::vector<long long> ms; for (auto &x: split(t[2], ",")) { int m = atoi(x.c_str()); v.push_back(pid_of(m)); ms.push_back(m); }
            for (long q = 0; q < A(3); q++) { Stream &st = stream_for("n" + std::to_string(n->id) + "m" + t[2], n->id, 0, 0, -1); uint32_t idx = ++st.idx; string p = payload_of(st.id, idx, 1, A(4)); sizes[st.id][{idx, 1}] = p.size() | (size_t)1 << 40;
                { Ev e("mcastc"); e.i("s", st.id).i("net", n->id).l("to", ms).i("i", idx); emit(e); } int32_t aid = n->pn->multicast_msg(MsgData(p), v); Ev e("mcast"); e.i("s", st.id).i("net", n->id).i("aid", aid).i("i", idx); emit(e); } }
        // client network
        else if (c == "csend" || c == "csendd") { uint16_t port = (uint16_t)A(2); if (t[2][0] == '@') { NoPre np; if (n->order.empty()) continue; port = ntohs(n->live[n->order[atoi(t[2].c_str() + 1) % n->order.size()]]->get_addr().port); }
            string thr = t.size() > 5 ? t[5] : "c"; if (thr[0] == 'h' || thr[0] == 'g') thr += "." + std::to_string(++nhelper); int gen = n->agen;
            Stream &st = stream_for("n" + std::to_string(n->id) + "a" + std::to_string(port) + "t" + thr + (c == "csendd" ? "d" : ""), n->id, 0, 0, port, thr != "c"); NetAddr a = addr_of_port(port); int cnt = (int)A(3); size_t sz = A(4);
            auto f = [n, &st, a, cnt, sz, c, thr, gen]() { if (thr[0] == 'g') { std::unique_lock<std::mutex> l(n->am); while (n->agen == gen) n->acv.wait(l); }
                if (c == "csend") send_loop(st, n->id, cnt, sz, 1, [&](const string &p, int) { return n->cn->send_msg(MsgData(p), a); });
                else for (int q = 0; q < cnt; q++) { uint32_t idx = ++st.idx; string p = payload_of(st.id, idx, 1, sz); sizes[st.id][{idx, 1}] = p.size() | (size_t)1 << 40; { Ev e("sendc"); e.i("s", st.id).i("upto", idx); emit(e); } int32_t aid = n->cn->send_msg_deferred(MsgData(p), a); Ev e("sendd"); e.i("s", st.id).i("net", n->id).i("aid", aid).i("i", idx); emit(e); } };
            if (thr == "u") n->utc->async_call([f](ThreadCall::Handle &) { f(); }); else if (thr[0] == 'h' || thr[0] == 'g') helpers.push_back(new std::thread(f)); else f(); }
        else if (c == "stats") { std::map<int, bconn_t> snap; { NoPre np; snap = n->live; } for (auto &l: snap) { Ev e("stat"); e.i("net", n->id).i("c", l.first).i("nsent", l.second->get_nsent()).i("nrecv", l.second->get_nrecv()).i("nsentb", l.second->get_nsentb()).i("nrecvb", l.second->get_nrecvb()); emit(e); } }
        else if (c == "term_state") { std::map<int, bconn_t> snap; { NoPre np; snap = n->live; } for (auto &l: snap) { Ev e("termst"); e.i("net", n->id).i("c", l.first).b("term", l.second->is_terminated()); emit(e); } }
        else if (c == "drop") { n->live.clear(); n->dead.clear(); n->order.clear(); n->ext.clear(); }
        else if (c == "stoploop") stop_loop(n);
        else if (c == "stop") { { Ev e("stopc"); e.i("net", n->id); emit(e); } n->mn->ConnPool::stop(); n->stopped = true; Ev e("stopped"); e.i("net", n->id).b("u", false); emit(e); }
        else if (c == "stopw") { { Ev e("stopc"); e.i("net", n->id); emit(e); } n->mn->stop(); n->stopped = true; Ev e("stopped"); e.i("net", n->id).b("u", false); emit(e); }
        else if (c == "ustopk") { // the same, but the loop goes on
            n->utc->async_call([n](ThreadCall::Handle &) { { Ev e("stopc"); e.i("net", n->id); emit(e); } n->mn->ConnPool::stop(); n->stopped = true; Ev e("stopped"); e.i("net", n->id).b("u", true); emit(e); }); }
        else if (c == "ustop") { // stop from the user loop, as the documented samples do
            bool *done = new bool(false); n->utc->async_call([n, done](ThreadCall::Handle &) { { Ev e("stopc"); e.i("net", n->id); emit(e); } n->mn->ConnPool::stop(); n->stopped = true; Ev e("stopped"); e.i("net", n->id).b("u", true); emit(e); n->ec.stop(); *done = true; }); n->uth.join(); Ev e("loopend"); e.i("net", n->id); emit(e); }
        else if (c == "del") { n->live.clear(); n->dead.clear(); n->order.clear(); n->ext.clear(); n->stopped = true; { Ev e("delc"); e.i("net", n->id); emit(e); } n->utc.reset(); delete n->mn; n->mn = nullptr; Ev e("deleted"); e.i("net", n->id); emit(e); nets.erase(n->id); delete n; }
        else { fprintf(stderr, "unknown command %s\n", c.c_str()); _exit(79); }
        if (c == "end") break;
    }
}
static void quiet() {
    // long enough for every zero-delay retry and poll timer
    // and, where bounded queues let little through per retry, for as long as anything still moves
    run_ms(30);
    for (int k = 0; k < 100; k++) { auto p = progress; run_ms(30); if (p == progress) break; }
    Ev e("quiet"); e.i("socks", vsim::open_socks()).i("conns", live_conns).i("fds", vsim::open_fds()).i("badclose", vsim::fdstat.badclose).i("handles", vsim::live_handles()); emit(e);
}
static void run_scenario(const std::vector<string> &lines) {
    vsim::on_fatal = fatal_hook; vsim::on_wire = on_wire;
    vsim::Cfg c; std::vector<string> cur;
    bool started = false;
    auto go = [&]() { if (!started) { vsim::start(c); started = true; srand((unsigned)c.seed); } if (!cur.empty()) exec(cur); cur.clear(); };
    for (auto &l: lines) {
        auto t = toks(l); if (t.empty()) continue;
        if (t[0] == "sim") { auto k = kvs(t); c.seed = strtoull(k["seed"].c_str(), 0, 10); c.policy = (int)I(k, "policy", 0); c.p_sys = D(k, "psys", 0.3); c.p_lock = D(k, "plock", 0.05); c.p_atomic = D(k, "patomic", 0.01); c.p_cb = D(k, "pcb", 0.3);
            c.p_creep = D(k, "pcreep", 0); c.p_cas_fail = D(k, "pcas", 0); c.snd_cap = I(k, "cap", 1 << 20); c.seg_max = I(k, "seg", 65536); c.recv_max = I(k, "recvmax", 1 << 20); c.max_steps = I(k, "maxsteps", 4000000); continue; }
        if (t[0] == "quiet") { go(); quiet(); continue; }
        cur.push_back(l); go();
    }
    go();
    flush_run(); Ev e("done"); e.i("steps", vsim::steps()); emit(e);
}

// ------------------------------------------------------------------ process driver
// usage: driver CERTDIR SCENARIOS OUT [from to]; scenarios are separated by lines "=== name"
int main(int argc, char **argv) {
    if (argc < 4) return 2;
    certdir = argv[1]; long shard = argc > 4 ? atol(argv[4]) : 0, nsh = argc > 5 ? atol(argv[5]) : 1;
    FILE *f = fopen(argv[2], "r"); if (!f) return 2;
    FILE *o = fopen(argv[3], "w"); if (!o) return 2;
    std::vector<std::pair<string, std::vector<string>>> scs; char *lp = nullptr; size_t cap = 0; ssize_t r;
    while ((r = getline(&lp, &cap, f)) > 0) { string s(lp, r); while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); if (s.compare(0, 4, "=== ") == 0) scs.push_back({s.substr(4), {}}); else if (!scs.empty()) scs.back().second.push_back(s); }
    fclose(f); signal(SIGPIPE, SIG_DFL);
    // warm up OpenSSL so that every child does not pay for it
    OPENSSL_init_ssl(0, nullptr); { SSL_CTX *x = SSL_CTX_new(TLS_method()); SSL_CTX_free(x); ERR_clear_error(); }
    int nlong = 0;
    for (size_t i = 0; i < scs.size(); i++) {
        if ((long)(i % nsh) != shard) continue;
        if (nlong >= 2) { fprintf(o, "=== %s\n", scs[i].first.c_str()); continue; }     // enough: skip the rest
        int p[2]; if (syscall(SYS_pipe2, p, 0)) return 2;
        pid_t pid = fork(); if (pid < 0) return 2;
        if (!pid) {
            close(p[0]); trace_fd = p[1];
            const char *dbg = getenv("VSIM_STDERR"); int e = open(dbg ? dbg : "/dev/null", O_WRONLY | O_CREAT | O_APPEND, 0644); dup2(e, 2);
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            run_scenario(scs[i].second); _exit(0);
        }
        close(p[1]); string out; char buf[65536]; bool to = false; struct pollfd pf = {p[0], POLLIN, 0}; long budget = getenv("VSIM_TIMEOUT") ? atol(getenv("VSIM_TIMEOUT")) : 60;
        time_t t0 = time(nullptr);
        for (;;) { int k = ::poll(&pf, 1, 1000); if (time(nullptr) - t0 > budget) { to = true; kill(pid, SIGKILL); break; } if (k <= 0) continue; ssize_t q = read(p[0], buf, sizeof buf); if (q <= 0) break; out.append(buf, q); if (out.size() > (64u << 20)) { to = true; kill(pid, SIGKILL); break; } }
        close(p[0]); int st; waitpid(pid, &st, 0);
        if (!out.empty() && out.back() != '\n') { auto q = out.rfind('\n'); out.resize(q == string::npos ? 0 : q + 1); }
        if (to) out += "{\"ev\":\"hang\"}\n";
        if (to || out.find("\"livelock\"") != string::npos) nlong++;
        else if (WIFSIGNALED(st)) out += "{\"ev\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}\n";
        else if (WEXITSTATUS(st) == 79) { fprintf(stderr, "bad scenario %s\n", scs[i].first.c_str()); return 2; }
        else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 77) out += "{\"ev\":\"crash\",\"sig\":" + std::to_string(1000 + WEXITSTATUS(st)) + "}\n";
        fprintf(o, "=== %s\n%s", scs[i].first.c_str(), out.c_str()); fflush(o);
    }
    fclose(o); return 0;
}
