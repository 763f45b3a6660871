// Byte streams, fixed-size blobs, bit sets, message frames, segmented buffers: every operation is reported with its
// arguments and results.
#include "common.h"
#include <new>
#include <list>
#include <sstream>
#include <iomanip>
static size_t max_alloc = 0;
void *operator new(size_t n) { if (n > max_alloc) max_alloc = n; if (n > (1u << 30)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#include "salticidae/stream.h"
#include "salticidae/msg.h"
#include "salticidae/netaddr.h"
#include "salticidae/event.h"
#include "salticidae/buffer.h"
#include <openssl/evp.h>
using namespace salticidae;
using bytes = std::vector<uint8_t>;
static Ev &B(Ev &e, const char *k, const bytes &d) { std::vector<long long> v(d.begin(), d.end()); return e.l(k, v); }
static Ev &Str(Ev &e, const char *k, const string &d) { return B(e, k, bytes(d.begin(), d.end())); }
static bytes unhex(const string &h) { bytes r; if (h == "-") return r; for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((uint8_t)strtol(h.substr(i, 2).c_str(), 0, 16)); return r; }
static bytes digest(const EVP_MD *m, const bytes &d) { bytes r(EVP_MAX_MD_SIZE); unsigned n = 0; static uint8_t z; EVP_Digest(d.empty() ? &z : d.data(), d.size(), r.data(), &n, m, nullptr); r.resize(n); return r; }
static DataStream S[4]; static uint256_t Bl[4]; static BoxObj<Bits> Bt[4]; static SegBuffer G[4]; static bool capi;
template<class T> static bytes le(T x) { bytes r; for (size_t i = 0; i < sizeof(T); i++) r.push_back((uint8_t)((unsigned long long)x >> (8 * i))); return r; }
template<class T> static T from(const bytes &d) { unsigned long long x = 0; for (size_t i = 0; i < sizeof(T) && i < d.size(); i++) x |= (unsigned long long)d[i] << (8 * i); return (T)x; }
template<class T> static bool rd(DataStream &s, bytes &out) { T v = 0; try { s >> v; } catch (std::ios_base::failure &) { return false; } out = le(v); return true; }
static bytes rest(DataStream &s) { size_t n = s.size(); return n && n < (1u << 24) ? bytes(s.data(), s.data() + n) : bytes(); }
static void run_scenario(const std::vector<string> &lines) {
    for (auto &l: lines) {
        auto t = toks(l); if (t.empty()) continue; string k = t[0];
        if (k == "sim") continue; if (k == "capi") { capi = true; continue; }
        int s = t.size() > 1 ? atoi(t[1].c_str()) : 0; string a = t.size() > 2 ? t[2] : "-", b = t.size() > 3 ? t[3] : "-"; int j = atoi(a.c_str());
        Ev e("op"); e.t("k", k).i("s", s); bool ok = true; max_alloc = 0;
        if (k == "new") { bytes d = unhex(a); B(e, "d", d); if (capi) { datastream_t *x = datastream_new_from_bytes(d.data(), d.size()); S[s] = *x; datastream_free(x); } else if (d.size() % 3 == 0) S[s] = DataStream(d); else if (d.size() % 3 == 1) S[s] = DataStream(bytes(d)); else S[s] = DataStream(string(d.begin(), d.end())); }
        else if (k == "put") { // put s type bytes
            bytes d = unhex(b); bool r = true; string ty = a; auto &x = S[s];
            if (ty == "u8") { if (capi) r = datastream_put_u8(&x, from<uint8_t>(d)); else x << from<uint8_t>(d); } else if (ty == "u16") { if (capi) r = datastream_put_u16(&x, from<uint16_t>(d)); else x << from<uint16_t>(d); }
            else if (ty == "u32") { if (capi) r = datastream_put_u32(&x, from<uint32_t>(d)); else x << from<uint32_t>(d); } else if (ty == "u64") { if (capi) r = datastream_put_u64(&x, from<uint64_t>(d)); else x << from<uint64_t>(d); }
            else if (ty == "i8") { if (capi) r = datastream_put_i8(&x, from<int8_t>(d)); else x << from<int8_t>(d); } else if (ty == "i16") { if (capi) r = datastream_put_i16(&x, from<int16_t>(d)); else x << from<int16_t>(d); }
            else if (ty == "i32") { if (capi) r = datastream_put_i32(&x, from<int32_t>(d)); else x << from<int32_t>(d); } else if (ty == "i64") { if (capi) r = datastream_put_i64(&x, from<int64_t>(d)); else x << from<int64_t>(d); }
            else if (ty == "data") { if (capi) r = datastream_put_data(&x, d.data(), d.size()); else x.put_data(d.data(), d.data() + d.size()); } else if (ty == "arr") x << d; else if (ty == "str") x << string(d.begin(), d.end()); else if (ty == "cstr") { string z(d.begin(), d.end()); x << z.c_str(); d = bytes(d.begin(), d.begin() + strlen(z.c_str())); }
            else _exit(79);
            B(e, "d", d).b("ok", r);
        } else if (k == "get") { // get s type
            bytes d; auto &x = S[s]; string ty = a; int w = 0;
#define GET(T, NAME) if (ty == NAME) { w = sizeof(T); if (capi) { bool sc = true; 
#define TEG(T, F) T v = F(&x, &sc); ok = sc; if (sc) d = le(v); } else ok = rd<T>(x, d); }
            GET(uint8_t, "u8") TEG(uint8_t, datastream_get_u8) GET(uint16_t, "u16") TEG(uint16_t, datastream_get_u16) GET(uint32_t, "u32") TEG(uint32_t, datastream_get_u32) GET(uint64_t, "u64") TEG(uint64_t, datastream_get_u64)
            GET(int8_t, "i8") TEG(int8_t, datastream_get_i8) GET(int16_t, "i16") TEG(int16_t, datastream_get_i16) GET(int32_t, "i32") TEG(int32_t, datastream_get_i32) GET(int64_t, "i64") TEG(int64_t, datastream_get_i64)
            B(e, "d", d).i("w", w).b("ok", ok);
        } else if (k == "getd") { long long n = atoll(a.c_str()); size_t len = n < 0 ? (size_t)n : (size_t)n; bytes d; const uint8_t *p = nullptr; try { p = capi ? datastream_get_data_inplace(&S[s], len) : S[s].get_data_inplace(len); ok = !capi || p || !len; } catch (std::ios_base::failure &) { ok = false; } if (ok && n >= 0 && n < 100000 && p) d = bytes(p, p + n); B(e, "d", d).i("n", n).b("ok", ok); }
        else if (k == "size") { size_t n = capi ? datastream_size(&S[s]) : S[s].size(); e.i("n", n > 1000000000 ? -1 : (long long)n); }
        else if (k == "peek") B(e, "d", rest(S[s]));
        else if (k == "hex") { string h; if (capi) { char *p = datastream_get_hex(&S[s]); h = p; free(p); } else h = S[s].get_hex(); Str(e, "h", h); }
        else if (k == "clear") { if (capi) datastream_clear(&S[s]); else S[s].clear(); }
        else if (k == "copy") { e.i("t", j); if (capi) { auto p = datastream_copy(&S[s]); S[j] = std::move(*p); datastream_free(p); } else if (s % 2) S[j] = S[s]; else { DataStream c(S[s]); S[j] = c; } }
        else if (k == "move") { e.i("t", j); S[j] = std::move(S[s]); if (s != j) S[s] = DataStream(); }
        else if (k == "swap") { e.i("t", j); S[s].swap(S[j]); }
        else if (k == "tob") { bytes d; if (capi) { auto p = bytearray_new_copied_from_datastream(&S[s]); d = *p; bytearray_free(p); } else d = (bytearray_t)S[s]; B(e, "d", d); }
        else if (k == "tobm") { bytes d; if (capi) { auto p = bytearray_new_moved_from_datastream(&S[s]); d = *p; bytearray_free(p); } else d = bytearray_t(std::move(S[s])); S[s] = DataStream(); B(e, "d", d); }
        else if (k == "tos") Str(e, "d", (string)S[s]);
        else if (k == "loadhex") { bytes h = unhex(a); string str(h.begin(), h.end()); try { if (capi) { auto p = bytearray_new_from_hex(str.c_str()); ok = p != nullptr; if (p) { S[s] = DataStream(*p); bytearray_free(p); } } else S[s].load_hex(str); } catch (std::invalid_argument &) { ok = false; } if (!ok) S[s] = DataStream(); Str(e, "h", str).b("ok", ok); }
        else if (k == "hash") { bytes want = digest(EVP_sha256(), rest(S[s])); uint256_t h; if (capi) { auto p = datastream_get_hash(&S[s]); h = *p; uint256_free(p); } else h = S[s].get_hash(); B(e, "d", (bytearray_t)h); B(e, "want", want); }
        // blobs
        else if (k == "bnull") Bl[s] = uint256_t();
        else if (k == "bset") { bytes d = unhex(a); B(e, "d", d); try { if (capi) { auto p = uint256_new_from_bytearray(&d); ok = p; if (p) { Bl[s] = *p; uint256_free(p); } } else Bl[s] = uint256_t(d); } catch (std::invalid_argument &) { ok = false; } e.b("ok", ok); }
        else if (k == "bser") { e.i("t", j); if (capi) uint256_serialize(&Bl[s], &S[j]); else S[j] << Bl[s]; }
        else if (k == "bget") { e.i("t", j); try { S[j] >> Bl[s]; } catch (std::ios_base::failure &) { ok = false; } e.b("ok", ok); if (!ok) { S[j] = DataStream(); Bl[s] = uint256_t(); } }
        else if (k == "bbytes") B(e, "d", Bl[s].to_bytes());
        else if (k == "bhex") Str(e, "h", Bl[s].to_hex());
        else if (k == "bfromhex") { bytes h = unhex(a); string str(h.begin(), h.end()); try { Bl[s].from_hex(str); } catch (std::invalid_argument &) { ok = false; } catch (std::ios_base::failure &) { ok = false; } Str(e, "h", str).b("ok", ok); if (!ok) Bl[s] = uint256_t(); }
        else if (k == "bcmp") { e.i("t", j).b("eq", capi ? uint256_is_eq(&Bl[s], &Bl[j]) : Bl[s] == Bl[j]).b("ne", Bl[s] != Bl[j]).b("lt", Bl[s] < Bl[j]).b("gt", Bl[j] < Bl[s]).b("nul", Bl[s].is_null()); }
        // bit sets
        else if (k == "inew") { bytes d = unhex(a); B(e, "d", d); Bt[s] = new Bits(d); }
        else if (k == "isz") { e.i("n", j); Bt[s] = new Bits((uint32_t)j); Bt[s]->clear(); }
        else if (k == "inull") { Bt[s] = new Bits(); }
        else if (k[0] == 'i' && !Bt[s]) continue;
        else if (k == "iset" || k == "iunset" || k == "iflip" || k == "iget") { if (!Bt[s]->size()) continue; uint32_t p = (uint32_t)j % Bt[s]->size(); e.i("p", p); if (k == "iset") Bt[s]->set(p); else if (k == "iunset") Bt[s]->unset(p); else if (k == "iflip") Bt[s]->flip(p); else e.i("v", p % 2 ? Bt[s]->get(p) : (*Bt[s])[p]); }
        else if (k == "isize") e.i("n", Bt[s]->size());
        else if (k == "iclear") Bt[s]->clear();
        else if (k == "icopy") { e.i("t", j); Bt[j] = new Bits(*Bt[s]); }
        else if (k == "iser") { e.i("t", j); S[j] << *Bt[s]; }
        else if (k == "iunser") { e.i("t", j); Bits *x = new Bits(); max_alloc = 0; try { S[j] >> *x; } catch (std::ios_base::failure &) { ok = false; } catch (std::bad_alloc &) { ok = false; } e.b("ok", ok).i("mx", max_alloc > 1000000000 ? 1000000000 : max_alloc); if (ok) Bt[s] = x; else { delete x; S[j] = DataStream(); Bt[s] = new Bits((uint32_t)0); } }
        // lists of blobs
        else if (k == "hlput") { e.i("t", j); std::vector<uint256_t> v; std::vector<long long> ids; for (size_t i = 3; i < t.size(); i++) { v.push_back(Bl[atoi(t[i].c_str())]); ids.push_back(atoi(t[i].c_str())); } MsgBase<uint8_t> m; m.gen_hash_list(S[s], v); e.l("bs", ids); }
        else if (k == "hlget") { std::vector<uint256_t> v; MsgBase<uint8_t> m; try { m.parse_hash_list(S[s], v); } catch (std::ios_base::failure &) { ok = false; } catch (std::bad_alloc &) { ok = false; } catch (std::length_error &) { ok = false; } bytes d; if (ok) for (auto &x: v) { auto y = x.to_bytes(); d.insert(d.end(), y.begin(), y.end()); } e.b("ok", ok).i("n", ok ? v.size() : 0).i("mx", max_alloc > 1000000000 ? 1000000000 : max_alloc); B(e, "d", d); if (!ok) S[s] = DataStream(); }
        // message frames: msg opcode magic payload ; frame bytes
        else if (k == "msg") { uint8_t op = (uint8_t)s; bytes mg = unhex(a), d = unhex(b); bytes sum = digest(EVP_sha1(), d); sum.resize(4); bytes moved = d; MsgBase<uint8_t> m(op, std::move(moved)); m.set_magic(from<uint32_t>(mg)); MsgBase<uint8_t> m2(m), m3; m3 = std::move(m2); bytes out = m3.serialize(); { MsgBase<uint8_t> c1(m), c2; c2 = c1; bool cpy = false; try { MsgBase<uint8_t> c3(std::move(c1)); cpy = bytes(bytearray_t(c3.get_payload())) == d && bytes(bytearray_t(c2.get_payload())) == d && m.get_length() == d.size(); } catch (std::runtime_error &) {} e.b("cpy", cpy); }
            B(e, "magic", mg); B(e, "d", d); B(e, "sum", sum); B(e, "out", out);
            MsgBase<uint8_t> h(DataStream(bytes(out.begin(), out.begin() + MsgBase<uint8_t>::header_size))); bytes pl(out.begin() + MsgBase<uint8_t>::header_size, out.end()); bool early = false; try { h.get_payload(); early = true; } catch (std::runtime_error &) {}
            h.set_payload(bytes(pl)); bool v1 = h.verify_checksum(), v2 = false; if (pl.size()) { bytes q = pl; q[q.size() / 2] ^= 1 << (op % 8); MsgBase<uint8_t> g(DataStream(bytes(out.begin(), out.begin() + MsgBase<uint8_t>::header_size))); g.set_payload(bytes(q)); v2 = g.verify_checksum(); }
            bytes got = bytearray_t(h.get_payload()); bool again = false; try { h.get_payload(); again = true; } catch (std::runtime_error &) {}
            e.i("pop", h.get_opcode()).i("plen", h.get_length()).b("v1", v1).b("v2", v2).b("early", early).b("again", again); B(e, "pmagic", le(h.get_magic())); B(e, "got", got); }
        else if (k == "sha") { // sha 1|256 mode chunks...
            bytes all, d; int md = atoi(a.c_str());
            auto go = [&](auto &h) { if (md & 1) { h.update(bytes{1, 2, 3}); h.reset(); } for (size_t i = 3; i < t.size(); i++) { bytes c = unhex(t[i]); all.insert(all.end(), c.begin(), c.end()); static const uint8_t z = 0; if (c.empty()) h.update(&z, 0); else if (md & 2) h.update(c); else h.update(c.begin(), c.size()); } if (md & 4) { d = bytes(7, 9); h.digest(d); } else d = h.digest(); };
            if (s == 1) { class SHA1 h; go(h); } else { class SHA256 h; go(h); } B(e, "d", d); B(e, "want", digest(s == 1 ? EVP_sha1() : EVP_sha256(), all)); }
        // segmented buffers
        else if (k == "gpush") { bytes d = unhex(a); B(e, "d", d); G[s].push(std::move(d)); }
        else if (k == "grew") { bytes d = unhex(a); B(e, "d", d); G[s].rewind(std::move(d)); }
        else if (k == "gpop") { e.i("n", j); B(e, "d", G[s].pop(j)); }
        else if (k == "gmpop") { if (G[s].empty()) continue; B(e, "d", G[s].move_pop()); }
        else if (k == "gsize") { size_t n = G[s].size(); e.i("n", n > 1000000000 ? -1 : (long long)n).b("empty", G[s].empty()).i("len", G[s].len()); }
        else if (k == "gcopy") { e.i("t", j); if (s % 2) G[j] = G[s]; else { SegBuffer c(G[s]); G[j] = c; } }
        else if (k == "gmove") { e.i("t", j); if (s != j) { G[j] = std::move(G[s]); e.i("left", G[s].size()); G[s] = SegBuffer(); } else e.i("left", 0); }
        else if (k == "gswap") { e.i("t", j); G[s].swap(G[j]); }
        else if (k == "gclear") G[s].clear();
        // addresses on the wire
        else if (k == "naser") { bytes d = unhex(a); NetAddr x(from<uint32_t>(bytes(d.begin(), d.begin() + 4)), from<uint16_t>(bytes(d.begin() + 4, d.end()))); S[s] << x; B(e, "d", d); }
        else if (k == "naget") { NetAddr x; try { S[s] >> x; } catch (std::ios_base::failure &) { ok = false; } e.b("ok", ok); bytes d = le(x.ip), p = le(x.port); d.insert(d.end(), p.begin(), p.end()); B(e, "d", d); if (!ok) S[s] = DataStream(); }
        else _exit(79);
        emit(e);
    }
    Ev e("done"); emit(e);
}
int main(int argc, char **argv) { return process_driver(argc, argv); }
