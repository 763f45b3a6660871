// Smart pointers: strong, weak and unique handles, from one thread (Rc) or many (Arc).
#include "common.h"
#include <set>
#include <new>
#include <thread>
static std::set<void *> *tracked = nullptr; static __thread int in_lib = 0;
static void *track(void *p) { if (in_lib && tracked) { int k = in_lib; in_lib = 0; tracked->insert(p); in_lib = k; } return p; }
static void untrack(void *p) { if (tracked) { int k = in_lib; in_lib = 0; tracked->erase(p); in_lib = k; } }
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); return track(p); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) untrack(p); free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
struct Out { int k; Out(): k(in_lib) { in_lib = 0; } ~Out() { in_lib = k; } };
#include "salticidae/ref.h"
using namespace salticidae;
struct Base { long id; Base(long id): id(id) {} virtual ~Base() { Out o; Ev e("dead"); e.i("o", id); emit(e); id = -77; } };
struct Derived: Base { long v; Derived(long id): Base(id), v(id * 3) {} ~Derived() { v = -1; } };
template<template<class...> class S, template<class...> class W> struct Slots {
    S<Base> s[4]; W<Base> w[4];
};
template<class T> using Arc = ArcObj<T>; template<class T> using Rc = RcObj<T>;
static long nobj = 0; static std::map<long, Base *> ptr;
template<template<class...> class S, template<class...> class W> struct World {
    std::map<int, Slots<S, W> *> th;
    Slots<S, W> &of(int t) { auto &p = th[t]; if (!p) p = new Slots<S, W>(); return *p; }
    // performs one operation; o: object concerned, ok: result
    void op(int t, char k, int i, int j) {
        auto &z = of(t); long o = 0, ok = 1, cnt = -1;
        if (k == 'n' || k == 'b') { o = ++nobj; }
        { Ev e("op"); e.i("t", t).t("k", string(1, k)).i("i", i).i("j", j).i("o", o); emit(e); }
        in_lib = 1;
        switch (k) {
        case 'n': z.s[j] = S<Base>(new Derived(o)); break;
        case 'b': { BoxObj<Base> b(new Derived(o)); BoxObj<Base> c(std::move(b)); BoxObj<Derived> d = static_pointer_cast<Derived>(std::move(c)); BoxObj<Base> e; e = BoxObj<Base>(std::move(d)); if (b || c || d) ok = 0; z.s[j] = S<Base>(std::move(e)); if (e) ok = 0; break; }
        case 'c': z.s[j] = z.s[i]; break;
        case 'm': z.s[j] = std::move(z.s[i]); if (i != j) z.s[i] = S<Base>(); break;
        case 'C': { S<Derived> d = static_pointer_cast<Derived>(z.s[i]); S<Base> b(d); z.s[j] = b; break; }
        case 'M': { S<Derived> d = static_pointer_cast<Derived>(std::move(z.s[i])); if (i != j) z.s[i] = S<Base>(); z.s[j] = S<Base>(std::move(d)); break; }
        case 's': z.s[i].swap(z.s[j]); break;
        case 'x': z.s[i] = S<Base>(); break;
        case 'w': z.w[j] = W<Base>(z.s[i]); break;
        case 'W': z.w[j] = z.w[i]; break;
        case 'V': z.w[j] = std::move(z.w[i]); if (i != j) z.w[i] = W<Base>(); break;
        case 'y': z.w[i] = W<Base>(); break;
        case 'u': { S<Base> b(z.w[i]); ok = b ? 1 : 0; if (b) o = b->id; z.s[j] = std::move(b); break; }
        case 'r': o = z.s[i] ? z.s[i]->id : 0; if (o && (static_cast<Derived *>(z.s[i].get())->v != 3 * o || &*z.s[i] != z.s[i].get())) ok = 0; break;
        case 'g': cnt = (long)z.s[i].get_cnt(); break;
        default: _exit(79);
        }
        in_lib = 0;
        { Ev e("opd"); e.i("t", t).t("k", string(1, k)).i("i", i).i("j", j).i("o", o).i("ok", ok).i("cnt", cnt); emit(e); }
    }
    void give(int a, char k, int i, int b, int j) {    // thread a's handle i is copied to thread b's slot j
        in_lib = 1; if (k == 's') of(b).s[j] = of(a).s[i]; else of(b).w[j] = of(a).w[i]; in_lib = 0;
        Ev e("give"); e.i("a", a).t("k", string(1, k)).i("i", i).i("b", b).i("j", j); emit(e);
    }
    void prog(int t, const std::vector<string> &ops) { for (auto &o: ops) op(t, o[0], o[1] - '0', o[2] - '0'); }
    void run(const std::vector<string> &lines) {
        std::vector<std::pair<int, std::vector<string>>> progs;
        for (auto &l: lines) {
            auto t = toks(l); if (t.empty()) continue;
            if (t[0] == "sim" || t[0] == "kind") continue;
            if (t[0] == "t") { progs.push_back({atoi(t[1].c_str()), std::vector<string>(t.begin() + 2, t.end())}); of(progs.back().first); }
            else if (t[0] == "do") prog(atoi(t[1].c_str()), std::vector<string>(t.begin() + 2, t.end()));
            else if (t[0] == "give") { int a = atoi(t[1].c_str()), b = atoi(t[3].c_str()); of(a); of(b); give(a, t[2][0], t[2][1] - '0', b, t[4][0] - '0'); }
            else if (t[0] == "go") { std::vector<std::thread *> x; for (auto &p: progs) x.push_back(new std::thread([this, p]() { prog(p.first, p.second); })); for (auto y: x) { y->join(); delete y; } progs.clear(); }
            else if (t[0] == "end") { for (auto &p: th) for (int i = 0; i < 4; i++) { op(p.first, 'x', i, 0); op(p.first, 'y', i, 0); } for (auto &p: th) delete p.second; Ev e("end"); e.i("leaked", (long long)tracked->size()); emit(e); }
            else _exit(79);
        }
    }
};
static void run_scenario(const std::vector<string> &lines) {
    vsim::on_fatal = fatal_hook; tracked = new std::set<void *>(); bool arc = true;
    for (auto &l: lines) { auto t = toks(l); if (t.size() && t[0] == "sim") vsim::start(parse_sim(t)); if (t.size() && t[0] == "kind") arc = t[1] == "arc"; }
    if (arc) (new World<ArcObj, AweakObj>())->run(lines); else (new World<RcObj, WeakObj>())->run(lines);
    Ev e("done"); emit(e);
}
int main(int argc, char **argv) { return process_driver(argc, argv); }
