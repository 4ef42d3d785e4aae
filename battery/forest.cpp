// Bounded-exhaustive comparison of stlab::forest with an edge-sequence model (replay harness; bounded, not a proof).
// usage: forest c01|c02|c03|c04   Environment: VERIF_TIER
#include <stlab/forest.hpp>
#include <stlab/forest_algorithms.hpp>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <optional>
#include <random>
#include <set>
#include <string>
#include <vector>
using namespace std;
static long live = 0;
struct T {
    int v; long* self;
    explicit T(int x = 0) : v(x), self(new long(x)) { ++live; }
    T(const T& o) : v(o.v), self(new long(*o.self)) { ++live; }
    T(T&& o) noexcept : v(o.v), self(new long(*o.self)) { o.v = -77; ++live; }
    T& operator=(const T& o) { v = o.v; *self = *o.self; return *this; }
    T& operator=(T&& o) noexcept { v = o.v; *self = *o.self; if (&o != this) o.v = -77; return *this; }
    ~T() { delete self; self = nullptr; --live; }
    bool operator==(const T& o) const { return v == o.v; }
    bool operator!=(const T& o) const { return v != o.v; }
};
using F = stlab::forest<T>;
using It = F::iterator;
using CIt = F::const_iterator;
using Ch = F::child_iterator;
struct E { int id; bool lead; bool operator==(const E& o) const { return id == o.id && lead == o.lead; } };
using S = vector<E>;   // without the root edges; id = node identity
static long cases = 0;
static string cur;
static string str(const S& s) { string r; for (auto& e : s) { r += e.lead ? "(" + to_string(e.id) : ")"; } return r; }
[[noreturn]] static void fail(const string& m) { printf("FAIL %s: %s\n", cur.c_str(), m.c_str()); fflush(stdout); _Exit(1); }
#define CHECK(c, m) do { if (!(c)) fail(m); } while (0)

// all shapes with n nodes as edge sequences, ids in preorder from base
static void shapes(int n, int base, vector<S>& out) {
    function<void(S, int, vector<int>)> go = [&](S s, int used, vector<int> st) {
        if ((int)s.size() == 2 * n) { out.push_back(s); return; }
        if (used < n) { S t = s; t.push_back({base + used, true}); auto st2 = st; st2.push_back(base + used); go(t, used + 1, st2); }
        if (!st.empty()) { S t = s; t.push_back({st.back(), false}); auto st2 = st; st2.pop_back(); go(t, used, st2); }
    };
    go({}, 0, {});
}
static vector<S> upto(int n, int base) { vector<S> r; for (int i = 0; i <= n; ++i) shapes(i, base, r); return r; }

struct W {   // real forest + identity ledger
    F f; map<int, T*> addr;
    void build(const S& s) {
        It p = f.end();
        for (auto& e : s) {
            if (e.lead) { It n = f.insert(p, T(e.id)); addr[e.id] = &*n; p = n; p.edge() = stlab::forest_edge::trailing; }
            else ++p;
        }
    }
    // iterators by position: 0 = root leading, 1..2n edges, 2n+1 end
    vector<It> its() { vector<It> r; r.push_back(f.root()); It i = f.begin(); for (;;) { r.push_back(i); if (i == f.end()) break; ++i; CHECK(r.size() < 500, "forward traversal does not end"); } return r; }
};
// read forward and backward and compare with the model; identity: addr of each id (id -> T*)
static void verify(F& f, const S& m, const map<int, T*>* addr, const char* what) {
    S a; size_t bound = m.size() + 8;
    for (It i = f.begin(); i != f.end(); ++i) { a.push_back({i->v, i.edge() == stlab::forest_edge::leading}); CHECK(a.size() <= bound, string(what) + ": forward traversal too long, expected " + str(m)); }
    CHECK(a == m, string(what) + ": got " + str(a) + " expected " + str(m));
    S b; It i = f.end();
    while (i != f.begin()) { --i; b.push_back({i->v, i.edge() == stlab::forest_edge::leading}); CHECK(b.size() <= bound, string(what) + ": backward traversal too long"); }
    reverse(b.begin(), b.end()); CHECK(b == m, string(what) + ": backwards " + str(b) + " expected " + str(m));
    It r = f.end(); ++r; CHECK(r == f.root(), string(what) + ": end wraps to root"); --r; CHECK(r == f.end(), string(what) + ": root wraps to end");
    if (addr) { size_t k = 0; for (It j = f.begin(); j != f.end(); ++j, ++k) { auto q = addr->find(m[k].id); if (q != addr->end()) CHECK(&*j == q->second, string(what) + ": node identity changed for " + to_string(m[k].id)); } }
    CHECK(f.empty() == m.empty(), string(what) + ": empty()");
    CHECK(f.size() == m.size() / 2, string(what) + ": size() = " + to_string(f.size()) + " expected " + to_string(m.size() / 2));
    CHECK(f.size() == m.size() / 2, string(what) + ": size() second call");
}
static int posof(const S& m, int id, bool lead) { for (size_t k = 0; k < m.size(); ++k) if (m[k].id == id && m[k].lead == lead) return (int)k + 1; return -1; }
static int match(const S& m, int p) { return posof(m, m[p - 1].id, !m[p - 1].lead); }
static S ins(S m, int p, const S& x) { m.insert(m.begin() + (p - 1), x.begin(), x.end()); return m; }
// position of child end from p (a position on leading edge or closing edge of parent): list of child boundary positions of the sibling list p is in
static vector<int> bounds_from(const S& m, int p) {   // p is a leading edge, or the closing edge of its parent / end
    vector<int> r{p}; int n = (int)m.size();
    while (p <= n && m[p - 1].lead) { p = match(m, p) + 1; r.push_back(p); }
    return r;
}
static string ctx(const char* op, const S& s, int a = -1, int b = -1, int c = -1) { string r = string(op) + " forest " + str(s); if (a >= 0) r += " at " + to_string(a); if (b >= 0) r += " " + to_string(b); if (c >= 0) r += " " + to_string(c); return r; }
static void done(W& w) { ++cases; }
static void leakcheck() { CHECK(live == 0, "element count after destruction: " + to_string(live)); }

static void c01(int N) {
    auto A = upto(N, 1); auto B = upto(min(N, 3), 101);
    for (auto& s : A) for (int valid = 0; valid < 2; ++valid) {
        int n = (int)s.size();
        auto prep = [&](W& w) { w.build(s); if (!valid) { W d; d.build({{900, true}, {901, true}, {901, false}, {900, false}}); w.f.splice(w.f.end(), d.f, Ch(d.f.begin()), Ch(d.f.end())); w.f.erase(--w.f.end()); w.f.erase(--w.f.end()); } };
        for (int p = 1; p <= n + 1; ++p) {
            { cur = ctx("insert", s, p, valid); { W w; prep(w); auto it = w.its(); T t(50); It r = w.f.insert(it[p], t);
                CHECK(r->v == 50 && r.edge() == stlab::forest_edge::leading, "result"); CHECK(t.v == 50, "argument by value"); verify(w.f, ins(s, p, {{50, true}, {50, false}}), &w.addr, "insert"); done(w); } leakcheck(); }
            if (p <= n) { cur = ctx("erase", s, p, valid); { W w; prep(w); auto it = w.its(); It r = w.f.erase(it[p]); S m = s; int id = s[p - 1].id;
                m.erase(remove_if(m.begin(), m.end(), [&](E e) { return e.id == id; }), m.end());
                w.addr.erase(id); verify(w.f, m, &w.addr, "erase"); int q = s[p - 1].lead ? p : p - 1; auto it2 = w.its(); CHECK(r == it2[q], "result is not the following edge"); done(w); } leakcheck(); }
        }
        for (int a = 1; a <= n + 1; ++a) for (int b = a; b <= n + 1; ++b) {
            cur = ctx("erase range", s, a, b, valid); { W w; prep(w); auto it = w.its(); It r = w.f.erase(it[a], it[b]); S m; set<int> dead;
            for (int k = a; k < b; ++k) if (!s[k - 1].lead && posof(s, s[k - 1].id, true) >= a) dead.insert(s[k - 1].id);
            // documented behaviour: nodes whose both edges lie in the range (matched by the stack) are erased
            for (auto& e : s) if (!dead.count(e.id)) m.push_back(e);
            for (int d : dead) w.addr.erase(d);
            verify(w.f, m, &w.addr, "erase range"); CHECK(r == it[b], "result is last"); done(w); } leakcheck(); }
        { cur = ctx("clear", s, valid); { W w; prep(w); w.f.clear(); verify(w.f, {}, nullptr, "clear"); w.f.push_back(T(3)); verify(w.f, {{3, true}, {3, false}}, nullptr, "use after clear"); done(w); } leakcheck(); }
        { cur = ctx("push/pop", s, valid); { W w; prep(w); T t(60); w.f.push_front(t); S m = ins(s, 1, {{60, true}, {60, false}}); verify(w.f, m, &w.addr, "push_front"); w.f.push_back(T(61)); m = ins(m, (int)m.size() + 1, {{61, true}, {61, false}}); verify(w.f, m, &w.addr, "push_back");
            CHECK(w.f.front().v == 60 && w.f.back().v == 61, "front/back"); const F& cf = w.f; CHECK(cf.front().v == 60 && cf.back().v == 61, "front/back const");
            if (n) { w.f.pop_front(); w.f.pop_back(); verify(w.f, s, &w.addr, "pop push"); int id = s[0].id; auto era = [&](S x, int id) { x.erase(remove_if(x.begin(), x.end(), [&](E e) { return e.id == id; }), x.end()); return x; };
                w.f.pop_front(); w.addr.erase(id); m = era(s, id); verify(w.f, m, &w.addr, "pop_front"); if (!m.empty()) { int l = m.back().id; w.f.pop_back(); w.addr.erase(l); m = era(m, l); verify(w.f, m, &w.addr, "pop_back"); } } done(w); } leakcheck(); }
        for (int p = 0; p <= n + 1; ++p) {   // child adaptor on any edge, including the root
            int par = p == 0 || p == n + 1 ? 0 : s[p - 1].id; int lo = par ? posof(s, par, true) + 1 : 1, hi = par ? posof(s, par, false) : n + 1;
            cur = ctx("child_adaptor", s, p, valid); { W w; prep(w); auto it = w.its(); It x = it[p]; stlab::child_adaptor<F> ca(w.f, x);
            ca.push_back(T(70)); S m = ins(s, hi, {{70, true}, {70, false}}); verify(w.f, m, &w.addr, "child push_back"); CHECK(ca.back().v == 70, "child back");
            ca.push_front(T(71)); m = ins(m, lo, {{71, true}, {71, false}}); verify(w.f, m, &w.addr, "child push_front"); CHECK(ca.front().v == 71, "child front");
            ca.pop_back(); ca.pop_front(); verify(w.f, s, &w.addr, "child pops");
            if (hi > lo) { int id = s[lo - 1].id, id2 = s[hi - 2].id; { ca.pop_front(); S m2 = s; m2.erase(remove_if(m2.begin(), m2.end(), [&](E e) { return e.id == id; }), m2.end()); w.addr.erase(id); verify(w.f, m2, &w.addr, "child pop_front"); (void)id2; } } done(w); } leakcheck(); }
        // child ranges
        for (int a = 1; a <= n + 1; ++a) {
            if (a <= n && !s[a - 1].lead) { }
            auto bs = bounds_from(s, a);
            for (int b : bs) {
                S blk(s.begin() + (a - 1), s.begin() + (b - 1));
                { cur = ctx("insert_parent", s, a, b, valid); { W w; prep(w); auto it = w.its(); T t(80); It r = w.f.insert_parent(Ch(it[a]), Ch(it[b]), t); S m = s; m.insert(m.begin() + (b - 1), {80, false}); m.insert(m.begin() + (a - 1), {80, true});
                    CHECK(r->v == 80 && r.edge() == stlab::forest_edge::leading, "result"); verify(w.f, m, &w.addr, "insert_parent"); done(w); } leakcheck(); }
                { cur = ctx("reverse", s, a, b, valid); { W w; prep(w); auto it = w.its(); S m(s.begin(), s.begin() + (a - 1)); auto bb = bounds_from(s, a); for (int k = (int)bb.size() - 2; k >= 0; --k) if (bb[k + 1] <= b) m.insert(m.end(), s.begin() + (bb[k] - 1), s.begin() + (bb[k + 1] - 1)); m.insert(m.end(), s.begin() + (b - 1), s.end());
                    w.f.reverse(Ch(it[a]), Ch(it[b])); verify(w.f, m, &w.addr, "reverse"); done(w); } leakcheck(); }
                // copy insert from another forest, and splice range/count from another forest, into each B
                for (auto& d : B) { int dn = (int)d.size(); if (dn > 4 && n > 6) continue; for (int p = 1; p <= dn + 1; ++p) for (int mode = 0; mode < 3; ++mode) {
                    cur = ctx(mode == 0 ? "insert copy" : mode == 1 ? "splice range" : "splice range count", s, a, b, valid) + " into " + str(d) + " at " + to_string(p);
                    { W w; prep(w); W z; z.build(d); auto it = w.its(); auto zt = z.its(); It r;
                      if (mode == 0) { using CC = F::const_child_iterator; r = z.f.insert(zt[p], CC(CIt(it[a])), CC(CIt(it[b])));
                          S m = ins(d, p, blk); verify(z.f, m, &z.addr, "insert copy"); verify(w.f, s, &w.addr, "source of copy"); 
                          auto z2 = z.its(); CHECK(r == z2[p + (int)blk.size()], "result of insert copy"); }
                      else { if (mode == 1) r = z.f.splice(zt[p], w.f, Ch(it[a]), Ch(it[b])); else r = z.f.splice(zt[p], w.f, Ch(it[a]), Ch(it[b]), blk.size() / 2);
                          S m = ins(d, p, blk); auto ad = z.addr; for (auto& e : blk) ad[e.id] = w.addr[e.id]; verify(z.f, m, &ad, "splice destination"); S src(s.begin(), s.begin() + (a - 1)); src.insert(src.end(), s.begin() + (b - 1), s.end()); verify(w.f, src, &w.addr, "splice source"); CHECK(r == (blk.empty() ? zt[p] : it[a]), "splice result"); }
                      done(w); } leakcheck(); } }
                // within one forest
                for (int q = 1; q <= n + 1; ++q) if (q <= a || q >= b) for (int mode = 1; mode < 3; ++mode) {
                    cur = ctx(mode == 1 ? "splice self" : "splice self count", s, a, b, q); { W w; prep(w); auto it = w.its(); S m(s.begin(), s.begin() + (a - 1)); m.insert(m.end(), s.begin() + (b - 1), s.end()); int q2 = q >= b ? q - (b - a) : q; m = ins(m, q2, blk);
                    It r = mode == 1 ? w.f.splice(it[q], w.f, Ch(it[a]), Ch(it[b])) : w.f.splice(it[q], w.f, Ch(it[a]), Ch(it[b]), blk.size() / 2);
                    verify(w.f, m, &w.addr, "splice self"); CHECK(r == (blk.empty() ? it[q] : it[a]), "splice self result"); done(w); } leakcheck(); }
            }
        }
        for (int a = 1; a <= n; ++a) {   // splice one node (either edge) within and across
            int la = posof(s, s[a - 1].id, true), lb = posof(s, s[a - 1].id, false) + 1; S blk(s.begin() + (la - 1), s.begin() + (lb - 1)); S src(s.begin(), s.begin() + (la - 1)); src.insert(src.end(), s.begin() + (lb - 1), s.end());
            for (int q = 1; q <= n + 1; ++q) if (q <= la || q >= lb) { cur = ctx("splice node self", s, a, q, valid); { W w; prep(w); auto it = w.its(); It r = w.f.splice(it[q], w.f, it[a]); verify(w.f, ins(src, q >= lb ? q - (lb - la) : q, blk), &w.addr, "splice node self"); CHECK(r == it[la], "result"); done(w); } leakcheck(); }
            for (auto& d : B) for (int p = 1; p <= (int)d.size() + 1; ++p) { cur = ctx("splice node", s, a, valid) + " into " + str(d) + " at " + to_string(p); { W w; prep(w); W z; z.build(d); auto it = w.its(); auto zt = z.its(); It r = z.f.splice(zt[p], w.f, it[a]); auto ad = z.addr; for (auto& e : blk) ad[e.id] = w.addr[e.id]; verify(z.f, ins(d, p, blk), &ad, "splice node"); verify(w.f, src, &w.addr, "source"); CHECK(r == it[la], "result"); done(w); } leakcheck(); }
        }
        for (auto& d : B) for (int p = 1; p <= (int)d.size() + 1; ++p) for (int dv = 0; dv < 2; ++dv) { cur = ctx("splice all", s, valid) + " into " + str(d) + " at " + to_string(p); { W w; prep(w); W z; z.build(d);
            if (dv) { z.f.splice(z.f.end(), z.f, Ch(z.f.begin()), Ch(z.f.begin())); }
            auto zt = z.its(); auto it = w.its(); It r = z.f.splice(zt[p], w.f); auto ad = z.addr; for (auto& e : w.addr) ad[e.first] = e.second; verify(z.f, ins(d, p, s), &ad, "splice all"); verify(w.f, {}, nullptr, "source"); CHECK(r == (n ? it[1] : zt[p]), "result"); done(w); } leakcheck(); }
    }
    // random long histories
    mt19937 g(atoi(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1"));
    bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
    for (int h = 0; h < (th ? 20000 : 1500); ++h) { W w, z; S m, k; int id = 1; cur = "history seed " + to_string(h);
        for (int step = 0; step < 40; ++step) { auto it = w.its(); int n = (int)m.size(); int op = g() % 9; cur += " op" + to_string(op);
            if (op <= 2 || n == 0) { int p = 1 + g() % (n + 1); cur += "@" + to_string(p); It r = w.f.insert(it[p], T(id)); w.addr[id] = &*r; m = ins(m, p, {{id, true}, {id, false}}); ++id; }
            else if (op == 3) { int p = 1 + g() % n; int d = m[p - 1].id; w.f.erase(it[p]); w.addr.erase(d); m.erase(remove_if(m.begin(), m.end(), [&](E e) { return e.id == d; }), m.end()); }
            else if (op == 4) { int a = 1 + g() % n; int la = posof(m, m[a - 1].id, true), lb = posof(m, m[a - 1].id, false) + 1; int q = 1 + g() % (n + 1); if (q > la && q < lb) continue; S blk(m.begin() + (la - 1), m.begin() + (lb - 1)); w.f.splice(it[q], w.f, it[a]); m.erase(m.begin() + (la - 1), m.begin() + (lb - 1)); m = ins(m, q >= lb ? q - (lb - la) : q, blk); }
            else if (op == 5) { int a = 1 + g() % (n + 1); auto bs = bounds_from(m, a); int b = bs[g() % bs.size()]; w.f.insert_parent(Ch(it[a]), Ch(it[b]), T(id)); m.insert(m.begin() + (b - 1), {id, false}); m.insert(m.begin() + (a - 1), {id, true}); ++id; }
            else if (op == 6) { int a = 1 + g() % (n + 1); auto bs = bounds_from(m, a); S r(m.begin(), m.begin() + (a - 1)); for (int q = (int)bs.size() - 2; q >= 0; --q) r.insert(r.end(), m.begin() + (bs[q] - 1), m.begin() + (bs[q + 1] - 1)); r.insert(r.end(), m.begin() + (bs.back() - 1), m.end()); w.f.reverse(Ch(it[a]), Ch(it[bs.back()])); m = r; }
            else if (op == 7) { int a = 1 + g() % (n + 1); auto bs = bounds_from(m, a); int b = bs[g() % bs.size()]; S blk(m.begin() + (a - 1), m.begin() + (b - 1)); z.f.splice(z.f.end(), w.f, Ch(it[a]), Ch(it[b])); for (auto& e : blk) if (w.addr.count(e.id)) { z.addr[e.id] = w.addr[e.id]; w.addr.erase(e.id); } k.insert(k.end(), blk.begin(), blk.end()); m.erase(m.begin() + (a - 1), m.begin() + (b - 1)); }
            else { int b = g() % 3; if (b == 0) swap(w.f, z.f); else if (b == 1) w.f.swap(z.f); else { F t(std::move(w.f)); w.f = std::move(z.f); z.f = std::move(t); } swap(m, k); swap(w.addr, z.addr); }
            if (g() % 3 == 0) { verify(w.f, m, &w.addr, "history"); verify(z.f, k, &z.addr, "history (other forest)"); } }
        verify(w.f, m, &w.addr, "history"); verify(z.f, k, &z.addr, "history (other forest)"); ++cases; }
    leakcheck();
}
template <class I> static string at(I i) { return to_string(i->v) + (i.edge() == stlab::forest_edge::leading ? "L" : "T"); }
static void c02(int N) {
    for (auto& s : upto(N, 1)) { int n = (int)s.size(); cur = ctx("traverse", s); W w; w.build(s); auto it = w.its(); const F& cf = w.f; verify(w.f, s, &w.addr, "full order"); int M = n + 2;
        // full order in both directions incl. root, const and non-const, pre and post
        for (int p = 0; p < M; ++p) { It i = it[p]; It j = i++; CHECK(j == it[p] && i == it[(p + 1) % M], "post-increment"); j = i--; CHECK(i == it[p], "post-decrement"); i = it[p]; --i; CHECK(i == it[(p + M - 1) % M], "decrement"); ++i; CHECK(i == it[p], "inverse");
            CIt c(it[p]); ++c; CHECK(c == CIt(it[(p + 1) % M]), "const increment"); --c; --c; CHECK(c == CIt(it[(p + M - 1) % M]), "const decrement"); CIt c2 = c++; CHECK(c2 != c && c == CIt(it[p]), "const post"); c2 = c--; CHECK(c == CIt(it[(p + M - 1) % M]), "const post dec");
            CHECK(stlab::is_leading(it[p]) == (p == 0 || (p <= n && s[p - 1].lead)), "is_leading"); CHECK(stlab::is_trailing(it[p]) != stlab::is_leading(it[p]), "is_trailing");
            int other = p == 0 ? n + 1 : p == n + 1 ? 0 : match(s, p); CHECK(stlab::pivot_of(it[p]) == it[other], "pivot_of"); CHECK(stlab::leading_of(it[p]) == it[min(p, other)] && stlab::trailing_of(it[p]) == it[max(p, other)], "leading_of/trailing_of");
            for (int q = 0; q < M; ++q) { CHECK((it[p] == it[q]) == (p == q) && (it[p] != it[q]) == (p != q), "iterator equality"); CHECK(it[p].equal_node(it[q]) == (q == p || q == other), "equal_node"); CHECK((CIt(it[p]) == CIt(it[q])) == (p == q), "const iterator equality"); }
            CHECK(stlab::has_children(it[p]) == (max(p, other) - min(p, other) > 1), "has_children"); CHECK(stlab::has_children(CIt(it[p])) == (max(p, other) - min(p, other) > 1), "has_children const");
            CHECK(stlab::child_begin(it[p]).base() == it[min(p, other) + 1] && stlab::child_end(it[p]).base() == it[max(p, other)], "child_begin/child_end");
            // children
            vector<int> kids; for (int q = min(p, other) + 1; q < max(p, other); q = match(s, q) + 1) kids.push_back(s[q - 1].id); vector<int> got; auto rg = stlab::child_range(it[p]);
            for (auto k = rg.begin(); k != rg.end(); ++k) { got.push_back((*k).v); CHECK(got.size() < 50, "child range does not end"); } CHECK(got == kids, "child_range");
            got.clear(); { auto k = stlab::child_end(CIt(it[p])); while (k != stlab::child_begin(CIt(it[p]))) { --k; got.push_back(k->v); CHECK(got.size() < 50, "reverse children do not end"); } } reverse(got.begin(), got.end()); CHECK(got == kids, "children backwards");
            got.clear(); { auto k = stlab::child_begin(it[p]); while (k != stlab::child_end(it[p])) { auto o = k++; got.push_back(o->v); } while (k != stlab::child_begin(it[p])) { auto o = k--; (void)o; } } CHECK(got == kids, "children post-increment");
            // parent
            if (p != 0 && p != n + 1) { int d = 0, q = max(p, other) + 1; for (; q <= n; ++q) { if (s[q - 1].lead) ++d; else { if (!d) break; --d; } } CHECK(stlab::find_parent(it[p]) == it[q <= n ? q : n + 1], "find_parent at " + to_string(p)); CHECK(stlab::find_parent(CIt(it[p])) == CIt(it[q <= n ? q : n + 1]), "find_parent const"); }
            // reverse
            if (p >= 0) { using R = F::reverse_iterator; R r(it[p]); int b = (p + M - 1) % M; CHECK(r.base() == it[p], "reverse base"); R z = r; for (int k = 0; k < M + 1; ++k) { int e = ((b - k) % M + M) % M; int eo = e == 0 ? n + 1 : e == n + 1 ? 0 : match(s, e); (void)eo; CHECK(z.base() == it[(e + 1) % M], "reverse ++ base"); bool lead = e == 0 || (e <= n && s[e - 1].lead); CHECK((z.edge() == stlab::forest_edge::leading) == !lead, "reverse edge"); if (e != 0 && e != n + 1) CHECK(&*z == &*it[e], "reverse deref"); ++z; } for (int k = 0; k < M + 1; ++k) { auto o = z--; (void)o; } CHECK(z == r, "reverse inverse"); auto o = z++; CHECK(o == r && !(z == r && M > 1), "reverse post"); }
            // depth: every start position, forwards and back
            { stlab::depth_fullorder_iterator<It> d(it[p], 5); long dep = 5; for (int q = p; q < n + 1; ++q) { CHECK(d.depth() == dep && d.base() == it[q] && d.edge() == it[q].edge(), "depth forward"); bool l0 = q == 0 || (q <= n && s[q - 1].lead), l1 = q + 1 <= n && s[q].lead; if (l0 && l1) ++dep; if (!l0 && !l1) --dep; ++d; } for (int q = n + 1; q > p; --q) { CHECK(d.base() == it[q], "depth base"); --d; } CHECK(d.depth() == 5 && d.base() == it[p], "depth backward"); auto o = d++; CHECK(o.depth() == 5 && o.base() == it[p], "depth post"); d--; CHECK(d.depth() == 5, "depth post"); }
            // edge iterators
            { F::preorder_iterator e(it[p]); int q = p; while (!(q == 0 || (q <= n && s[q - 1].lead))) q = (q + 1) % M; CHECK(e.base() == it[q], "preorder from"); do q = (q + 1) % M; while (!(q == 0 || (q <= n && s[q - 1].lead))); auto e0 = e; ++e; CHECK(e.base() == it[q], "preorder ++"); --e; CHECK(e == e0, "preorder inverse"); e++; e--; CHECK(e == e0, "preorder post"); --e; ++e; CHECK(e == e0, "preorder inverse 2"); }
            { F::postorder_iterator e(it[p]); int q = p; auto tr = [&](int q) { return !(q == 0 || (q <= n && s[q - 1].lead)); }; while (!tr(q)) q = (q + 1) % M; CHECK(e.base() == it[q], "postorder from"); do q = (q + 1) % M; while (!tr(q)); auto e0 = e; ++e; CHECK(e.base() == it[q], "postorder ++"); --e; CHECK(e == e0, "postorder inverse"); --e; ++e; CHECK(e == e0, "postorder inverse 2"); e++; e--; CHECK(e == e0, "postorder post"); }
            ++cases; }
        vector<int> pre, post, g; for (auto& e : s) (e.lead ? pre : post).push_back(e.id);
        for (auto& x : stlab::preorder_range(w.f)) g.push_back(x.v); CHECK(g == pre, "preorder_range"); g.clear(); for (auto& x : stlab::preorder_range(cf)) g.push_back(x.v); CHECK(g == pre, "preorder_range const");
        g.clear(); for (auto& x : stlab::postorder_range(w.f)) { g.push_back(x.v); CHECK(g.size() <= post.size(), "postorder_range too long"); } CHECK(g == post, "postorder_range"); g.clear(); for (auto& x : stlab::postorder_range(cf)) g.push_back(x.v); CHECK(g == post, "postorder_range const");
        { auto r = stlab::preorder_range(w.f); auto b = r.end(); vector<int> q; while (b != r.begin()) { --b; q.push_back(b->v); } reverse(q.begin(), q.end()); CHECK(q == pre, "preorder backwards"); auto r2 = stlab::postorder_range(w.f); auto b2 = r2.end(); q.clear(); while (b2 != r2.begin()) { --b2; q.push_back(b2->v); CHECK(q.size() <= post.size(), "postorder backwards too long"); } reverse(q.begin(), q.end()); CHECK(q == post, "postorder backwards"); }
        { S r; auto rr = stlab::reverse_fullorder_range(w.f); for (auto i = rr.begin(); i != rr.end(); ++i) { r.push_back({i->v, i.edge() != stlab::forest_edge::leading}); CHECK((int)r.size() <= n, "reverse range too long"); } reverse(r.begin(), r.end()); CHECK(r == s, "reverse_fullorder_range"); r.clear(); auto rc = stlab::reverse_fullorder_range(cf); for (auto i = rc.begin(); i != rc.end(); ++i) r.push_back({i->v, i.edge() != stlab::forest_edge::leading}); reverse(r.begin(), r.end()); CHECK(r == s, "reverse_fullorder_range const"); r.clear(); for (auto i = w.f.rbegin(); i != w.f.rend(); ++i) r.push_back({i->v, i.edge() != stlab::forest_edge::leading}); reverse(r.begin(), r.end()); CHECK(r == s, "rbegin/rend"); r.clear(); for (auto i = cf.rbegin(); i != cf.rend(); ++i) r.push_back({i->v, i.edge() != stlab::forest_edge::leading}); reverse(r.begin(), r.end()); CHECK(r == s, "const rbegin/rend"); }
        { S r; long d = 0, md = 0; auto dr = stlab::depth_range(w.f); auto i = dr.begin(); for (; i != dr.end(); ++i) { bool l = i.edge() == stlab::forest_edge::leading; if (!l) --d; CHECK(i.depth() == d, "depth_range depth"); if (l) ++d; r.push_back({i->v, l}); md = max(md, d); } CHECK(r == s, "depth_range"); for (; i != dr.begin();) { --i; bool l = i.edge() == stlab::forest_edge::leading; if (l) --d; CHECK(i.depth() == d, "depth_range backwards"); if (!l) ++d; } CHECK(distance(stlab::depth_range(cf).begin(), stlab::depth_range(cf).end()) == n, "depth_range const"); }
        // filter: every subset of rejected nodes
        int k = n / 2; for (int mask = 0; mask < (1 << k); ++mask) { auto pred = [mask](const T& t) { return !(mask >> (t.v - 1) & 1); }; S e; for (int p = 1; p <= n; ++p) { if (s[p - 1].lead && !pred(T(s[p - 1].id))) { p = match(s, p); continue; } e.push_back(s[p - 1]); }
            cur = ctx("filter", s, mask); auto fr = stlab::filter_fullorder_range(w.f, pred); S r; auto i = fr.begin(); for (; i != fr.end(); ++i) { r.push_back({i->v, i.edge() == stlab::forest_edge::leading}); CHECK((int)r.size() <= n, "filter too long"); } CHECK(r == e, "filter_fullorder_range got " + str(r) + " expected " + str(e));
            r.clear(); while (i != fr.begin()) { --i; r.push_back({i->v, i.edge() == stlab::forest_edge::leading}); CHECK((int)r.size() <= n, "filter backwards too long"); } reverse(r.begin(), r.end()); CHECK(r == e, "filter backwards got " + str(r) + " expected " + str(e));
            r.clear(); auto fc = stlab::filter_fullorder_range(cf, pred); for (auto c = fc.begin(); c != fc.end(); c++) r.push_back({c->v, c.edge() == stlab::forest_edge::leading}); CHECK(r == e, "filter const"); ++cases; }
    }
}
static bool eqmodel(const S& a, const vector<int>& av, const S& b, const vector<int>& bv) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { if (a[i].lead != b[i].lead) return false; if (a[i].lead && av[a[i].id] != bv[b[i].id]) return false; } return true; }
static void c03(int N) {
    auto A = upto(N, 1); auto shp = [](const S& a, const S& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].lead != b[i].lead) return false; return true; };
    auto mk = [](F& f, const S& s, const vector<int>& v) { It p = f.end(); for (auto& e : s) { if (e.lead) { It n = f.insert(p, T(v[e.id])); p = n; p.edge() = stlab::forest_edge::trailing; } else ++p; } };
    auto inval = [](F& f) { if (f.empty()) return; F d; d.push_back(T(1)); f.splice(f.end(), d, Ch(d.begin()), Ch(d.end())); f.erase(--f.end()); };
    for (auto& a : A) for (auto& b : A) for (int iv = 0; iv < 4; ++iv) { vector<int> v(32); for (int i = 0; i < 32; ++i) v[i] = i; cur = ctx("compare", a) + " with " + str(b) + " cache " + to_string(iv); F x, y; mk(x, a, v); mk(y, b, v); if (iv & 1) inval(x); if (iv & 2) inval(y); { F x2, y2; mk(x2, a, v); mk(y2, b, v); if (iv & 1) inval(x2); if (iv & 2) inval(y2); CHECK(stlab::forests::equal_shape(x2, y2) == shp(a, b), "equal_shape"); } CHECK((x == y) == eqmodel(a, v, b, v) && (x != y) == !eqmodel(a, v, b, v), "equality"); ++cases; }
    for (auto& a : A) { int k = (int)a.size() / 2; for (int d = 1; d <= k; ++d) { vector<int> v(32, 7), u(32, 7); u[d] = 9; F x, y; mk(x, a, v); mk(y, a, u); cur = ctx("value difference", a, d); CHECK(!(x == y) && x != y && !(y == x), "equality ignores a value"); CHECK(stlab::forests::equal_shape(x, y), "equal_shape with different values"); } }
    auto B = upto(3, 11);
    for (auto& a : A) for (int iv = 0; iv < 2; ++iv) { { W w; w.build(a); if (iv) inval(w.f); cur = ctx("copy", a, iv); { F c(w.f); verify(c, a, nullptr, "copy"); verify(w.f, a, &w.addr, "source of copy"); CHECK(c == w.f, "copy equal"); if (!a.empty()) { c.begin()->v = 999; c.erase(--c.end()); } verify(w.f, a, &w.addr, "independent source"); } 
        { F c(w.f); w.f.push_back(T(77)); verify(c, a, nullptr, "independent copy"); w.f.pop_back(); } if (iv) inval(w.f);
        cur = ctx("move", a, iv); F m(std::move(w.f)); verify(m, a, &w.addr, "move ctor"); verify(w.f, {}, nullptr, "moved-from"); w.f.push_back(T(5)); verify(w.f, {{5, true}, {5, false}}, nullptr, "moved-from reuse"); ++cases; }
        leakcheck();
        for (auto& b : B) for (int jv = 0; jv < 2; ++jv) { cur = ctx("assign", a, iv, jv) + " over " + str(b); { W x, y; x.build(a); y.build(b); if (iv) inval(x.f); if (jv) inval(y.f); y.f = x.f; verify(y.f, a, nullptr, "copy assign"); verify(x.f, a, &x.addr, "copy assign source"); if (!a.empty()) { y.f.begin()->v = 999; CHECK(x.f.begin()->v == a[0].id, "copy shares"); } } leakcheck();
            { W x, y; x.build(a); y.build(b); if (iv) inval(x.f); if (jv) inval(y.f); y.f = std::move(x.f); verify(y.f, a, &x.addr, "move assign"); verify(x.f, {}, nullptr, "move assign source"); x.f.push_back(T(4)); verify(x.f, {{4, true}, {4, false}}, nullptr, "reuse"); } leakcheck();
            { W x, y; x.build(a); y.build(b); if (iv) inval(x.f); if (jv) inval(y.f); x.f.swap(y.f); verify(y.f, a, &x.addr, "swap"); verify(x.f, b, &y.addr, "swap"); swap(x.f, y.f); verify(x.f, a, &x.addr, "std::swap"); verify(y.f, b, &y.addr, "std::swap"); } leakcheck(); ++cases; } }
}
static void c04(int N) {
    for (auto& s : upto(N, 1)) { cur = ctx("flatten", s); W w; w.build(s); const F& cf = w.f; int n = (int)s.size(); vector<optional<T>> out; stlab::forests::flatten(w.f.begin(), w.f.end(), back_inserter(out)); CHECK((int)out.size() == n, "flatten length"); for (int i = 0; i < n; ++i) { CHECK(out[i].has_value() == s[i].lead, "flatten edge"); if (s[i].lead) CHECK(out[i]->v == s[i].id, "flatten value"); }
        { vector<optional<T>> o2; stlab::forests::flatten(cf.begin(), cf.end(), back_inserter(o2)); CHECK(o2 == out, "flatten const"); }
        { F f; stlab::forests::unflatten(out.begin(), out.end(), f); verify(f, s, nullptr, "unflatten"); CHECK(f == w.f, "round trip"); CHECK(stlab::forests::equal_shape(f, w.f), "round trip shape"); }
        { list<optional<T>> l(out.begin(), out.end()); F f; stlab::forests::unflatten(l.begin(), l.end(), f); CHECK(f == w.f, "unflatten from a list"); }
        // sub-ranges: every child range
        auto it = w.its(); for (int a = 1; a <= n + 1; ++a) for (int b : bounds_from(s, a)) { cur = ctx("flatten range", s, a, b); vector<optional<T>> o; stlab::forests::flatten(it[a], it[b], back_inserter(o)); F f; stlab::forests::unflatten(o.begin(), o.end(), f); verify(f, S(s.begin() + (a - 1), s.begin() + (b - 1)), nullptr, "range round trip"); ++cases; }
        // into a non-empty forest at the front
        { cur = ctx("transcribe", s); stlab::forest<long> g; stlab::forests::transcribe(w.f, stlab::forests::transcriber(g), [](const T& t) { return (long)t.v * 10; }); vector<pair<long, bool>> r; for (auto i = g.begin(); i != g.end(); ++i) r.push_back({*i, stlab::is_leading(i)}); CHECK(r.size() == s.size(), "transcribe size"); for (int i = 0; i < n; ++i) CHECK(r[i].first == s[i].id * 10L && r[i].second == s[i].lead, "transcribe"); CHECK(g.size() == s.size() / 2, "transcribe size()");
          stlab::forest<long> g2; stlab::forests::transcribe(cf.begin(), cf.end(), stlab::forests::transcriber(g2), [](const T& t) { return (long)t.v * 10; }); CHECK(g == g2, "transcribe range");
          stlab::forest<long> g3; auto tr = stlab::forests::transcriber(g3); stlab::forests::transcribe(w.f.begin(), w.f.end(), tr, [](const T& t) { return (long)t.v * 10; }, [](const auto& p) { return stlab::is_leading(p); }); CHECK(g3 == g, "transcribe pred");
          stlab::forest<long> g4; stlab::forests::transcribe(cf, stlab::forests::transcriber(g4), [](const T& t) { return (long)t.v * 10; }, [](const auto& p) { return stlab::is_leading(p); }); CHECK(g4 == g, "transcribe range pred"); }
        { cur = ctx("transcribe before existing", s); stlab::forest<long> g; g.push_back(-1); stlab::forests::transcribe(w.f, stlab::forests::transcriber(g), [](const T& t) { return (long)t.v; }); vector<pair<long, bool>> r; for (auto i = g.begin(); i != g.end(); ++i) r.push_back({*i, stlab::is_leading(i)}); CHECK((int)r.size() == n + 2 && r[n].first == -1 && r[n + 1].first == -1, "transcribe keeps existing"); for (int i = 0; i < n; ++i) CHECK(r[i].first == s[i].id && r[i].second == s[i].lead, "transcribe before existing"); }
        // filtered copies: every subset
        int k = n / 2; for (int mask = 0; mask < (1 << k); ++mask) { auto pred = [mask](const T& t) { return !(mask >> (t.v - 1) & 1); }; cur = ctx("transcribe filtered", s, mask); S e; for (int p = 1; p <= n; ++p) { if (s[p - 1].lead && !pred(T(s[p - 1].id))) { p = match(s, p); continue; } e.push_back(s[p - 1]); } auto fr = stlab::filter_fullorder_range(w.f, pred); F g; stlab::forests::transcribe(fr.begin(), fr.end(), stlab::forests::transcriber(g), [](const T& t) { return t; }); verify(g, e, nullptr, "filtered copy"); 
            vector<optional<T>> o; stlab::forests::flatten(fr.begin(), fr.end(), back_inserter(o)); F h; stlab::forests::unflatten(o.begin(), o.end(), h); CHECK(h == g, "filtered flatten"); ++cases; }
        ++cases; }
    leakcheck();
}
int main(int c, char** v) {
    bool th = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough"); string m = c > 1 ? v[1] : "c01"; int N = 0;
    if (m == "c01") c01(N = th ? 6 : 5); else if (m == "c02") c02(N = th ? 9 : 7); else if (m == "c03") c03(N = th ? 6 : 5); else if (m == "c04") c04(N = th ? 9 : 7);
    printf("COVER %s: all forests with up to %d nodes, %ld cases\n", m.c_str(), N, cases);
}
