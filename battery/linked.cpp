// Bounded-exhaustive replay harness for reverse.hpp / set_next.hpp
#include <stlab/algorithm/reverse.hpp>
#include <stlab/iterator/set_next.hpp>
#include <stlab/forest.hpp>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <forward_list>
#include <list>
#include <string>
#include <vector>
using namespace std;
struct N { int v; N* next = nullptr; N* prior = nullptr; };
template <bool Bi> struct It { using value_type = N; using difference_type = ptrdiff_t; using reference = N&; using pointer = N*; using iterator_category = conditional_t<Bi, bidirectional_iterator_tag, forward_iterator_tag>;
    N* p = nullptr; N& operator*() const { return *p; } N* operator->() const { return p; } It& operator++() { p = p->next; return *this; } It operator++(int) { It r(*this); p = p->next; return r; } It& operator--() { p = p->prior; return *this; } It operator--(int) { It r(*this); p = p->prior; return r; }
    friend bool operator==(It a, It b) { return a.p == b.p; } friend bool operator!=(It a, It b) { return a.p != b.p; } };
namespace stlab { inline namespace STLAB_VERSION_NAMESPACE() { namespace unsafe {
template <> struct set_next_fn<It<false>> { void operator()(const It<false>& x, const It<false>& y) const { x.p->next = y.p; } };
template <> struct set_next_fn<It<true>> { void operator()(const It<true>& x, const It<true>& y) const { x.p->next = y.p; if (y.p) y.p->prior = x.p; } };
} } }
static string cur; static long cases;
#define CHECK(c, m) do { if (!(c)) { printf("FAIL %s: %s\n", cur.c_str(), m); exit(1); } } while (0)
template <bool Bi> struct L { vector<N> n; L(int k) : n(k) { for (int i = 0; i < k; ++i) { n[i].v = i; n[i].next = i + 1 < k ? &n[i + 1] : nullptr; n[i].prior = i ? &n[i - 1] : nullptr; } } It<Bi> at(int i) { return {i < (int)n.size() ? &n[i] : nullptr}; }
    vector<int> walk(N* p) { vector<int> r; for (; p; p = p->next) { r.push_back(p->v); if (r.size() > 40) { r.push_back(-1); break; } } return r; } };
struct R { It<false> f, l; using iterator = It<false>; It<false> begin() const { return f; } It<false> end() const { return l; } };
int main() {
    using namespace stlab::unsafe;
    for (int k = 0; k <= 8; ++k) for (int a = 0; a <= k; ++a) for (int b = a; b <= k; ++b) {
        for (int mode = 0; mode < 4; ++mode) { cur = "reverse_nodes/append of [" + to_string(a) + "," + to_string(b) + ") of " + to_string(k) + " mode " + to_string(mode);
            L<false> x(k); R r{x.at(a), x.at(b)}; It<false> q;
            if (mode == 0) q = reverse_nodes(x.at(a), x.at(b)); else if (mode == 1) q = reverse_nodes(r); else if (mode == 2) q = reverse_append(x.at(a), x.at(b), x.at(b)); else q = reverse_append(r, x.at(b));
            vector<int> e; for (int i = b - 1; i >= a; --i) e.push_back(i); for (int i = b; i < k; ++i) e.push_back(i);
            CHECK(x.walk(q.p) == e, "result sequence"); for (int i = 0; i < k; ++i) if (i < a || i >= b) CHECK(x.n[i].next == (i + 1 < k ? &x.n[i + 1] : nullptr), "a node outside the range changed"); ++cases; }
        for (int j = 0; j <= 2; ++j) { cur = "reverse_append to another list"; L<false> x(k), y(3); for (auto& n : y.n) n.v += 100; It<false> q = reverse_append(x.at(a), x.at(b), y.at(j)); vector<int> e; for (int i = b - 1; i >= a; --i) e.push_back(i); for (int i = j; i < 3; ++i) e.push_back(100 + i); CHECK(x.walk(q.p) == e, "result sequence"); ++cases; }
        { cur = "bidirectional reverse_nodes " + to_string(k) + " " + to_string(a) + " " + to_string(b); L<true> x(k); auto q = reverse_nodes(x.at(a), x.at(b)); vector<int> e; for (int i = b - 1; i >= a; --i) e.push_back(i); for (int i = b; i < k; ++i) e.push_back(i); CHECK(x.walk(q.p) == e, "bidirectional"); N* p = q.p; while (p && p->next) { CHECK(p->next->prior == p, "backward link"); p = p->next; } ++cases; }
        if (a < b) for (int j = 0; j < 3; ++j) { cur = "splice_node_range " + to_string(a) + " " + to_string(b) + " after " + to_string(j); L<true> x(k), y(3); for (auto& n : y.n) n.v += 100; splice_node_range(y.at(j), x.at(a), x.at(b - 1)); vector<int> e; for (int i = 0; i <= j; ++i) e.push_back(100 + i); for (int i = a; i < b; ++i) e.push_back(i); for (int i = j + 1; i < 3; ++i) e.push_back(100 + i); CHECK(y.walk(&y.n[0]) == e, "result sequence"); N* p = &y.n[0]; while (p->next) { CHECK(p->next->prior == p, "backward link"); p = p->next; } ++cases; }
    }
    for (int k = 2; k <= 6; ++k) for (int i = 0; i + 1 < k; ++i) { cur = "skip_next_node " + to_string(i) + " of " + to_string(k); L<true> x(k); skip_next_node(x.at(i)); vector<int> e; for (int j = 0; j < k; ++j) if (j != i + 1) e.push_back(j); CHECK(x.walk(&x.n[0]) == e, "sequence"); if (i + 2 < k) CHECK(x.n[i + 2].prior == &x.n[i], "backward link"); CHECK(x.n[i + 1].next == (i + 2 < k ? &x.n[i + 2] : nullptr), "the skipped node changed");
        if (i > 0) { cur = "skip_node " + to_string(i); L<true> y(k); skip_node(y.at(i)); e.clear(); for (int j = 0; j < k; ++j) if (j != i) e.push_back(j); CHECK(y.walk(&y.n[0]) == e, "sequence"); CHECK(y.n[i + 1].prior == &y.n[i - 1], "backward link"); } ++cases; }
    for (int k = 0; k <= 9; ++k) for (int m = 0; m <= k; ++m) for (int off = 0; off < 2; ++off) { cur = "reverse_until marker " + to_string(m) + " of " + to_string(k); vector<int> v(k + 2), w; for (int i = 0; i < k + 2; ++i) v[i] = i; w = v; auto f = v.begin() + 1, l = f + k; auto r = stlab::reverse_until(f, f + m, l); int a = r.first - f, b = r.second - f; CHECK(a <= m && m <= b && a == k - b && (a == m || b == m), "rest range"); for (int i = 0; i < k; ++i) CHECK(f[i] == ((i < a || i >= b) ? w[1 + k - 1 - i] : w[1 + i]), "element"); CHECK(v[0] == 0 && v[k + 1] == k + 1, "outside element changed");
        list<int> li(w.begin() + 1, w.begin() + 1 + k); auto lm = next(li.begin(), m); auto lr = stlab::reverse_until(li.begin(), lm, li.end()); CHECK(distance(li.begin(), lr.first) == a && distance(lr.second, li.end()) == k - b, "list rest range"); CHECK(equal(li.begin(), li.end(), f), "list elements"); ++cases; }
    for (int k = 0; k < 6; ++k) { cur = "reverse/reverse_copy"; vector<int> v(k), o, c; for (int i = 0; i < k; ++i) v[i] = i; stlab::reverse_copy(v, back_inserter(o)); const auto& cv = v; stlab::reverse_copy(cv, back_inserter(c)); auto w = v; stlab::reverse(v); reverse(w.begin(), w.end()); CHECK(v == w && o == w && c == w, "wrong"); ++cases; }
    { using F = stlab::forest<int>; for (int k = 1; k < 7; ++k) for (int a = 0; a <= k; ++a) for (int b = a; b <= k; ++b) { cur = "forest child reverse_nodes"; F f; for (int i = 0; i < k; ++i) f.push_back(i); auto c = stlab::child_begin(f.root()); f.reverse(next(c, a), next(c, b)); vector<int> e(k), g; for (int i = 0; i < k; ++i) e[i] = i; reverse(e.begin() + a, e.begin() + b); for (auto i = stlab::child_begin(f.root()); i != stlab::child_end(f.root()); ++i) g.push_back(*i); CHECK(g == e, "order"); ++cases; } }
    printf("COVER linked lists up to 8 nodes, all ranges, markers and positions: %ld cases\n", cases);
}
