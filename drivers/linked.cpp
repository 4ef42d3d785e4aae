// Instantiates the real <stlab/algorithm/reverse.hpp> and <stlab/iterator/set_next.hpp> for a singly and a doubly
// linked node iterator (the node type and its set_next specialisation are the user's part of the contract).
#include <stlab/algorithm/reverse.hpp>
#include <stlab/iterator/set_next.hpp>
#include <iterator>
struct N { N* next; N* prior; };
template <bool Bi> struct Iter {
    using value_type = N; using difference_type = std::ptrdiff_t; using reference = N&; using pointer = N*;
    using iterator_category = std::conditional_t<Bi, std::bidirectional_iterator_tag, std::forward_iterator_tag>;
    N* p;
    N& operator*() const { return *p; }
    Iter& operator++() { p = p->next; return *this; }
    Iter operator++(int) { Iter r(*this); p = p->next; return r; }
    Iter& operator--() { p = p->prior; return *this; }
    friend bool operator==(Iter a, Iter b) { return a.p == b.p; }
    friend bool operator!=(Iter a, Iter b) { return a.p != b.p; }
};
namespace stlab { inline namespace STLAB_VERSION_NAMESPACE() { namespace unsafe {
template <> struct set_next_fn<Iter<false>> { void operator()(const Iter<false>& x, const Iter<false>& y) const { x.p->next = y.p; } };
template <> struct set_next_fn<Iter<true>> { void operator()(const Iter<true>& x, const Iter<true>& y) const { x.p->next = y.p; y.p->prior = x.p; } };
} } }
using A = Iter<false>; using B = Iter<true>;
struct Rng { A f, l; using iterator = A; A begin() const { return f; } A end() const { return l; } };
struct RngB { B f, l; using iterator = B; B begin() const { return f; } B end() const { return l; } };
struct Arr { long* f; long* l; long* begin() const { return f; } long* end() const { return l; } };
extern "C" {
N* d_append(N* f, N* l, N* e) { return stlab::unsafe::reverse_append(A{f}, A{l}, A{e}).p; }
N* d_append_range(N* f, N* l, N* e) { Rng r{A{f}, A{l}}; return stlab::unsafe::reverse_append(r, A{e}).p; }
N* d_nodes(N* f, N* l) { return stlab::unsafe::reverse_nodes(A{f}, A{l}).p; }
N* d_nodes_range(N* f, N* l) { Rng r{A{f}, A{l}}; return stlab::unsafe::reverse_nodes(r).p; }
void d_set_next(N* x, N* y) { stlab::unsafe::set_next(A{x}, A{y}); }
void d_splice(N* x, N* f, N* l) { stlab::unsafe::splice_node_range(A{x}, A{f}, A{l}); }
void d_skip_next(N* x) { stlab::unsafe::skip_next_node(A{x}); }
void d_bi_splice(N* x, N* f, N* l) { stlab::unsafe::splice_node_range(B{x}, B{f}, B{l}); }
void d_bi_skip_next(N* x) { stlab::unsafe::skip_next_node(B{x}); }
void d_bi_skip(N* x) { stlab::unsafe::skip_node(B{x}); }
void d_until(long* f, long* m, long* l, long** a, long** b) { auto r = stlab::reverse_until(f, m, l); *a = r.first; *b = r.second; }
void d_reverse(long* f, long* l) { Arr a{f, l}; stlab::reverse(a); }
void d_reverse_copy(long* f, long* l, long* o) { Arr a{f, l}; stlab::reverse_copy(a, o); }
void d_reverse_copy_const(long* f, long* l, long* o) { const Arr a{f, l}; stlab::reverse_copy(a, o); }
}
