// Instantiates the real <stlab/forest.hpp> with an opaque Regular element type. Each driver function calls exactly
// one public operation; the contract is stated on the driver function, the body verified is the header's code.
#include <stlab/forest.hpp>
struct V {
    long t;
    V(const V&);
    V(V&&) noexcept;
    V& operator=(const V&);
    V& operator=(V&&) noexcept;
    ~V();
    friend bool operator==(const V&, const V&);
    friend bool operator!=(const V&, const V&);
};
using F = stlab::forest<V>;
using It = F::iterator;
using CIt = F::const_iterator;
using Ch = F::child_iterator;
using CCh = F::const_child_iterator;
extern "C" {
bool pred(const V&);
void d_next(It* i) { ++*i; }
void d_prev(It* i) { --*i; }
void d_cnext(CIt* i) { ++*i; }
void d_cprev(CIt* i) { --*i; }
void d_begin(F* f, It* o) { *o = f->begin(); }
void d_end(F* f, It* o) { *o = f->end(); }
void d_root(F* f, It* o) { *o = f->root(); }
bool d_empty(F* f) { return f->empty(); }
bool d_has_children(It* i) { return stlab::has_children(*i); }
void d_ctor(F* f) { new (f) F(); }
void d_insert(F* f, It* p, V* x, It* o) { *o = f->insert(*p, std::move(*x)); }
void d_push_front(F* f, V* x) { f->push_front(*x); }
void d_push_back(F* f, V* x) { f->push_back(*x); }
void d_pop_front(F* f) { f->pop_front(); }
void d_pop_back(F* f) { f->pop_back(); }
void d_erase(F* f, It* p, It* o) { *o = f->erase(*p); }
void d_erase_range(F* f, It* a, It* b, It* o) { *o = f->erase(*a, *b); }
void d_clear(F* f) { f->clear(); }
void d_dtor(F* f) { f->~F(); }
void d_splice_all(F* f, It* p, F* x, It* o) { *o = f->splice(*p, *x); }
void d_splice_one(F* f, It* p, F* x, It* i, It* o) { *o = f->splice(*p, *x, *i); }
void d_splice_range(F* f, It* p, F* x, It* a, It* b, It* o) { *o = f->splice(*p, *x, Ch(*a), Ch(*b)); }
void d_splice_count(F* f, It* p, F* x, It* a, It* b, std::size_t n, It* o) { *o = f->splice(*p, *x, Ch(*a), Ch(*b), n); }
void d_insert_parent(F* f, It* a, It* b, V* x, It* o) { *o = f->insert_parent(Ch(*a), Ch(*b), *x); }
void d_reverse(F* f, It* a, It* b) { f->reverse(Ch(*a), Ch(*b)); }
void d_insert_copy(F* f, It* p, CIt* a, CIt* b, It* o) { *o = f->insert(*p, CCh(*a), CCh(*b)); }
std::size_t d_size(F* f) { return f->size(); }
bool d_eq(F* f, F* g) { return *f == *g; }
void d_move_ctor(F* f, F* g) { new (f) F(std::move(*g)); }
void d_copy_ctor(F* f, F* g) { new (f) F(*g); }
void d_move_assign(F* f, F* g) { *f = std::move(*g); }
void d_copy_assign(F* f, F* g) { *f = *g; }
void d_swap(F* f, F* g) { f->swap(*g); }
void d_find_parent(It* i) { *i = stlab::find_parent(*i); }
void d_child_begin(It* i) { *i = stlab::child_begin(*i).base(); }
void d_child_end(It* i) { *i = stlab::child_end(*i).base(); }
void d_child_next(It* i) { Ch c(*i); ++c; *i = c.base(); }
void d_child_prev(It* i) { Ch c(*i); --c; *i = c.base(); }

// derived iterators are rebuilt from their observable state (base edge, depth, range) so every reachable state is covered
using Pre = F::preorder_iterator; using Post = F::postorder_iterator; using Rv = F::reverse_iterator;
void d_pre_from(It* i, It* o) { *o = Pre(*i).base(); }
void d_post_from(It* i, It* o) { *o = Post(*i).base(); }
void d_pre_next(It* i, It* o) { Pre p(*i); ++p; *o = p.base(); }
void d_pre_prev(It* i, It* o) { Pre p(*i); --p; *o = p.base(); }
void d_post_next(It* i, It* o) { Post p(*i); ++p; *o = p.base(); }
void d_post_prev(It* i, It* o) { Post p(*i); --p; *o = p.base(); }
bool d_rev_make(It* i, It* o) { Rv r(*i); *o = r.base(); return r.edge() == stlab::forest_edge::leading; }
bool d_rev_next(It* i, It* o) { Rv r(*i); ++r; *o = r.base(); return r.edge() == stlab::forest_edge::leading; }
bool d_rev_prev(It* i, It* o) { Rv r(*i); --r; *o = r.base(); return r.edge() == stlab::forest_edge::leading; }
bool d_rev_roundtrip(It* i) { Rv r(*i), s(r); ++r; --r; return r == s; }
bool d_rev_roundtrip2(It* i) { Rv r(*i), s(r); --r; ++r; return r == s; }
V* d_rev_deref(It* i) { Rv r(*i); return &*r; }
using Dp = stlab::depth_fullorder_iterator<It>;
long d_depth_next(It* i, long k, It* o) { Dp d(*i, k); ++d; *o = d.base(); return d.depth(); }
long d_depth_prev(It* i, long k, It* o) { Dp d(*i, k); --d; *o = d.base(); return d.depth(); }
struct PF { bool operator()(const V& v) const { return pred(v); } };
using Fi = stlab::filter_fullorder_iterator<It, PF>;
void d_filter_make(F* f, It* o) { *o = stlab::filter_fullorder_range(*f, PF()).begin().base(); }
void d_filter_next(F* f, It* i, It* o) { Fi x(f->begin(), f->end(), PF()); x.base_reference() = *i; ++x; *o = x.base(); }
void d_filter_prev(F* f, It* i, It* o) { Fi x(f->begin(), f->end(), PF()); x.base_reference() = *i; --x; *o = x.base(); }
bool d_iter_eq(It* a, It* b) { return *a == *b; }
bool d_iter_ne(It* a, It* b) { return *a != *b; }
bool d_equal_node(It* a, It* b) { return a->equal_node(*b); }
void d_leading_of(It* a, It* o) { *o = stlab::leading_of(*a); }
void d_trailing_of(It* a, It* o) { *o = stlab::trailing_of(*a); }
void d_pivot_of(It* a, It* o) { *o = stlab::pivot_of(*a); }
V* d_deref(It* i) { return &**i; }
void d_child_push_back(F* f, It* i, V* v) { stlab::child_adaptor<F>(*f, *i).push_back(*v); }
void d_child_push_front(F* f, It* i, V* v) { stlab::child_adaptor<F>(*f, *i).push_front(*v); }
void d_child_pop_back(F* f, It* i) { stlab::child_adaptor<F>(*f, *i).pop_back(); }
void d_child_pop_front(F* f, It* i) { stlab::child_adaptor<F>(*f, *i).pop_front(); }
V* d_child_front(F* f, It* i) { return &stlab::child_adaptor<F>(*f, *i).front(); }
V* d_child_back(F* f, It* i) { return &stlab::child_adaptor<F>(*f, *i).back(); }
}
