// driver for C04: flatten / unflatten / transcribe over opaque iterators, outputs and containers; transcribe_iterator over the real forest
#include "forest.cpp"
#include <stlab/forest_algorithms.hpp>
#include <iterator>
#include <optional>
using OV = std::optional<V>;
template <class X> struct QIt { using iterator_category = std::forward_iterator_tag; using value_type = X; using difference_type = long; using pointer = X*; using reference = X&;
  long p; QIt(const QIt& o) : p(o.p) {} QIt& operator=(const QIt& o) { p = o.p; return *this; } QIt& operator++(); QIt operator++(int); X& operator*() const; stlab::forest_edge edge() const;
  bool operator==(const QIt&) const; bool operator!=(const QIt&) const; };
using QI = QIt<V>; using QJ = QIt<OV>;
struct QRef { long i; void operator=(const V&); void operator=(V&&); void operator=(const OV&); void operator=(std::nullopt_t); };
struct QO { long i; QO(const QO& o) : i(o.i) {} QO& operator++(); QO operator++(int); QRef operator*(); };
struct TO { long i; TO(const TO& o) : i(o.i) {} TO& operator*() { return *this; } TO& operator++(); TO operator++(int); TO& operator=(const V&); TO& operator=(V&&); void trailing(); };
struct QR { QI begin() const; QI end() const; };
struct PJ { long id; V operator()(const V&) const; };
struct UP { long id; bool operator()(const QI&) const; };
struct CI { long p; stlab::forest_edge e; CI(const CI& o) : p(o.p), e(o.e) {} CI& operator=(const CI& o) { p = o.p; e = o.e; return *this; } stlab::forest_edge& edge() { return e; } stlab::forest_edge edge() const { return e; } CI& operator++(); CI operator++(int); CI& operator--(); CI operator--(int); using iterator_category = std::bidirectional_iterator_tag; using value_type = V; using difference_type = long; using pointer = V*; using reference = V&; V& operator*() const; bool operator==(const CI&) const; bool operator!=(const CI&) const; bool equal_node(const CI&) const; };
struct QC { using iterator = CI; using value_type = V; CI begin(); CI end(); CI insert(const CI&, V); };
namespace fs_ = stlab::forests;
extern "C" {
void c4_flatten(QI* a, QI* b, QO* o, QO* r) { new (r) QO(fs_::flatten(*a, *b, *o)); }
void c4_transcribe(QI* a, QI* b, TO* o, PJ* p, UP* u, TO* r) { new (r) TO(fs_::transcribe(*a, *b, *o, *p, *u)); }
void c4_transcribe_range(QR* q, TO* o, PJ* p, UP* u, TO* r) { new (r) TO(fs_::transcribe(*q, *o, *p, *u)); }
void c4_transcribe_lead(QI* a, QI* b, TO* o, PJ* p, TO* r) { new (r) TO(fs_::transcribe(*a, *b, *o, *p)); }
void c4_transcribe_range_lead(QR* q, TO* o, PJ* p, TO* r) { new (r) TO(fs_::transcribe(*q, *o, *p)); }
void c4_unflatten(QJ* a, QJ* b, QC* c) { fs_::unflatten(*a, *b, *c); }
void c4_assign(F* f, It* i, V* v, It* o) { fs_::transcribe_iterator<F> t(*f, *i); *t = *v; ++t; *o = t._i; }
void c4_assign_move(F* f, It* i, V* v, It* o) { fs_::transcribe_iterator<F> t(*f, *i); t = std::move(*v); t++; *o = t._i; }
void c4_trailing(F* f, It* i, It* o) { fs_::transcribe_iterator<F> t(*f, *i); t.trailing(); ++t; *o = t._i; }
void c4_make(F* f, It* o) { auto t = fs_::transcriber(*f); *o = t._i; }
}
