// driver for C14, C15, C16: the real channel code (queue strategies, shared_process, sender, receiver, annotations) with opaque values and processes
#include <stlab/concurrency/channel.hpp>
#include <new>
using namespace stlab;
using EX = std::exception_ptr; using T = task<void() noexcept>;
template <int N> struct Vn { unsigned long id; Vn(); Vn(const Vn&); Vn(Vn&&) noexcept; Vn& operator=(const Vn&); Vn& operator=(Vn&&) noexcept; ~Vn(); };
using V = Vn<0>; using W = Vn<1>; using X = Vn<2>;
struct M { unsigned long id; M(); M(const M&) = delete; M(M&&) noexcept; M& operator=(const M&) = delete; M& operator=(M&&) noexcept; ~M(); };
using QD = detail::default_queue_strategy<V>; using QM = detail::default_queue_strategy<M>; using QZ = detail::zip_with_queue_strategy<V, W, X>; using QZ2 = detail::zip_with_queue_strategy<V, M>; using QR = detail::round_robin_queue_strategy<V, V, V>; using QU = detail::unordered_queue_strategy<V, V, V>; using QU2 = detail::unordered_queue_strategy<M, M>;
extern "C" void v_var(void*, int);
template <class Q> void mk(Q* q) { new (q) Q(); }
template <class Q> unsigned long qoff(int k) { if (k == 0) return sizeof(Q); if (k == 1) return sizeof(typename Q::value_type); return 0; }
#define STRAT(N, Q) void N##_new(Q* q) { new (q) Q(); } bool N##_empty(const Q* q) { return q->empty(); } void N##_front(Q* q, typename Q::value_type* o) { new (o) typename Q::value_type(q->front()); } void N##_pop(Q* q) { q->pop_front(); } \
  void N##_size(const Q* q, unsigned long* o) { auto a = q->size(); for (auto x : a) *o++ = x; } unsigned long N##_off(int k) { return qoff<Q>(k); }
#define APP(N, Q, I, V) void N##_app##I(Q* q, V* v) { q->template append<I>(std::move(*v)); } void N##_appe##I(Q* q, EX* v) { q->template append<I>(std::move(*v)); } unsigned long N##_n##I(const Q* q) { return q->template queue_size<I>(); }
#define TUP(N, Q, I) void* N##_elt##I(typename Q::value_type* t) { return &std::get<I>(*t); }
extern "C" {
STRAT(QD, QD) APP(QD, QD, 0, V) TUP(QD, QD, 0) void* QD_q0(QD* q) { return &q->_queue; }
STRAT(QM, QM) APP(QM, QM, 0, M) TUP(QM, QM, 0) void* QM_q0(QM* q) { return &q->_queue; }
STRAT(QZ, QZ) APP(QZ, QZ, 0, V) APP(QZ, QZ, 1, W) APP(QZ, QZ, 2, X) TUP(QZ, QZ, 0) TUP(QZ, QZ, 1) TUP(QZ, QZ, 2)
void* QZ_q0(QZ* q) { return &std::get<0>(q->_queue); } void* QZ_q1(QZ* q) { return &std::get<1>(q->_queue); } void* QZ_q2(QZ* q) { return &std::get<2>(q->_queue); }
STRAT(QZ2, QZ2) APP(QZ2, QZ2, 0, V) APP(QZ2, QZ2, 1, M) TUP(QZ2, QZ2, 0) TUP(QZ2, QZ2, 1)
void* QZ2_q0(QZ2* q) { return &std::get<0>(q->_queue); } void* QZ2_q1(QZ2* q) { return &std::get<1>(q->_queue); }
STRAT(QR, QR) APP(QR, QR, 0, V) APP(QR, QR, 1, V) APP(QR, QR, 2, V) TUP(QR, QR, 0)
void* QR_q0(QR* q) { return &std::get<0>(q->_queue); } void* QR_q1(QR* q) { return &std::get<1>(q->_queue); } void* QR_q2(QR* q) { return &std::get<2>(q->_queue); }
void* QR_idx(QR* q) { return &q->_index; } void* QR_pop_idx(QR* q) { return &q->_popped_index; }
STRAT(QU, QU) APP(QU, QU, 0, V) APP(QU, QU, 1, V) APP(QU, QU, 2, V) TUP(QU, QU, 0)
void* QU_q0(QU* q) { return &std::get<0>(q->_queue); } void* QU_q1(QU* q) { return &std::get<1>(q->_queue); } void* QU_q2(QU* q) { return &std::get<2>(q->_queue); }
void* QU_idx(QU* q) { return &q->_index; } void* QU_pop_idx(QU* q) { return &q->_popped_index; }
STRAT(QU2, QU2) APP(QU2, QU2, 0, M) APP(QU2, QU2, 1, M) TUP(QU2, QU2, 0)
void* QU2_q0(QU2* q) { return &std::get<0>(q->_queue); } void* QU2_q1(QU2* q) { return &std::get<1>(q->_queue); }
void* QU2_idx(QU2* q) { return &q->_index; } void* QU2_pop_idx(QU2* q) { return &q->_popped_index; }
}
