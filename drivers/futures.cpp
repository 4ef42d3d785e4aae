// driver for C09, C10, C11: the real future / packaged_task / promise / shared_base code with opaque values, callables and executors
#include <stlab/concurrency/future.hpp>
#include <stlab/concurrency/ready_future.hpp>
#include <new>
using namespace stlab;
using T = task<void() noexcept>;
struct V { unsigned long id; V(const V&); V(V&&) noexcept; V& operator=(const V&); V& operator=(V&&) noexcept; ~V(); };
struct M { unsigned long id; M(const M&) = delete; M(M&&) noexcept; M& operator=(const M&) = delete; M& operator=(M&&) noexcept; ~M(); };
extern "C" void o_exec(unsigned long id, T* t) noexcept;
struct E { unsigned long id; template <class F> void operator()(F&& f) const { T t(std::forward<F>(f)); o_exec(id, &t); } };
template <class R, class... A> struct Fn { unsigned long id; Fn(Fn&&) noexcept; Fn(const Fn&); ~Fn(); R operator()(A...); };
template <class R, class... A> struct Nn { unsigned long id; Nn(Nn&&) noexcept; Nn(const Nn&); ~Nn(); R operator()(A...) noexcept; };
using FV = future<V>; using F0 = future<void>; using FM = future<M>;
template <class X> using SB = detail::shared_base<X>;
using PT = packaged_task<>; using EX = std::exception_ptr;
template <class X> unsigned long off(int k) { switch (k) { case 0: return sizeof(SB<X>); case 1: return __builtin_offsetof(SB<X>, _executor); case 2: return __builtin_offsetof(SB<X>, _result); case 3: return __builtin_offsetof(SB<X>, _exception);
  case 4: return __builtin_offsetof(SB<X>, _mutex); case 5: return __builtin_offsetof(SB<X>, _ready); case 6: return __builtin_offsetof(SB<X>, _then); case 7: return sizeof(std::optional<void_to_monostate_t<X>>); case 8: return sizeof(std::pair<executor_t, T>); case 9: return sizeof(typename SB<X>::then_t); case 10: return sizeof(T); } return 0; }
template <class X, class P> void mk(PT* p, future<X>* f, unsigned long e, P* g) { auto pr = package<X()>(E{e}, std::move(*g)); new (p) PT(std::move(pr.first)); new (f) future<X>(std::move(pr.second)); }
using FVV = Fn<V, V>; using FV0 = Fn<V>; using FVM = Fn<V, M>; using FVFV = Fn<V, FV>; using FVF0 = Fn<V, F0>; using FVFM = Fn<V, FM>; using FOV = Fn<void, V>; using FOO = Fn<void>; using FMM = Fn<M>; using FRV = Fn<FV, V>;
using NV = Nn<void, FV>; using NO = Nn<void, F0>; using NM = Nn<void, FM>;
template <class F> auto etp(unsigned long e, F& f) { return executor{E{e}} & std::move(f); }
template <class F> auto pte(unsigned long e, F& f) { return std::move(f) & executor{E{e}}; }

extern "C" {
unsigned long fu_off(int t, int k) { return t == 0 ? off<V>(k) : t == 1 ? off<void>(k) : off<M>(k); }
void V_make(PT* p, FV* f, unsigned long e, FV0* g) { mk<V>(p, f, e, g); }
void O_make(PT* p, F0* f, unsigned long e, FOO* g) { mk<void>(p, f, e, g); }
void M_make(PT* p, FM* f, unsigned long e, FMM* g) { mk<M>(p, f, e, g); }
void R_make(PT* p, FV* f, unsigned long e, Fn<FV>* g) { auto pr = package<FV()>(E{e}, std::move(*g)); new (p) PT(std::move(pr.first)); new (f) FV(std::move(pr.second)); }
void Q_make(PT* p, F0* f, unsigned long e, Fn<F0>* g) { auto pr = package<F0()>(E{e}, std::move(*g)); new (p) PT(std::move(pr.first)); new (f) F0(std::move(pr.second)); }
void N_make(PT* p, FM* f, unsigned long e, Fn<FM>* g) { auto pr = package<FM()>(E{e}, std::move(*g)); new (p) PT(std::move(pr.first)); new (f) FM(std::move(pr.second)); }
void A_make(packaged_task<V>* p, FV* f, unsigned long e, FVV* g) { auto pr = package<V(V)>(E{e}, std::move(*g)); new (p) packaged_task<V>(std::move(pr.first)); new (f) FV(std::move(pr.second)); }
void pt_run(PT* p) { (*p)(); }
void pt_run_arg(packaged_task<V>* p, V* v) { (*p)(std::move(*v)); }
void pt_drop(PT* p) { p->~PT(); }
void pt_exc(PT* p, EX* x) { p->set_exception(*x); }
void pt_move(PT* d, PT* s) { new (d) PT(std::move(*s)); }
void pt_assign(PT* d, PT* s) { *d = std::move(*s); }
bool pt_canceled(const PT* p) { return p->canceled(); }
void pt_task(T* d, PT* s) { new (d) T(std::move(*s)); }
void pt_default(PT* d) { new (d) PT(); }
void t_take(T* d, T* s) { new (d) T(std::move(*s)); }
void t_run(T* t) { (*t)(); t->~T(); }
void t_drop(T* t) { t->~T(); }
void then_run(std::pair<executor_t, T>* p) { p->first(std::move(p->second)); p->~pair(); }
void then_drop(std::pair<executor_t, T>* p) { p->~pair(); }
void V_drop(FV* f) { f->~FV(); }
void O_drop(F0* f) { f->~F0(); }
void M_drop(FM* f) { f->~FM(); }
void V_exec(SB<V>* s) { T t; s->_executor(std::move(t)); }
void V_pro_new(detail::promise<V>* p, FV* f) { new (p) detail::promise<V>(f->_p); }
void V_pro_value(detail::promise<V>* p, V* v) { std::move(*p).set_value(std::move(*v)); }
void V_pro_exc(detail::promise<V>* p, EX* x) { std::move(*p).set_exception(*x); }
void V_pro_drop(detail::promise<V>* p) { p->~promise(); }
void V_pro_assign(detail::promise<V>* p, detail::promise<V>* q) { *p = std::move(*q); }
bool V_pro_canceled(const detail::promise<V>* p) { return p->canceled(); }
bool V_is_ready(const FV* f) { return f->is_ready(); }
bool V_valid(const FV* f) { return f->valid(); }
void V_reset(FV* f) { f->reset(); }
void V_swap(FV* f, FV* g) { swap(*f, *g); }
void V_move(FV* d, FV* f) { new (d) FV(std::move(*f)); }
void V_assign_r(FV* d, FV* f) { *d = std::move(*f); }
bool V_eq(const FV* f, const FV* g) { return *f == *g; }
bool V_ne(const FV* f, const FV* g) { return *f != *g; }
void V_exception(const FV* f, EX* r) { new (r) EX(f->exception()); }
void V_error(const FV* f, std::optional<EX>* r) { new (r) std::optional<EX>(f->error()); }
void V_detach(const FV* f, unsigned long, void*, void*) { f->detach(); }
void V_detach_r(FV* f, unsigned long, NV* g, void*) { std::move(*f).detach(std::move(*g)); }
void V_broken(FV* r, unsigned long e) { new (r) FV(future_with_broken_promise<V>(E{e})); }
void V_exceptional(FV* r, EX* x, unsigned long e) { new (r) FV(make_exceptional_future<V>(*x, E{e})); }
void V_copy(FV* d, const FV* f) { new (d) FV(*f); }
void V_assign_l(FV* d, const FV* f) { *d = *f; }
void V_ready(FV* r, V* v, unsigned long e) { new (r) FV(make_ready_future(std::move(*v), E{e})); }
void V_ready_l(FV* r, V* v, unsigned long e) { new (r) FV(make_ready_future(*v, E{e})); }
void V_gr_l(const FV* f, V* r) { new (r) V(f->get_ready()); }
void V_gr_r(FV* f, V* r) { new (r) V(std::move(*f).get_ready()); }
void V_gt_l(const FV* f, std::optional<V>* r) { new (r) std::optional<V>(f->get_try()); }
void V_gt_r(FV* f, std::optional<V>* r) { new (r) std::optional<V>(std::move(*f).get_try()); }
void V_then_l(const FV* s, unsigned long e, FVV* f, FV* r) { new (r) FV((*s).then(std::move(*f))); }
void V_ethen_l(const FV* s, unsigned long e, FVV* f, FV* r) { new (r) FV((*s).then(E{e}, std::move(*f))); }
void V_or_l(const FV* s, unsigned long e, FVV* f, FV* r) { new (r) FV((*s) | std::move(*f)); }
void V_eor_l(const FV* s, unsigned long e, FVV* f, FV* r) { new (r) FV((*s) | etp(e, *f)); }
void V_rec_l(const FV* s, unsigned long e, FVFV* f, FV* r) { new (r) FV((*s).recover(std::move(*f))); }
void V_erec_l(const FV* s, unsigned long e, FVFV* f, FV* r) { new (r) FV((*s).recover(E{e}, std::move(*f))); }
void V_xor_l(const FV* s, unsigned long e, FVFV* f, FV* r) { new (r) FV((*s) ^ std::move(*f)); }
void V_exor_l(const FV* s, unsigned long e, FVFV* f, FV* r) { new (r) FV((*s) ^ pte(e, *f)); }
void V_ethen_o_l(const FV* s, unsigned long e, FOV* f, F0* r) { new (r) F0((*s).then(E{e}, std::move(*f))); }
void V_ethen_f_l(const FV* s, unsigned long e, FRV* f, FV* r) { new (r) FV((*s).then(E{e}, std::move(*f))); }
void V_then_r(FV* s, unsigned long e, FVV* f, FV* r) { new (r) FV(std::move(*s).then(std::move(*f))); }
void V_ethen_r(FV* s, unsigned long e, FVV* f, FV* r) { new (r) FV(std::move(*s).then(E{e}, std::move(*f))); }
void V_or_r(FV* s, unsigned long e, FVV* f, FV* r) { new (r) FV(std::move(*s) | std::move(*f)); }
void V_eor_r(FV* s, unsigned long e, FVV* f, FV* r) { new (r) FV(std::move(*s) | etp(e, *f)); }
void V_rec_r(FV* s, unsigned long e, FVFV* f, FV* r) { new (r) FV(std::move(*s).recover(std::move(*f))); }
void V_erec_r(FV* s, unsigned long e, FVFV* f, FV* r) { new (r) FV(std::move(*s).recover(E{e}, std::move(*f))); }
void V_xor_r(FV* s, unsigned long e, FVFV* f, FV* r) { new (r) FV(std::move(*s) ^ std::move(*f)); }
void V_exor_r(FV* s, unsigned long e, FVFV* f, FV* r) { new (r) FV(std::move(*s) ^ pte(e, *f)); }
void V_ethen_o_r(FV* s, unsigned long e, FOV* f, F0* r) { new (r) F0(std::move(*s).then(E{e}, std::move(*f))); }
void V_ethen_f_r(FV* s, unsigned long e, FRV* f, FV* r) { new (r) FV(std::move(*s).then(E{e}, std::move(*f))); }
void O_exec(SB<void>* s) { T t; s->_executor(std::move(t)); }
void O_pro_new(detail::promise<void>* p, F0* f) { new (p) detail::promise<void>(f->_p); }
void O_pro_value(detail::promise<void>* p, std::monostate* v) { std::move(*p).set_value(std::move(*v)); }
void O_pro_exc(detail::promise<void>* p, EX* x) { std::move(*p).set_exception(*x); }
void O_pro_drop(detail::promise<void>* p) { p->~promise(); }
void O_pro_assign(detail::promise<void>* p, detail::promise<void>* q) { *p = std::move(*q); }
bool O_pro_canceled(const detail::promise<void>* p) { return p->canceled(); }
bool O_is_ready(const F0* f) { return f->is_ready(); }
bool O_valid(const F0* f) { return f->valid(); }
void O_reset(F0* f) { f->reset(); }
void O_swap(F0* f, F0* g) { swap(*f, *g); }
void O_move(F0* d, F0* f) { new (d) F0(std::move(*f)); }
void O_assign_r(F0* d, F0* f) { *d = std::move(*f); }
bool O_eq(const F0* f, const F0* g) { return *f == *g; }
bool O_ne(const F0* f, const F0* g) { return *f != *g; }
void O_exception(const F0* f, EX* r) { new (r) EX(f->exception()); }
void O_error(const F0* f, std::optional<EX>* r) { new (r) std::optional<EX>(f->error()); }
void O_detach(const F0* f, unsigned long, void*, void*) { f->detach(); }
void O_detach_r(F0* f, unsigned long, NO* g, void*) { std::move(*f).detach(std::move(*g)); }
void O_broken(F0* r, unsigned long e) { new (r) F0(future_with_broken_promise<void>(E{e})); }
void O_exceptional(F0* r, EX* x, unsigned long e) { new (r) F0(make_exceptional_future<void>(*x, E{e})); }
void O_copy(F0* d, const F0* f) { new (d) F0(*f); }
void O_assign_l(F0* d, const F0* f) { *d = *f; }
void O_ready(F0* r, void*, unsigned long e) { new (r) F0(make_ready_future(E{e})); }
void O_gr_l(const F0* f, void*) { f->get_ready(); }
void O_gr_r(F0* f, void*) { std::move(*f).get_ready(); }
bool O_gt_l(const F0* f, void*) { return f->get_try(); }
bool O_gt_r(F0* f, void*) { return std::move(*f).get_try(); }
void O_then_l(const F0* s, unsigned long e, FV0* f, FV* r) { new (r) FV((*s).then(std::move(*f))); }
void O_ethen_l(const F0* s, unsigned long e, FV0* f, FV* r) { new (r) FV((*s).then(E{e}, std::move(*f))); }
void O_or_l(const F0* s, unsigned long e, FV0* f, FV* r) { new (r) FV((*s) | std::move(*f)); }
void O_eor_l(const F0* s, unsigned long e, FV0* f, FV* r) { new (r) FV((*s) | etp(e, *f)); }
void O_rec_l(const F0* s, unsigned long e, FVF0* f, FV* r) { new (r) FV((*s).recover(std::move(*f))); }
void O_erec_l(const F0* s, unsigned long e, FVF0* f, FV* r) { new (r) FV((*s).recover(E{e}, std::move(*f))); }
void O_xor_l(const F0* s, unsigned long e, FVF0* f, FV* r) { new (r) FV((*s) ^ std::move(*f)); }
void O_exor_l(const F0* s, unsigned long e, FVF0* f, FV* r) { new (r) FV((*s) ^ pte(e, *f)); }
void O_then_r(F0* s, unsigned long e, FV0* f, FV* r) { new (r) FV(std::move(*s).then(std::move(*f))); }
void O_ethen_r(F0* s, unsigned long e, FV0* f, FV* r) { new (r) FV(std::move(*s).then(E{e}, std::move(*f))); }
void O_or_r(F0* s, unsigned long e, FV0* f, FV* r) { new (r) FV(std::move(*s) | std::move(*f)); }
void O_eor_r(F0* s, unsigned long e, FV0* f, FV* r) { new (r) FV(std::move(*s) | etp(e, *f)); }
void O_rec_r(F0* s, unsigned long e, FVF0* f, FV* r) { new (r) FV(std::move(*s).recover(std::move(*f))); }
void O_erec_r(F0* s, unsigned long e, FVF0* f, FV* r) { new (r) FV(std::move(*s).recover(E{e}, std::move(*f))); }
void O_xor_r(F0* s, unsigned long e, FVF0* f, FV* r) { new (r) FV(std::move(*s) ^ std::move(*f)); }
void O_exor_r(F0* s, unsigned long e, FVF0* f, FV* r) { new (r) FV(std::move(*s) ^ pte(e, *f)); }
void M_exec(SB<M>* s) { T t; s->_executor(std::move(t)); }
void M_pro_new(detail::promise<M>* p, FM* f) { new (p) detail::promise<M>(f->_p); }
void M_pro_value(detail::promise<M>* p, M* v) { std::move(*p).set_value(std::move(*v)); }
void M_pro_exc(detail::promise<M>* p, EX* x) { std::move(*p).set_exception(*x); }
void M_pro_drop(detail::promise<M>* p) { p->~promise(); }
void M_pro_assign(detail::promise<M>* p, detail::promise<M>* q) { *p = std::move(*q); }
bool M_pro_canceled(const detail::promise<M>* p) { return p->canceled(); }
bool M_is_ready(const FM* f) { return f->is_ready(); }
bool M_valid(const FM* f) { return f->valid(); }
void M_reset(FM* f) { f->reset(); }
void M_swap(FM* f, FM* g) { swap(*f, *g); }
void M_move(FM* d, FM* f) { new (d) FM(std::move(*f)); }
void M_assign_r(FM* d, FM* f) { *d = std::move(*f); }
bool M_eq(const FM* f, const FM* g) { return *f == *g; }
bool M_ne(const FM* f, const FM* g) { return *f != *g; }
void M_exception(const FM* f, EX* r) { new (r) EX(f->exception()); }
void M_error(const FM* f, std::optional<EX>* r) { new (r) std::optional<EX>(f->error()); }
void M_detach(const FM* f, unsigned long, void*, void*) { f->detach(); }
void M_detach_r(FM* f, unsigned long, NM* g, void*) { std::move(*f).detach(std::move(*g)); }
void M_broken(FM* r, unsigned long e) { new (r) FM(future_with_broken_promise<M>(E{e})); }
void M_exceptional(FM* r, EX* x, unsigned long e) { new (r) FM(make_exceptional_future<M>(*x, E{e})); }
void M_ready(FM* r, M* v, unsigned long e) { new (r) FM(make_ready_future(std::move(*v), E{e})); }
void M_gr_r(FM* f, M* r) { new (r) M(std::move(*f).get_ready()); }
void M_gt_l(const FM* f, std::optional<M>* r) { new (r) std::optional<M>(f->get_try()); }
void M_gt_r(FM* f, std::optional<M>* r) { new (r) std::optional<M>(std::move(*f).get_try()); }
void M_then_r(FM* s, unsigned long e, FVM* f, FV* r) { new (r) FV(std::move(*s).then(std::move(*f))); }
void M_ethen_r(FM* s, unsigned long e, FVM* f, FV* r) { new (r) FV(std::move(*s).then(E{e}, std::move(*f))); }
void M_or_r(FM* s, unsigned long e, FVM* f, FV* r) { new (r) FV(std::move(*s) | std::move(*f)); }
void M_eor_r(FM* s, unsigned long e, FVM* f, FV* r) { new (r) FV(std::move(*s) | etp(e, *f)); }
void M_rec_r(FM* s, unsigned long e, FVFM* f, FV* r) { new (r) FV(std::move(*s).recover(std::move(*f))); }
void M_erec_r(FM* s, unsigned long e, FVFM* f, FV* r) { new (r) FV(std::move(*s).recover(E{e}, std::move(*f))); }
void M_xor_r(FM* s, unsigned long e, FVFM* f, FV* r) { new (r) FV(std::move(*s) ^ std::move(*f)); }
void M_exor_r(FM* s, unsigned long e, FVFM* f, FV* r) { new (r) FV(std::move(*s) ^ pte(e, *f)); }
void V_async(unsigned long e, FVV* f, V* v, FV* r) { new (r) FV(async(E{e}, std::move(*f), std::move(*v))); }
void V_async_l(unsigned long e, FVV* f, V* v, FV* r) { new (r) FV(async(E{e}, std::move(*f), *v)); }
}
