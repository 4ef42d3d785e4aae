// driver for C12, C13: the real when_all / when_any code on opaque futures, values, callables and executors
#include <stlab/concurrency/future.hpp>
#include <new>
using namespace stlab;
using T = task<void() noexcept>;
struct V { unsigned long id; V(); V(const V&); V(V&&) noexcept; V& operator=(const V&); V& operator=(V&&) noexcept; ~V(); };
struct M { unsigned long id; M(); M(const M&) = delete; M(M&&) noexcept; M& operator=(const M&) = delete; M& operator=(M&&) noexcept; ~M(); };
extern "C" void o_exec(unsigned long id, T* t) noexcept;
struct E { unsigned long id; template <class F> void operator()(F&& f) const { T t(std::forward<F>(f)); o_exec(id, &t); } };
template <class R, class... A> struct Fn { unsigned long id; Fn(Fn&&) noexcept; Fn(const Fn&); ~Fn(); R operator()(A...) const; };
using FV = future<V>; using F0 = future<void>; using FM = future<M>;
using VV = std::vector<V>; using VM = std::vector<M>;
using Fall3 = Fn<V, V, M>; using Fany3 = Fn<V, V, std::size_t>; using Fany3o = Fn<V, std::size_t>; using FanyM = Fn<V, M, std::size_t>; using Fallr = Fn<V, VV>; using Fallro = Fn<V>; using FallrM = Fn<V, VM>;
using namespace stlab::detail;
using Call3 = when_all_shared<Fall3, optional_placeholder_tuple<V, void, M>>;
using Cany3 = when_any_shared<3, V>; using Cany3o = when_any_shared<3, void>; using CanyM = when_any_shared<2, M>;
template <class F, class R> using Call = common_context<context_result<F, false, R>, F, all_trigger, single_trigger>;
template <class F, class R> using Cany = common_context<context_result<F, true, R>, F, single_trigger, all_trigger>;
using Callr = Call<Fallr, VV>; using Callro = Call<Fallro, void>; using CallrM = Call<FallrM, VM>;
using Canyr = Cany<Fany3, V>; using Canyro = Cany<Fany3o, void>; using CanyrM = Cany<FanyM, M>;
template <class C> unsigned long base_(int k) { alignas(C) static char b[sizeof(C)]; C* c = (C*)b;
  switch (k) { case 0: return sizeof(C); case 1: return (char*)&c->_guard - b; case 2: return (char*)&c->_holds - b; case 3: return (char*)&c->_remaining - b; case 4: return (char*)&c->_exception - b; case 5: return (char*)&c->_f - b; } return 0; }
template <class C> unsigned long ctx_(int k) { alignas(C) static char b[sizeof(C)]; C* c = (C*)b; switch (k) { case 5: return (char*)&static_cast<packaged_task<>&>(c->_f) - b; case 6: return (char*)&c->_single_event - b; case 7: return (char*)&c->_index - b; } return base_<C>(k); }
template <class C> unsigned long res_(int k) { alignas(C) static char b[sizeof(C)]; C* c = (C*)b; return k == 8 ? (char*)&c->_results - b : ctx_<C>(k); }
template <class C> unsigned long any_(int k) { alignas(C) static char b[sizeof(C)]; C* c = (C*)b; return k == 7 ? (char*)&c->_index - b : base_<C>(k); }
template <class C> unsigned long anyv_(int k) { alignas(C) static char b[sizeof(C)]; C* c = (C*)b; return k == 8 ? (char*)&c->_arg - b : any_<C>(k); }
extern "C" {
unsigned long off_all3(int k) { alignas(Call3) static char b[sizeof(Call3)]; Call3* c = (Call3*)b; switch (k) { case 8: return (char*)&std::get<0>(c->_args) - b; case 9: return (char*)&std::get<1>(c->_args) - b; case 10: return (char*)&std::get<2>(c->_args) - b; } return base_<Call3>(k); }
unsigned long off_any3(int k) { return anyv_<Cany3>(k); }
unsigned long off_any3o(int k) { return any_<Cany3o>(k); }
unsigned long off_anyM(int k) { return anyv_<CanyM>(k); }
unsigned long off_allr(int k) { return res_<Callr>(k); }
unsigned long off_allro(int k) { return ctx_<Callro>(k); }
unsigned long off_allrM(int k) { return res_<CallrM>(k); }
unsigned long off_anyr(int k) { return res_<Canyr>(k); }
unsigned long off_anyro(int k) { return ctx_<Canyro>(k); }
unsigned long off_anyrM(int k) { return res_<CanyrM>(k); }
void w_all3(FV* r, E* e, Fall3* f, FV* a, F0* b, FM* c) { new (r) FV(when_all(*e, std::move(*f), std::move(*a), std::move(*b), std::move(*c))); }
unsigned long off_all0(int) { return 0; }
void w_all0(FV* r, E* e, Fallro* f) { new (r) FV(when_all(*e, std::move(*f))); }
void w_any3(FV* r, E* e, Fany3* f, FV* a, FV* b, FV* c) { new (r) FV(when_any(*e, std::move(*f), std::move(*a), std::move(*b), std::move(*c))); }
void w_any3o(FV* r, E* e, Fany3o* f, F0* a, F0* b, F0* c) { new (r) FV(when_any(*e, std::move(*f), std::move(*a), std::move(*b), std::move(*c))); }
void w_anyM(FV* r, E* e, FanyM* f, FM* a, FM* b) { new (r) FV(when_any(*e, std::move(*f), std::move(*a), std::move(*b))); }
void w_allr(FV* r, E* e, Fallr* f, FV* a, FV* b) { new (r) FV(when_all(*e, std::move(*f), std::make_pair(a, b))); }
void w_allro(FV* r, E* e, Fallro* f, F0* a, F0* b) { new (r) FV(when_all(*e, std::move(*f), std::make_pair(a, b))); }
void w_allrM(FV* r, E* e, FallrM* f, FM* a, FM* b) { new (r) FV(when_all(*e, std::move(*f), std::make_pair(a, b))); }
void w_anyr(FV* r, E* e, Fany3* f, FV* a, FV* b) { new (r) FV(when_any(*e, std::move(*f), std::make_pair(a, b))); }
void w_anyro(FV* r, E* e, Fany3o* f, F0* a, F0* b) { new (r) FV(when_any(*e, std::move(*f), std::make_pair(a, b))); }
void w_anyrM(FV* r, E* e, FanyM* f, FM* a, FM* b) { new (r) FV(when_any(*e, std::move(*f), std::make_pair(a, b))); }
void t_run(T* t) { (*t)(); }
}
