// driver for C06: the real portable pool with opaque tasks
#include <stlab/concurrency/default_executor.hpp>
#include <new>
using NQ = stlab::detail::notification_queue; using W = stlab::detail::waiter; using PTS = stlab::detail::priority_task_system; using T = stlab::task<void() noexcept>;
struct U { unsigned long id; U(U&&) noexcept; U(const U&) noexcept; ~U(); void operator()() noexcept; void operator()() const noexcept; };
extern "C" {
void nq_new(NQ* q) { new (q) NQ(); }
void nq_del(NQ* q) { q->~NQ(); }
void nq_push(NQ* q, U* u, std::size_t p) { q->push(std::move(*u), p); }
void nq_push_copy(NQ* q, U* u, std::size_t p) { q->push(*u, p); }
void nq_push_task(NQ* q, T* u, std::size_t p) { q->push(std::move(*u), p); }
bool nq_try_push(NQ* q, U* u, std::size_t p) { return q->try_push(std::move(*u), p); }
bool nq_try_push_copy(NQ* q, U* u, std::size_t p) { return q->try_push(*u, p); }
bool nq_try_push_task(NQ* q, T* u, std::size_t p) { return q->try_push(std::move(*u), p); }
void nq_try_pop(NQ* q, T* out) { new (out) T(q->try_pop()); }
bool nq_pop(NQ* q, T* out) { auto r = q->pop(); new (out) T(std::move(r.second)); return r.first; }
bool nq_wake(NQ* q) { return q->wake(); }
void nq_done(NQ* q) { q->done(); }
void w_new(W* w) { new (w) W(); }
bool w_wait(W* w) { return w->wait(); }
bool w_wake(W* w) { return w->wake(); }
void w_done(W* w) { w->done(); }
void pt_execute0(PTS* p, U* u) { p->execute<0>(std::move(*u)); }
void pt_execute1(PTS* p, U* u) { p->execute<1>(std::move(*u)); }
void pt_execute2(PTS* p, U* u) { p->execute<2>(std::move(*u)); }
void pt_execute_copy(PTS* p, U* u) { p->execute<1>(*u); }
void pt_execute_task(PTS* p, T* u) { p->execute<2>(std::move(*u)); }
void pt_run(PTS* p, unsigned i) { p->run(i); }
void pt_add(PTS* p) { p->add_thread(); }
void pt_join(PTS* p) { p->join(); }
bool pt_wake(PTS* p) { return p->wake(); }
void x_high(U* u) { stlab::high_executor(std::move(*u)); }
void x_default(U* u) { stlab::default_executor(std::move(*u)); }
void x_low(U* u) { stlab::low_executor(std::move(*u)); }
unsigned long pool_off(int k) { switch (k) {
  case 0: return sizeof(NQ); case 1: return __builtin_offsetof(NQ, _mutex); case 2: return __builtin_offsetof(NQ, _q); case 3: return __builtin_offsetof(NQ, _count); case 4: return __builtin_offsetof(NQ, _done); case 5: return __builtin_offsetof(NQ, _waiting);
  case 6: return sizeof(NQ::element_t); case 7: return __builtin_offsetof(NQ::element_t, _priority); case 8: return __builtin_offsetof(NQ::element_t, _task); case 9: return sizeof(T);
  case 10: return sizeof(W); case 11: return __builtin_offsetof(W, _mutex); case 12: return __builtin_offsetof(W, _waiting); case 13: return __builtin_offsetof(W, _done);
  case 14: return sizeof(PTS); case 15: return __builtin_offsetof(PTS, _count); case 16: return __builtin_offsetof(PTS, _q); case 17: return __builtin_offsetof(PTS, _index); case 18: return __builtin_offsetof(PTS, _threads); case 19: return __builtin_offsetof(PTS, _waiters); case 20: return __builtin_offsetof(PTS, _thread_limit); case 21: return __builtin_offsetof(PTS, _mutex); case 22: return sizeof(std::thread);
  } return 0; }
}
