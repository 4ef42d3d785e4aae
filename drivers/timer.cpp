// driver for C08: the real portable system timer with opaque tasks
#include <stlab/concurrency/system_timer.hpp>
#include <new>
using S = stlab::detail::system_timer; using T = stlab::task<void() noexcept>; using E = S::element_t; using namespace std::chrono;
struct U { unsigned long id; U(U&&) noexcept; U(const U&) noexcept; ~U(); void operator()() noexcept; void operator()() const noexcept; };
extern "C" {
void st_run(S* s) { s->timed_queue_run(); }
void st_stop(S* s) { s->~S(); }
void st_push_ns(S* s, long d, U* u) { (*s)(nanoseconds(d), std::move(*u)); }
void st_push_ms(S* s, long d, U* u) { (*s)(milliseconds(d), std::move(*u)); }
void st_push_s(S* s, long d, U* u) { (*s)(seconds(d), std::move(*u)); }
void st_push_task(S* s, long d, T* u) { (*s)(nanoseconds(d), std::move(*u)); }
void st_push_when(S* s, long w, U* u) { (*s)(steady_clock::time_point(nanoseconds(w)), std::move(*u)); }
void x_push_ns(long d, T* u) { stlab::system_timer(nanoseconds(d), std::move(*u)); }
void x_push_ms(long d, T* u) { stlab::system_timer(milliseconds(d), std::move(*u)); }
void x_push_when(long w, T* u) { stlab::system_timer(steady_clock::time_point(nanoseconds(w)), std::move(*u)); }
unsigned long timer_off(int k) { switch (k) {
  case 0: return sizeof(S); case 1: return __builtin_offsetof(S, _timed_queue_mutex); case 2: return __builtin_offsetof(S, _timed_queue); case 3: return __builtin_offsetof(S, _stop);
  case 4: return sizeof(E); case 5: return __builtin_offsetof(E, first); case 6: return __builtin_offsetof(E, second); case 7: return sizeof(T); case 8: return __builtin_offsetof(S, _timed_queue_thread);
  } return 0; }
}
