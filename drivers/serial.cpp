// driver for C07: instantiates the real serial queue with opaque tasks and an opaque executor
#include <stlab/concurrency/serial_queue.hpp>
#include <new>
using stlab::serial_queue_t; using stlab::schedule_mode; using SI = stlab::detail::serial_instance_t; using T = stlab::task<void() noexcept>;
struct U { unsigned long id; U(U&&) noexcept; U(const U&) noexcept; ~U(); void operator()() noexcept; void operator()() const noexcept; };
extern "C" void o_exec(void*) noexcept;
struct E { unsigned long id; template <class F> void operator()(F&& f) const { T t(std::forward<F>(f)); o_exec(&t); } };
extern "C" {
void sq_new(serial_queue_t* q, bool all) { new (q) serial_queue_t(E{7}, all ? schedule_mode::all : schedule_mode::single); }
void sq_new_default(serial_queue_t* q) { new (q) serial_queue_t(E{7}); }
void sq_submit(const serial_queue_t* q, U* u) { q->executor()(std::move(*u)); }
void sq_submit_copy(const serial_queue_t* q, U* u) { q->executor()(*u); }
void sq_submit_task(const serial_queue_t* q, T* t) { q->executor()(std::move(*t)); }
void sq_destroy(serial_queue_t* q) { q->~serial_queue_t(); }
void sq_copy(serial_queue_t* d, const serial_queue_t* s) { new (d) serial_queue_t(*s); }
void sq_take(T* d, T* s) { new (d) T(std::move(*s)); }
void sq_run(T* t) { (*t)(); t->~T(); }
unsigned long sq_off(int k) { switch (k) { case 0: return sizeof(SI); case 1: return __builtin_offsetof(SI, _m); case 2: return __builtin_offsetof(SI, _running); case 3: return __builtin_offsetof(SI, _queue); case 4: return sizeof(T); case 5: return sizeof(std::deque<T>); } return 0; }
SI* sq_impl(const serial_queue_t* q) { return q->_impl.get(); }
}
