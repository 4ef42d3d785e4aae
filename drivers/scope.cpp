#include <stlab/scope.hpp>
#include <stlab/concurrency/progress.hpp>
#include <new>
struct Res { long v; Res(); Res(long, long*); Res(const Res&) = delete; ~Res(); };
struct Result { long v; Result(Result&&) noexcept; Result(const Result&); ~Result(); };
extern "C" { long o_body(); void o_vbody(); }
struct Body { Result operator()(); };
struct LBody { long operator()() { return o_body(); } };
extern "C" {
void sc_args(void* out, Body& f, long a, long* b) { new (out) Result(stlab::scope<Res>(a, b, f)); }
void sc_noargs(void* out, Body& f) { new (out) Result(stlab::scope<Res>(f)); }
long sc_plain(long a, long* b) { return stlab::scope<Res>(a, b, []() { return o_body(); }); }
void sc_void(long a, long* b) { stlab::scope<Res>(a, b, []() { o_vbody(); }); }
long sc_lock_guard(std::mutex& m) { return stlab::scope<std::lock_guard<std::mutex>>(m, LBody{}); }
long sc_unique(std::mutex& m) { return stlab::scope<std::unique_lock<std::mutex>>(m, []() { return o_body(); }); }
long sc_scoped(std::mutex& m) { return stlab::scope<std::scoped_lock<std::mutex>>(m, []() { return o_body(); }); }
void sc_lock_void(std::mutex& m) { stlab::scope<std::unique_lock<std::mutex>>(m, []() { o_vbody(); }); }
long sc_adopt(std::mutex& m) { return stlab::scope<std::unique_lock<std::mutex>>(m, std::adopt_lock, []() { return o_body(); }); }
// progress
struct Fn { char b[16]; Fn(Fn&&) noexcept; Fn(const Fn&); Fn& operator=(const Fn&); Fn& operator=(Fn&&) noexcept; ~Fn(); long operator()(long) const; };
using Tr = stlab::progress_tracker; using Cl = stlab::detail::tracker_client<Fn>;
unsigned long pr_tsize() { return sizeof(Tr); }
unsigned long pr_csize() { return sizeof(Cl); }
void pr_ctor(void* p) { new (p) Tr(); }
void pr_ctor_sig(void* p, std::function<void(size_t, size_t)>& f) { new (p) Tr(std::move(f)); }
void pr_dtor(Tr& t) { t.~Tr(); }
void pr_copy(void* p, Tr& t) { new (p) Tr(t); }
unsigned long pr_steps(const Tr& t) { return t.steps(); }
unsigned long pr_completed(const Tr& t) { return t.completed(); }
void pr_set(Tr& t, unsigned long a, unsigned long b) { t._tracker->_task_number = a; t._tracker->_done_tasks = b; }
void pr_wrap(void* out, Tr& t, Fn& f) { new (out) Cl(t(std::move(f))); }
void cl_copy(void* out, const Cl& c) { new (out) Cl(c); }
void cl_move(void* out, Cl& c) { new (out) Cl(std::move(c)); }
void cl_assign(Cl& a, const Cl& b) { a = b; }
void cl_move_assign(Cl& a, Cl& b) { a = std::move(b); }
void cl_self(Cl& a) { a = a; }
void cl_dtor(Cl& c) { c.~Cl(); }
long cl_call(const Cl& c, long x) { return c(x); }
bool fn_set(std::function<void(size_t, size_t)>* p, void (*q)(size_t, size_t)) { new (p) std::function<void(size_t, size_t)>(q); return true; }
}
