#undef NDEBUG
#include <src/pre_exit.cpp>
#include <cstddef>
extern "C" {
unsigned long pe_size() { return sizeof(stlab::pre_exit_stack_t); }
unsigned long pe_off_mutex() { return offsetof(stlab::pre_exit_stack_t, _mutex); }
unsigned long pe_off_stack() { return offsetof(stlab::pre_exit_stack_t, _stack); }
unsigned long pe_off_closed() { return offsetof(stlab::pre_exit_stack_t, _closed); }
void pe_dtor(stlab::pre_exit_stack_t& s) { s.~pre_exit_stack_t(); }
void pe_at(stlab::pre_exit_handler f) { stlab::at_pre_exit(f); }
void pe_exit() { stlab::pre_exit(); }
}
