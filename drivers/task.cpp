#include <stlab/concurrency/task.hpp>
#include <new>
using namespace stlab;
// opaque callables: one fits the small buffer, one does not; every special member is an assumed contract
template <int K, int N> struct alignas(K == 0 || K == 2 ? 1 : 8) C {
    char v[8 * N];
    C(C&&); C(const C&); ~C();
    long operator()(long);
};
template <int K, int N> struct alignas(K == 0 || K == 2 ? 1 : 8) CN {
    char v[8 * N];
    CN(CN&&) noexcept; CN(const CN&); ~CN();
    long operator()(long) const noexcept;
};
using S = C<0, 1>; using L = C<1, 16>; using S2 = C<2, 3>; using L2 = C<3, 9>; // S, S2: stored in place (alignment 1); L, L2: on the heap
using SN = CN<0, 1>; using LN = CN<1, 16>; using S2N = CN<2, 3>; using L2N = CN<3, 9>;
#define OPS(P, T, S, L, S2, L2) \
extern "C" { \
void P##_ctor_default(void* t) { new (t) T(); } \
void P##_ctor_null(void* t) { new (t) T(nullptr); } \
void P##_ctor_S(void* t, S& f) { new (t) T(std::move(f)); } \
void P##_ctor_L(void* t, L& f) { new (t) T(std::move(f)); } \
void P##_ctor_S2(void* t, S2& f) { new (t) T(std::move(f)); } \
void P##_ctor_L2(void* t, L2& f) { new (t) T(std::move(f)); } \
void P##_copy_S(void* t, const S& f) { new (t) T(f); } \
void P##_copy_L(void* t, const L& f) { new (t) T(f); } \
void P##_assign_S(T& t, S& f) { t = std::move(f); } \
void P##_assign_L(T& t, L& f) { t = std::move(f); } \
void P##_assign_null(T& t) { t = nullptr; } \
void P##_move(void* t, T& x) { new (t) T(std::move(x)); } \
void P##_move_assign(T& t, T& x) { t = std::move(x); } \
void P##_self_assign(T& t) { t = std::move(t); } \
void P##_swap(T& t, T& x) { t.swap(x); } \
void P##_fswap(T& t, T& x) { swap(t, x); } \
void P##_dtor(T& t) { t.~T(); } \
bool P##_bool(const T& t) { return static_cast<bool>(t); } \
bool P##_eqnull(const T& t) { return t == nullptr; } \
bool P##_eqnull2(const T& t) { return nullptr == t; } \
bool P##_nenull(const T& t) { return t != nullptr; } \
bool P##_nenull2(const T& t) { return nullptr != t; } \
long P##_invoke(T& t, long a) { return t(a); } \
const std::type_info* P##_type(const T& t) { return &t.target_type(); } \
const std::type_info* P##_typeid_void() { return &typeid(void); } \
const std::type_info* P##_typeid_S() { return &typeid(S); } \
const std::type_info* P##_typeid_L() { return &typeid(L); } \
void* P##_target_S(T& t) { return t.template target<S>(); } \
void* P##_target_L(T& t) { return t.template target<L>(); } \
const void* P##_ctarget_S(const T& t) { return t.template target<S>(); } \
const void* P##_ctarget_L(const T& t) { return t.template target<L>(); } \
unsigned long P##_size() { return sizeof(T); } \
}
using T = task<long(long)>; using TN = task<long(long) noexcept>;
OPS(t, T, S, L, S2, L2)
OPS(n, TN, SN, LN, S2N, L2N)
using FP = long (*)(long);
extern "C" void t_ctor_fp(void* t, FP f) { new (t) T(f); }
extern "C" void* t_target_fp(T& t) { return t.target<FP>(); }
// forwarding of arguments
struct Arg { long v; Arg(Arg&&) noexcept; ~Arg(); };
struct CA { long v; CA(CA&&) noexcept; ~CA(); long operator()(Arg, long&); };
using TA = task<long(Arg, long&)>;
extern "C" void a_ctor(void* t, CA& f) { new (t) TA(std::move(f)); }
extern "C" long a_invoke(TA& t, Arg& a, long& r) { return t(std::move(a), r); }
