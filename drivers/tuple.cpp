#include <stlab/concurrency/tuple_algorithm.hpp>
#include <stlab/utility.hpp>
using namespace stlab;
template <int K> struct E { long v; E(const E&); E(E&&) noexcept; ~E(); };
template <class> struct MK;
template <size_t... I> struct MK<std::index_sequence<I...>> { using type = std::tuple<E<I>...>; };
template <int N> using Tp = typename MK<std::make_index_sequence<N>>::type;
extern "C" { bool o_pred(const void*); void o_each(void*); long o_get(void*); long o_args(void*, void*, void*, void*); long o_vals(long, long, long); void o_arg(void*); }
struct Pred { template <class T> bool operator()(const T& x) { return o_pred(&x); } };
struct Each { template <class T> void operator()(T& x) { o_each(&x); } };
struct Get { template <class T> long operator()(T& x) { return o_get(&x); } };
#define FOR(N) \
extern "C" { \
unsigned long find_##N(const Tp<N>& t) { return tuple_find(t, Pred{}); } \
void each_##N(Tp<N>& t) { tuple_for_each(t, Each{}); } \
long geti_##N(Tp<N>& t, unsigned long i, long d) { return get_i(t, i, Get{}, d); } \
void voidi_##N(Tp<N>& t, unsigned long i) { void_i(t, i, Each{}); } \
}
FOR(1) FOR(2) FOR(3) FOR(5) FOR(8)
extern "C" {
unsigned long find_0(const std::tuple<>& t) { return tuple_find(t, Pred{}); }
void each_0(std::tuple<>& t) { tuple_for_each(t, Each{}); }
long geti_0(std::tuple<>& t, unsigned long i, long d) { return get_i(t, i, Get{}, d); }
void voidi_0(std::tuple<>& t, unsigned long i) { void_i(t, i, Each{}); }
}
#define AT(N, I) extern "C" void* at_##N##_##I(Tp<N>& t) { return &std::get<I>(t); }
AT(1,0) AT(2,0) AT(2,1) AT(3,0) AT(3,1) AT(3,2) AT(5,0) AT(5,1) AT(5,2) AT(5,3) AT(5,4) AT(8,0) AT(8,1) AT(8,2) AT(8,3) AT(8,4) AT(8,5) AT(8,6) AT(8,7)
extern "C" {
long app_all(Tp<3>& t) { return apply_ignore_placeholders([](auto&&... x) { static_assert(sizeof...(x) == 3); void* a[] = {&x...}; return o_args(a[0], a[1], a[2], nullptr); }, std::move(t)); }
long app_idx(Tp<5>& t) { return apply_indexed<std::index_sequence<3, 0, 4>>([](auto&... x) { static_assert(sizeof...(x) == 3); void* a[] = {&x...}; return o_args(a[0], a[1], a[2], nullptr); }, t); }
long app_idx_none(Tp<5>& t) { return apply_indexed<std::index_sequence<>>([](auto&... x) { static_assert(sizeof...(x) == 0); return o_args(nullptr, nullptr, nullptr, nullptr); }, t); }
using OT = std::tuple<std::optional<long>, std::optional<placeholder>, std::optional<long>, std::optional<long>>;
using Seq = index_sequence_transform_t<std::make_index_sequence<4>, remove_placeholder<OT>::function>;
void opt_set(OT& t, long a, long b, long c) { std::get<0>(t) = a; std::get<2>(t) = b; std::get<3>(t) = c; }
unsigned long opt_size() { return sizeof(OT); }
void opt_init(void* p) { new (p) OT(); }
long app_opt(OT& t) { return detail::apply_optional_indexed<Seq>([](long a, long b, long c) { return o_vals(a, b, c); }, t); }
void each_arg(E<0>& a, E<1>& b, E<2>& c) { for_each_argument([](auto& x) { o_arg(&x); }, a, b, c); }
void each_arg0() { for_each_argument([](auto& x) { o_arg(&x); }); }
void* mv_if_t(E<0>& a) { auto&& r = move_if<true>(a); static_assert(std::is_same_v<decltype(r), E<0>&&>); return &r; }
void* mv_if_f(E<0>& a) { auto&& r = move_if<false>(a); static_assert(std::is_same_v<decltype(r), E<0>&>); return &r; }
void* mv(E<0>& a) { auto&& r = stlab::move(a); static_assert(std::is_same_v<decltype(r), E<0>&&>); return &r; }
void cp(void* out, E<0>& a) { new (out) E<0>(stlab::copy(a)); }
}
static_assert(std::is_same_v<Seq, std::index_sequence<0, 2, 3>>);
static_assert(std::is_same_v<voidless_tuple<int, void, long>, std::tuple<int, long>>);
static_assert(std::is_same_v<placeholder_tuple<int, void, long>, std::tuple<int, placeholder, long>>);
static_assert(std::is_same_v<optional_placeholder_tuple<int, void>, std::tuple<std::optional<int>, std::optional<placeholder>>>);
static_assert(std::is_same_v<index_sequence_cat_t<std::index_sequence<4, 1>, std::index_sequence<7>>, std::index_sequence<4, 1, 7>>);
