#include <stlab/concurrency/tuple_algorithm.hpp>
#include <stlab/utility.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
using namespace stlab;
#define CHECK(c, m) do { if (!(c)) { printf("FAIL %s (n=%d case %d)\n", m, n, k); exit(1); } } while (0)
template <size_t... I> auto mk(std::index_sequence<I...>) { return std::make_tuple(std::pair<std::integral_constant<int, I>, int>{{}, int(I)}...); }
template <int n> void go() {
    auto t = mk(std::make_index_sequence<n>());
    for (int k = -1; k <= n + 1; ++k) {
        std::vector<int> seen; auto r = tuple_find(t, [&](const auto& x) { seen.push_back(x.second); return x.second == k; });
        bool hit = k >= 0 && k < n; if constexpr (n > 0) CHECK(r == size_t(hit ? k : n), "tuple_find result"); else CHECK(r >= 0 + size_t(n), "tuple_find empty");
        CHECK((int)seen.size() == (hit ? k + 1 : n), "tuple_find call count"); for (size_t i = 0; i < seen.size(); ++i) CHECK(seen[i] == (int)i, "tuple_find order");
        if (k >= 0) { int c = 0; int g = get_i(t, size_t(k), [&](auto& x) { ++c; return x.second * 3 + 1; }, -7); CHECK(g == (hit ? k * 3 + 1 : -7) && c == (hit ? 1 : 0), "get_i");
            c = 0; int got = -1; void_i(t, size_t(k), [&](auto& x) { ++c; got = x.second; }); CHECK(c == (hit ? 1 : 0) && got == (hit ? k : -1), "void_i"); }
    }
    int k = 0; std::vector<int> seen; tuple_for_each(t, [&](auto& x) { seen.push_back(x.second); }); CHECK((int)seen.size() == n, "tuple_for_each count"); for (int i = 0; i < n; ++i) CHECK(seen[i] == i, "tuple_for_each order");
    // first of several matches
    for (k = 0; k < (1 << n); ++k) { int first = n; for (int i = n - 1; i >= 0; --i) if (k >> i & 1) first = i; auto r = tuple_find(t, [&](const auto& x) { return (k >> x.second) & 1; }); if constexpr (n > 0) CHECK((int)r == first, "tuple_find first match"); }
    tuple_for_each(t, [&](auto& x) { x.second += 10; }); unsigned s = 0; tuple_for_each(t, [&](auto& x) { s = s * 31 + x.second; }); unsigned e = 0; for (int i = 0; i < n; ++i) e = e * 31 + i + 10; CHECK(s == e, "tuple_for_each works on the elements themselves");
}
int main() {
    go<0>(); go<1>(); go<2>(); go<3>(); go<4>(); go<7>();
    int n = 0, k = 0;
    { std::tuple<int, std::string, int> t(1, "b", 3); auto s = apply_ignore_placeholders([](int a, const std::string& b, int c) { return std::to_string(a) + b + std::to_string(c); }, std::move(t)); CHECK(s == "1b3", "apply_ignore_placeholders");
      t = std::make_tuple(1, std::string("b"), 3); CHECK((apply_indexed<std::index_sequence<2, 0>>([](int a, int b) { return a * 10 + b; }, t) == 31), "apply_indexed"); }
    { using OT = optional_placeholder_tuple<std::unique_ptr<int>, void, int, void, std::string>; OT t; std::get<0>(t) = std::make_unique<int>(5); std::get<2>(t) = 6; std::get<4>(t) = "z";
      using Seq = index_sequence_transform_t<std::make_index_sequence<5>, remove_placeholder<OT>::function>; static_assert(std::is_same_v<Seq, std::index_sequence<0, 2, 4>>);
      auto s = detail::apply_optional_indexed<Seq>([](std::unique_ptr<int> a, int b, std::string c) { return std::to_string(*a) + std::to_string(b) + c; }, std::move(t)); CHECK(s == "56z", "apply_optional_indexed"); }
    { std::string s; for_each_argument([&](auto x) { s += std::to_string(x); }, 1, 2, 3, 4); CHECK(s == "1234", "for_each_argument order"); for_each_argument([&](auto) { s = "x"; }); CHECK(s == "1234", "for_each_argument without arguments"); }
    { std::vector<int> v{1, 2}; auto w = stlab::copy(v); CHECK(w == v && w.data() != v.data(), "copy"); auto x = move_if<false>(v); CHECK(v.size() == 2, "move_if<false>"); auto y = move_if<true>(v); CHECK(v.empty() && y.size() == 2, "move_if<true>"); auto z = stlab::move(w); CHECK(w.empty() && z.size() == 2, "move"); }
    printf("COVER tuple algorithms: sizes 0-4 and 7, every index and predicate mask\n");
}
