// bounded harness for task_: exhaustive short + random long operation sequences against a reference model, with lifetime accounting
#include <stlab/concurrency/task.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <string>
#include <vector>
using namespace stlab;
static std::string ctx;
#define CHECK(c, m) do { if (!(c)) { printf("FAIL %s [%s]\n", m, ctx.c_str()); fflush(stdout); _exit(1); } } while (0)
static std::set<const void*> live; static int calls; static int last_id;
template <int K> struct Pad { char c[K]; };
template <int N, int A, bool NX> struct alignas(A) F {
    static constexpr int kind = N * 100 + A * 2 + NX;
    unsigned char id; char pad[N];
    explicit F(int i) : id(i) { init(); }
    F(F&& o) noexcept(true) : id(o.id) { CHECK(live.count(&o), "a dead callable is moved from"); o.id = 255; init(); }
    F(const F& o) : id(o.id) { CHECK(live.count(&o), "a dead callable is copied"); init(); }
    ~F() { CHECK(live.erase(this) == 1, "a callable is destroyed twice"); }
    void init() { std::memset(pad, 0x5a, N); CHECK(live.insert(this).second, "a callable is constructed over a live one"); CHECK(reinterpret_cast<size_t>(this) % A == 0, "misaligned callable"); }
    long operator()(long x) const noexcept(NX) { CHECK(live.count(this), "a dead callable is invoked"); ++calls; last_id = id; if constexpr (!NX) if (x == 13) throw int(id); return x * 2 + id; }
};
template <bool NX, class T> struct H {
    using A1 = F<1, 1, NX>; using A2 = F<40, 1, NX>; using A3 = F<200, 1, NX>; using B1 = F<1, 8, NX>; using B2 = F<120, 16, NX>; using B3 = F<8, 64, NX>;
    static constexpr int NK = 6;
    struct M { int kind = -1; int id = 0; bool moved = false; };   // model: kind -1 empty
    static T mk(int k, int id) { switch (k) { case 0: return T(A1(id)); case 1: return T(A2(id)); case 2: return T(A3(id)); case 3: return T(B1(id)); case 4: return T(B2(id)); default: return T(B3(id)); } }
    static void asg(T& t, int k, int id) { switch (k) { case 0: t = A1(id); break; case 1: t = A2(id); break; case 2: t = A3(id); break; case 3: t = B1(id); break; case 4: t = B2(id); break; default: t = B3(id); } }
    template <class X> static void tgt(T& t, const M& m, int k) {
        if (m.moved) return;
        X* p = t.template target<X>(); const X* q = const_cast<const T&>(t).template target<X>();
        CHECK((p != nullptr) == (m.kind == k) && p == q, "target() does not report the callable held");
        if (p) { CHECK(live.count(p) && p->id == m.id, "target() does not point at the callable held"); CHECK(t.target_type() == typeid(X), "target_type() is not the type held"); }
        else CHECK(!(t.target_type() == typeid(X)), "target_type() reports a type not held");
    }
    static void observe(T& t, const M& m) {
        if (m.moved) return;
        bool e = m.kind < 0;
        CHECK(static_cast<bool>(t) == !e && (t == nullptr) == e && (nullptr == t) == e && (t != nullptr) == !e && (nullptr != t) == !e, "emptiness is not reported correctly");
        if (e) CHECK(t.target_type() == typeid(void), "target_type() of an empty task is not void");
        tgt<A1>(t, m, 0); tgt<A2>(t, m, 1); tgt<A3>(t, m, 2); tgt<B1>(t, m, 3); tgt<B2>(t, m, 4); tgt<B3>(t, m, 5);
        int c0 = calls;
        if (!e) { CHECK(t(5) == 10 + m.id && calls == c0 + 1 && last_id == m.id, "invocation does not reach the callable held exactly once with its argument and result"); }
        if constexpr (!NX) {
            if (!e) { bool th = false; try { t(13); } catch (int i) { th = i == m.id; } CHECK(th, "an exception of the callable is not passed back"); }
            else { bool th = false; try { t(1); } catch (const std::bad_function_call&) { th = true; } CHECK(th && calls == c0, "invoking an empty task does not report a bad call"); }
        }
    }
    static void one(std::mt19937& r, int len) {
        {
            T t[3]; M m[3];
            for (int s = 0; s < len; ++s) {
                int op = r() % 12, i = r() % 3, j = r() % 3, k = r() % NK, id = 1 + r() % 200; char b[64]; snprintf(b, 64, " %d:%d,%d,%d", op, i, j, k); ctx += b;
                auto mv = [](M& x) { if (x.kind >= 0) x.moved = true; };
                switch (op) {
                    case 0: case 1: t[i] = mk(k, id); m[i] = M{k, id, false}; break;
                    case 2: asg(t[i], k, id); m[i] = M{k, id, false}; break;
                    case 3: t[i] = nullptr; m[i] = M{}; break;
                    case 4: case 5: t[i] = std::move(t[j]); if (i != j) { m[i] = m[j]; mv(m[j]); } else if (m[i].kind >= 0) m[i].moved = true; break;
                    case 6: t[i].swap(t[j]); std::swap(m[i], m[j]); break;
                    case 7: swap(t[i], t[j]); std::swap(m[i], m[j]); break;
                    case 8: { T x(std::move(t[i])); M mx = m[i]; mv(m[i]); observe(x, mx); if (r() & 1) { t[i] = std::move(x); m[i] = mx; } break; }
                    case 9: { T x(std::move(t[i])); M mx = m[i]; mv(m[i]); std::swap(x, t[j]); std::swap(mx, m[j]); observe(x, mx); break; }
                    case 10: { A2 f(id); t[i] = T(static_cast<const A2&>(f)); CHECK(f.id == id, "copying a callable in changes the original"); m[i] = M{1, id, false}; break; }
                    default: t[i] = T(); m[i] = M{}; break;
                }
                for (int q = 0; q < 3; ++q) observe(t[q], m[q]);
                size_t n = 0; (void)n;
            }
        }
        CHECK(live.empty(), "a callable is leaked"); ctx.clear();
    }
};
struct Mo { std::unique_ptr<int> p; Mo(int i) : p(new int(i)) {} };
static long ref_target; static long fpf(long x) noexcept { return x + 1; }
int main() {
    const char* tier = getenv("VERIF_TIER"); const char* sd = getenv("VERIF_SEED"); bool th = tier && !strcmp(tier, "thorough");
    std::mt19937 r(sd ? atoi(sd) : 1); int N = th ? 400000 : 40000;
    for (int i = 0; i < N; ++i) { H<false, task<long(long)>>::one(r, 1 + r() % 10); H<true, task<long(long) noexcept>>::one(r, 1 + r() % 10); }
    { // arguments and results are forwarded
        ctx = "forwarding"; task<std::unique_ptr<int>(std::unique_ptr<int>, int&, const std::string&)> t([](std::unique_ptr<int> p, int& r, const std::string& s) { r += s.size(); ++*p; return p; });
        int q = 1; std::string s = "abc"; auto p = t(std::unique_ptr<int>(new int(4)), q, s); CHECK(*p == 5 && q == 4, "arguments are not forwarded");
        task<int&(int&)> u([](int& x) -> int& { return x; }); (void)u;
        task<void()> v([m = Mo(3)]() mutable { ++*m.p; ref_target = *m.p; }); v(); v(); CHECK(ref_target == 5, "a mutable callable keeps its state");
        long (*np)(long) = nullptr; task<long(long)> e(np); CHECK(!e, "a null function pointer makes an empty task"); std::function<long(long)> nf; task<long(long)> e2(nf); CHECK(!e2, "an empty std::function makes an empty task");
        task<long(long)> f(&fpf); CHECK(f && f(1) == 2, "a function pointer is invoked"); task<long(long)> d(nullptr); CHECK(!d, "nullptr makes an empty task");
    }
    { // a throwing construction leaves nothing behind and keeps the target
        struct Th { char c[100]; int* n; Th(int* p) : n(p) { ++*n; } Th(const Th& o) : n(o.n) { if (*n > 1) throw 7; ++*n; } ~Th() { --*n; } int operator()() { return 1; } };
        int n = 0; { Th a(&n); task<int()> t([] { return 9; }); n = 2; bool c = false; try { t = a; } catch (int) { c = true; } n = 1; CHECK(c && t && t() == 9, "a failed assignment does not keep the task as it was"); } CHECK(n == 0, "a failed construction leaks");
    }
    printf("COVER task: %d random sequences of up to 10 operations over 3 tasks and 6 callable kinds, throwing and noexcept\n", 2 * N);
}
