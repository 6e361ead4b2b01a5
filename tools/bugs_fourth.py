S = 'src/pigro/'
BUGS = {}

BUGS['static-changed'] = dict(
    property='L05',
    needs='two objects that are called on different threads: one evaluates its dependencies while the other one stores its result',
    what='the change of a dependency of one object is taken for a change of a dependency of another one, or gets lost',
    edits=[(S + 'lazy.h', '''        const auto args = std::tuple{ deps(nullptr)... };

        auto changed = !cache || any(args, is_changed);
''', '''        const auto args = std::tuple{ deps(nullptr)... };

        static bool changed;
        changed = !cache || any(args, is_changed);
'''), (S + 'lazy.h', '''        return LazyResult{
            *cache,
            changed,
        };
    };
}

constexpr auto lazy_value''', '''        const auto result_changed = changed;
        return LazyResult{
            *cache,
            result_changed,
        };
    };
}

constexpr auto lazy_value''')],
    demo='''
#include "pigro/lazy.h"
#include <atomic>
#include <thread>
std::atomic<int> step{ 0 };
struct Source {
    int *x;
    int operator()() const { return *x; }
};
struct Slow { // putting it somewhere takes a while
    int x;
    bool wait;
    Slow(int x, bool wait) : x{ x }, wait{ wait } {}
    Slow(const Slow &) = default;
    Slow &operator=(const Slow &o) {
        if (o.wait) {
            step = 1;
            while (step < 2) std::this_thread::yield();
        }
        x = o.x;
        wait = o.wait;
        return *this;
    }
    bool operator==(const Slow &o) const { return x == o.x; }
};
struct F {
    bool *wait;
    Slow operator()(int v) const { return { v, *wait }; }
};
struct G {
    int *n;
    int operator()(Slow s) const { return ++*n, s.x; }
};
int main() {
    int x = 1, y = 1, n = 0, m = 0;
    bool wx = false, wy = false;
    auto a = pigro::lazy(G{ &n }, pigro::lazy(F{ &wx }, Source{ &x }));
    auto b = pigro::lazy(G{ &m }, pigro::lazy(F{ &wy }, Source{ &y }));
    CHECK(a() == 1 && b() == 1 && n == 1 && m == 1);
    x = 2;
    wx = true;
    int r = 0;
    std::thread s{ [&] { r = a(); } };
    while (step < 1) std::this_thread::yield();
    CHECK(b() == 1 && m == 1);
    step = 2;
    s.join();
    CHECK(r == 2 && n == 2);
}
''')


BUGS['bound-bound-copied'] = dict(
    property='K24',
    needs='a recursive or bound function with state, to which a tuple is bound with >>, called more than once',
    what='each call works on a copy of it: its state is lost',
    edits=[(S + 'bind_tuple.h', '''        return pigro::apply(bind_back(f, FWD(args)...), t);''', '''        if constexpr (requires { typename std::remove_cvref_t<decltype(f)>::recursive; })
            return pigro::apply(bind_back(std::remove_cvref_t<decltype(f)>{ f }, FWD(args)...), t);
        else
            return pigro::apply(bind_back(f, FWD(args)...), t);''')],
    demo='''
#include "pigro/bind_tuple.h"
#include "pigro/recursive.h"
using pigro::operator>>;
int main() {
    auto f = std::tuple{ 1 } >> pigro::recursive{ [n = 0](auto &&, int a, int b) mutable { return 100 * ++n + 10 * a + b; } };
    CHECK(f(2) == 112);
    CHECK(f(2) == 212);
    auto g = std::tuple{ 1 } >> [n = 0](int a, int b) mutable { return 100 * ++n + 10 * a + b; };
    CHECK(g(2) == 112 && g(2) == 212);
}
''')

BUGS['regular-already'] = dict(
    property='K24',
    needs='regularized_void of a function that is a binding or recursive itself, and returns void',
    what='it returns void',
    edits=[(S + 'regular_void.h', '''constexpr auto regularized_void(auto f) {
''', '''// already regular, or bound to
constexpr auto regularized_void(auto f) requires(requires { typename decltype(f)::recursive; }) {
    return f;
}

constexpr auto regularized_void(auto f) {
''')],
    demo='''
#include "pigro/regular_void.h"
#include "pigro/recursive.h"
int main() {
    auto f = pigro::regularized_void(pigro::recursive{ [](auto &&, int) {} });
    CHECK(std::is_same_v<decltype(f(1)), pigro::regular_void>);
    auto g = pigro::regularized_void([](int) {});
    CHECK(std::is_same_v<decltype(g(1)), pigro::regular_void>);
    auto h = pigro::regularized_void(pigro::regularized_void([](int) {}));
    CHECK(std::is_same_v<decltype(h(1)), pigro::regular_void>);
}
''')

BUGS['uncaptured-within'] = dict(
    property='K24',
    needs='an uncaptured value on top of a function with uncaptured values itself, with state in the innermost function or its values',
    what='the function inside is called on a copy: what it does to its state is lost',
    edits=[(S + 'uncapture.h', '''    auto operator()(Args &&...args)
      SFINAEABLE_RETURN(F::operator()(std::forward<decltype(args)>(args)..., U::get_value()));''', '''    auto operator()(Args &&...args)
      SFINAEABLE_RETURN(F::operator()(std::forward<decltype(args)>(args)..., U::get_value()));

    template<typename... Args>
        requires(requires { typename F::U; } && sizeof...(Args) == 0)
    auto operator()(Args &&...args)
      SFINAEABLE_RETURN(F{ *this }(std::forward<decltype(args)>(args)..., U::get_value()));''')],
    demo='''
#include "pigro/uncapture.h"
int main() {
    auto f = pigro::uncaptured(1) >> (pigro::uncaptured(2) >> [n = 0](int a, int b) mutable { return 100 * ++n + 10 * a + b; });
    CHECK(f() == 112);
    CHECK(f() == 212);
}
''')

BUGS['bound-dependency'] = dict(
    property='K24',
    needs='a lazy function one of whose dependencies is a function made by another construct (binding, recursive function), with state',
    what='the dependency is called on a copy: its state is lost',
    edits=[(S + 'lazy.h', '''constexpr auto ensure_lazy(::std::invocable auto dep) {
''', '''constexpr auto ensure_lazy(::std::invocable auto dep)
    requires(requires { typename decltype(dep)::recursive; } && !concepts::lazy_function_unwrapped<decltype(dep)>)
{
    return detail::lazy_core(
      [dep](auto) { return decltype(dep){ dep }(); },
      lazy_value(std::true_type{}, std::true_type{}));
}

constexpr auto ensure_lazy(::std::invocable auto dep) {
''')],
    demo='''
#include "pigro/lazy.h"
int main() {
    auto r = pigro::recursive{ [n = 0](auto &&) mutable { return ++n; } };
    auto l = pigro::lazy([](int x) { return x; }, r);
    CHECK(l() == 1);
    CHECK(l() == 2);
    auto p = pigro::lazy([](int x) { return x; }, [n = 0]() mutable { return ++n; });
    CHECK(p() == 1 && p() == 2);
}
''')
