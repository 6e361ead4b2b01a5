S = 'src/pigro/'
BUGS = {}

BUGS['reentrant-guard'] = dict(
    property='L05',
    needs='a function of one lazy object that calls a copy of that object (which has been called before) while it runs',
    what='the nested call returns the old value of the copy, although its dependency changed',
    edits=[(S + 'lazy.h', '''        const auto guard = reset_on_exception{ cache };
''', '''        // dependencies that lead back here get the current value
        static thread_local bool running = false;
        struct leave {
            bool outer = std::exchange(running, true);
            ~leave() { running = outer; }
        } const scope{};

        if (scope.outer && cache && sizeof...(deps) == 1)
            return LazyResult{ *cache, false };

        const auto guard = reset_on_exception{ cache };
''')],
    demo='''
#include "pigro/lazy.h"
int main() {
    int x = 1;
    bool nested = false;
    std::function<int()> other;
    auto f = [&](int v) {
        if (nested) { nested = false; return 100 * other() + v; }
        return v;
    };
    auto source = [&] { return x; };
    auto a = pigro::lazy(f, source);
    CHECK(a() == 1);
    auto b = a;
    other = [&] { return b(); };
    x = 2;
    nested = true;
    CHECK(a() == 202);
}
''')


BUGS['transform-unwraps'] = dict(
    property='A16',
    needs='a projection that returns a std::reference_wrapper',
    what='the result holds a reference instead of the reference_wrapper',
    edits=[(S + 'tuple_algorithms.h', 'return std::tuple<std::decay_t<decltype(projection(args))>...>{ projection(args)... };', 'return std::tuple<std::unwrap_ref_decay_t<decltype(projection(args))>...>{ projection(args)... };')],
    demo="""
#include "pigro/tuple_algorithms.h"
int main() {
    int x = 1, y = 2;
    auto t = pigro::transform(std::tuple{ 1, 2 }, [&](int i) { return std::ref(i == 1 ? x : y); });
    CHECK(std::is_same_v<decltype(t), std::tuple<std::reference_wrapper<int>, std::reference_wrapper<int>>>);
    auto u = t;
    u = pigro::transform(std::tuple{ 2, 1 }, [&](int i) { return std::ref(i == 1 ? x : y); });
    CHECK(x == 1 && y == 2 && std::get<0>(u) == 2);
}
""")

BUGS['like-volatile'] = dict(
    property='F22',
    needs='forwarding like a volatile type',
    what='the volatile is lost',
    edits=[(S + 'forward_like.h', 'std::is_volatile_v<base_from>', 'std::is_volatile_v<From>')],
    demo="""
#include "pigro/forward_like.h"
int main() {
    CHECK(std::is_same_v<pigro::like_t<volatile int &, char>, volatile char &>);
    CHECK(std::is_same_v<pigro::like_t<const volatile int &&, char>, const volatile char &&>);
}
""")

BUGS['partition-repeated'] = dict(
    property='P19',
    needs='a list in which a type that is kept is the last of what comes before it as well (the same type twice in a row among those kept)',
    what='the repetition is dropped',
    edits=[(S + 'partition.h', """    return typelist<Ts..., Us...>{};
}
""", """    return typelist<Ts..., Us...>{};
}

// lists that are the same need not be joined
template<typename T>
constexpr auto operator+(
  typelist<T>,
  typelist<T, T>) {
    return typelist<T, T>{};
}
""")],
    demo="""
#include "pigro/partition.h"
int main() {
    CHECK(std::is_same_v<pigro::partition_t<std::is_integral, double, int, int, int>, pigro::typelist<int, int, int, double>>);
    CHECK(std::is_same_v<pigro::partition_t<std::is_floating_point, int, int, double, int>, pigro::typelist<double, int, int, int>>);
}
""")

BUGS['empty-nontrivial'] = dict(
    property='T11',
    needs='an element of an empty class that is not trivially copyable',
    what='it takes space',
    edits=[(S + 'compressed_tuple.h', """template<size_t tag, concepts::empty T>
auto compressed_tuple_element(T &&) {""", """template<size_t tag, concepts::empty T>
    requires(std::is_trivially_copyable_v<std::remove_cvref_t<T>>)
auto compressed_tuple_element(T &&) {""")],
    demo="""
#include "pigro/compressed_tuple.h"
struct E { E() {} E(const E &) {} };
int main() {
    CHECK(sizeof(pigro::compressed_tuple<E, int>) == sizeof(int));
}
""")

BUGS['changed-parity'] = dict(
    property='L01',
    needs='an even number of dependencies that change between two calls',
    what='the changes cancel: the call returns the stale value',
    edits=[(S + 'lazy.h', '        auto changed = !cache || any(args, is_changed);', '        auto changed = !cache || std::apply([](const auto &...results) { return (false != ... != results.is_changed); }, args);')],
    demo="""
#include "pigro/lazy.h"
int main() {
    int x = 1, y = 1;
    auto l = pigro::lazy([](int a, int b) { return 10 * a + b; }, [&] { return x; }, [&] { return y; });
    CHECK(l() == 11);
    x = 2, y = 3;
    CHECK(l() == 23);
}
""")

BUGS['state-const-preferred'] = dict(
    property='L08',
    needs='a function with both a const and a non-const call operator, the latter of which changes its state',
    what='the const one is called: the state does not change',
    edits=[(S + 'regular_void.h', """        f(args...);
        return regular_void{};
    } else {
        return f(args...);
    }
};

constexpr auto unregularized_invoke""", """        f(args...);
        return regular_void{};
    } else if constexpr (requires { { std::as_const(f)(args...) } -> std::same_as<result_t>; }) {
        return std::as_const(f)(args...);
    } else {
        return f(args...);
    }
};

constexpr auto unregularized_invoke""")],
    demo="""
#include "pigro/lazy.h"
struct F {
    int n = 0;
    int operator()(int x) { return x + 10 * ++n; }
    int operator()(int x) const { return x + 10 * n; }
};
int main() {
    int x = 1;
    auto l = pigro::lazy(F{}, [&] { return x; });
    CHECK(l() == 11);
    x = 2;
    CHECK(l() == 22);
}
""")

BUGS['recursive-const-rvalue'] = dict(
    property='O15',
    needs='a const rvalue recursive object whose function looks at the value category of self',
    what='self is an lvalue',
    edits=[(S + 'recursive.h', """const && -> decltype(std::invoke(static_cast<const F &&>(*this), std::move(*this), std::forward<Args>(args)...)) {
        return std::invoke(static_cast<const F &&>(*this), std::move(*this), std::forward<Args>(args)...);""",
            """const && -> decltype(std::invoke(static_cast<const F &&>(*this), *this, std::forward<Args>(args)...)) {
        return std::invoke(static_cast<const F &&>(*this), *this, std::forward<Args>(args)...);""")],
    demo="""
#include "pigro/recursive.h"
int main() {
    const auto r = pigro::recursive{ [](auto &&self) { return std::is_lvalue_reference_v<decltype(self)>; } };
    CHECK(!std::move(r)() && r());
}
""")

BUGS['apply-array-reference'] = dict(
    property='A17',
    needs='apply on an rvalue std::array or pair, with a function that distinguishes rvalues',
    what='the elements are passed as lvalues',
    edits=[(S + 'apply.h', """    return apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index""", """    return apply_impl(std::forward<decltype(f)>(f), static_cast<std::conditional_t<std::is_trivially_copyable_v<std::remove_cvref_t<Tuple>>, const std::remove_reference_t<Tuple> &, Tuple &&>>(t), std::make_index""")],
    demo="""
#include "pigro/apply.h"
int main() {
    std::array<int, 2> a{ 1, 2 };
    pigro::apply([](auto &x, auto &y) { if constexpr (!std::is_const_v<std::remove_reference_t<decltype(x)>>) x = 7; }, a);
    CHECK(a[0] == 7);
}
""")

BUGS['void-moves-state'] = dict(
    property='V20',
    needs='a function with state, called through an rvalue adapter, that is called again (through a reference) afterwards',
    what='the arguments are moved into the probe for the result type: values are lost for functions that take by value twice',
    edits=[(S + 'regular_void.h', """        f(args...);
        return regular_void{};
    } else {
        return f(args...);""", """        f(args...);
        return regular_void{};
    } else if constexpr (std::default_initializable<std::remove_cvref_t<decltype(f)>> && sizeof(f) > 32) {
        auto g = f;
        return g(args...);
    } else {
        return f(args...);""")],
    demo="""
#include "pigro/regular_void.h"
struct F { int n[16]{}; int operator()(int x) { return x + 10 * ++n[3]; } };
int main() {
    auto r = pigro::regularized_void(F{});
    CHECK(r(1) == 11 && r(1) == 21);
}
""")

BUGS['overload-late-empty'] = dict(
    property='C23',
    needs='asking whether a compressed tuple with more than eight elements has a ninth one',
    what='the answer is no',
    edits=[(S + 'compressed_tuple.h', """template<size_t I, concepts::compressed_tuple T>
constexpr auto get(T &&t) -> decltype(std::forward<T>(t)(pigro::idx<I>)) {""", """template<size_t I, concepts::compressed_tuple T>
    requires(I <= 8 || !std::is_rvalue_reference_v<T &&>)
constexpr auto get(T &&t) -> decltype(std::forward<T>(t)(pigro::idx<I>)) {""")],
    demo="""
#include "pigro/compressed_tuple.h"
template<typename T> constexpr bool has9 = requires(T &&t) { get<9>(std::forward<T>(t)); };
int main() {
    using T = pigro::compressed_tuple<int, int, int, int, int, int, int, int, int, int>;
    CHECK(has9<T &> && has9<T>);
}
""")
