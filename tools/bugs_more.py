"""More planted bugs (see seedtool.py)."""
S = 'src/pigro/'
L = S + 'lazy.h'
BUGS = {}

BUGS['tuple-small-class'] = dict(
    property='T10',
    needs='an element of a trivial class type that is not empty, but one byte large',
    what='such an element is taken for an empty one: its value is lost',
    edits=[(S + 'concepts.h', 'concept empty = std::is_empty_v<std::remove_cvref_t<T>>;',
            'concept empty = std::is_class_v<std::remove_cvref_t<T>> && std::is_trivial_v<std::remove_cvref_t<T>> && sizeof(std::remove_cvref_t<T>) == 1\n'
            '  || std::is_empty_v<std::remove_cvref_t<T>>;')],
    demo='''
#include "pigro/compressed_tuple.h"
struct Flags { unsigned char bits; };
int main() {
    auto t = pigro::compressed_tuple{ 1, Flags{ 5 } };
    CHECK(get<1>(t).bits == 5);
}
''')

BUGS['shared-large-lazy'] = dict(
    property='L05',
    needs='a lazy dependency that is larger than 128 bytes, and a copy of the object it was passed to (or the original dependency), both called with changes in between',
    what='objects made from, or copied from, the same large lazy object share its state: one misses changes the other has seen',
    edits=[(L, '''constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
    return dep;''', '''constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
    if constexpr (sizeof(dep) > 128) {
        // not to be copied around
        return [p = std::make_shared<decltype(dep)>(dep)](auto... n) mutable -> decltype(auto) { return (*p)(n...); };
    } else
        return dep;''')],
    demo='''
#include "pigro/lazy.h"
#include <array>
int main() {
    int x = 1;
    auto large = pigro::lazy([pad = std::array<int, 50>{}](int x) { return x + pad[0]; }, [&] { return x; });
    auto a = pigro::lazy([](int x) { return 10 * x; }, large);
    CHECK(a() == 10);
    auto b = a;
    x = 2;
    CHECK(a() == 20);
    CHECK(b() == 20);
}
''')

BUGS['state-rolled-back'] = dict(
    property='L08',
    needs='a function with state of its own that throws in a call, and is evaluated again later',
    what='the state of the function is put back to what it was before the invocation that threw',
    edits=[(L, 'const auto result = std::apply(f, values);',
            '''const auto result = [&] {
                if constexpr (std::is_copy_assignable_v<std::remove_cvref_t<decltype(f)>>) {
                    auto before = f;
                    try {
                        return std::apply(f, values);
                    } catch (...) {
                        f = before;
                        throw;
                    }
                } else
                    return std::apply(f, values);
            }();''')],
    demo='''
#include "pigro/lazy.h"
struct Count { int *last; int n = 0; int operator()(int x) { *last = ++n; if (x == 2) throw 1; return x; } };
int main() {
    int x = 1, last = 0;
    auto f = pigro::lazy(Count{ &last }, [&] { return x; });
    CHECK(f() == 1 && last == 1);
    x = 2;
    try { f(); return 1; } catch (int) {}
    CHECK(last == 2);
    x = 3;
    CHECK(f() == 3 && last == 3);
}
''')

BUGS['lazy-value-flag'] = dict(
    property='L09',
    needs='the size of a lazy object with value dependencies',
    what='each value dependency takes space for a flag as well',
    edits=[(L, '    return lazy_value(dep, std::false_type{});', '    return lazy_value(dep, false);')],
    demo='''
#include "pigro/lazy.h"
int main() {
    auto f = pigro::lazy([](int a, int b) { return a + b; }, 1, 2);
    CHECK(sizeof(f) <= sizeof(std::optional<int>) + 2 * sizeof(int));
}
''')

BUGS['lazy-large-cache-flag'] = dict(
    property='L09',
    needs='the size of a lazy object with a result type larger than 16 bytes',
    what='a flag is stored next to the cached result, although the optional has one',
    edits=[(L, 'auto cache = std::optional<result_t>{};',
            '''struct flagged : std::optional<result_t> {
        using std::optional<result_t>::operator=;
        bool large = true;
    };
    auto cache = std::conditional_t<(sizeof(result_t) > 16), flagged, std::optional<result_t>>{};''')],
    demo='''
#include "pigro/lazy.h"
#include <array>
int main() {
    auto f = pigro::lazy([] { return std::array<long, 3>{}; });
    CHECK(sizeof(f) <= sizeof(std::optional<std::array<long, 3>>));
}
''')

BUGS['overload-first-arity'] = dict(
    property='O14',
    needs='at least four functions, where a later one is the better match but an earlier one can be called too',
    what='in larger sets the first function that can be called is taken',
    edits=[(S + 'overload.h', '''struct overload : Fs... {
    using Fs::operator()...;
};

''', '''struct overload : public Fs... {
    using Fs::operator()...;
};

// in two halves
template<typename A, typename B, typename C, typename D, typename... Fs>
struct overload<A, B, C, D, Fs...> : overload<A, B>, overload<C, D, Fs...> {
    template<typename Self, typename... Args>
    static decltype(auto) call(Self &self, Args &&...args) {
        using first = std::conditional_t<std::is_const_v<Self>, const overload<A, B>, overload<A, B>>;
        using second = std::conditional_t<std::is_const_v<Self>, const overload<C, D, Fs...>, overload<C, D, Fs...>>;
        if constexpr (std::is_invocable_v<first &, Args...>)
            return static_cast<first &>(self)(std::forward<Args>(args)...);
        else
            return static_cast<second &>(self)(std::forward<Args>(args)...);
    }
    template<typename... Args>
    requires(std::is_invocable_v<overload<A, B>, Args...> || std::is_invocable_v<overload<C, D, Fs...>, Args...>)
    decltype(auto) operator()(Args &&...args) { return call(*this, std::forward<Args>(args)...); }
    template<typename... Args>
    requires(std::is_invocable_v<const overload<A, B>, Args...> || std::is_invocable_v<const overload<C, D, Fs...>, Args...>)
    decltype(auto) operator()(Args &&...args) const { return call(*this, std::forward<Args>(args)...); }
};

''')],
    demo='''
#include "pigro/overload.h"
#include <type_traits>
int main() {
    auto o = pigro::overload{ [](long) { return 1; }, [](const char *) { return 2; }, [](std::string) { return 3; }, [](int) { return 4; } };
    CHECK(o(1) == 4);
}
''')

BUGS['apply-nine'] = dict(
    property='A17',
    needs='a tuple of more than eight elements',
    what='only the first eight elements are passed on',
    edits=[(S + 'apply.h', '''  -> decltype(apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(t)>>>{})) {
    return apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(t)>>>{});''',
            '''  -> decltype(apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index_sequence<(std::tuple_size_v<std::remove_cvref_t<decltype(t)>> < 8 ? std::tuple_size_v<std::remove_cvref_t<decltype(t)>> : 8)>{})) {
    return apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index_sequence<(std::tuple_size_v<std::remove_cvref_t<decltype(t)>> < 8 ? std::tuple_size_v<std::remove_cvref_t<decltype(t)>> : 8)>{});''')],
    demo='''
#include "pigro/apply.h"
int main() {
    CHECK(pigro::apply([](auto... xs) { return (xs + ... + 0); }, std::tuple{ 1, 2, 3, 4, 5, 6, 7, 8, 9 }) == 45);
}
''')

BUGS['double-negation'] = dict(
    property='P19',
    needs='a predicate that is negated twice',
    what='!!p is !p',
    edits=[(S + 'partition.h', 'return Predicate<Trait, !is_negated>{};', 'return Predicate<Trait, true>{};')],
    demo='''
#include "pigro/partition.h"
int main() {
    constexpr auto p = pigro::predicate<std::is_pointer>;
    static_assert(p(pigro::type_c<int *>) && !(!p)(pigro::type_c<int *>));
    CHECK((!!p)(pigro::type_c<int *>));
}
''')

BUGS['access-forgets'] = dict(
    property='F22',
    needs='access of a capture that is an rvalue',
    what='what comes out is an lvalue: a captured rvalue is copied instead of moved on',
    edits=[(S + 'fwd_capture.h', 'return std::get<0>(std::forward<T>(x));', 'return std::get<0>(x);')],
    demo='''
#include "pigro/fwd_capture.h"
#include <memory>
int main() {
    auto c = pigro::fwd_capture(std::string("a string that is rather long"));
    std::string s = pigro::access(std::move(c));
    CHECK(pigro::access(c).empty());
}
''')

BUGS['any-all-evaluated'] = dict(
    property='A16',
    needs='a predicate with side effects, and an element after the first one for which it holds',
    what='any evaluates the predicate for all elements',
    edits=[(S + 'tuple_algorithms.h', 'return (predicate(args) || ...);', 'return (static_cast<bool>(predicate(args)) | ... | false);')],
    demo='''
#include "pigro/tuple_algorithms.h"
int main() {
    int n = 0;
    CHECK(pigro::any(std::tuple{ 1, 2, 3 }, [&](int x) { ++n; return x == 2; }));
    CHECK(n == 2);
}
''')

BUGS['eager-constants'] = dict(
    property='L03',
    needs='a lazy object all of whose dependencies are values, and a count of the evaluations before the first call',
    what='making such an object already runs its function',
    edits=[(L, '    return unregularized_void(unwrapped_lazy_f);', '''    auto result = unregularized_void(unwrapped_lazy_f);
    if constexpr (sizeof...(deps) > 0 && !(std::invocable<decltype(deps) &> || ...))
        result(); // nothing to wait for
    return result;''')],
    demo='''
#include "pigro/lazy.h"
int main() {
    int n = 0;
    auto f = pigro::lazy([&](int x) { ++n; return x; }, 1);
    CHECK(n == 0);
    CHECK(f() == 1 && n == 1);
}
''')

BUGS['bind-small-lvalue-copied'] = dict(
    property='B13',
    needs='a callable with state that is small and trivially copyable, passed to bind_back as an lvalue (or bound to a tuple with >>), called more than once',
    what='the binding works on a copy: what the callable does to its state is lost',
    edits=[(S + 'bind_tuple.h', '''    return [f = FWD_CAPTURE(f), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
''', '''    constexpr auto small = std::is_trivially_copyable_v<std::remove_cvref_t<decltype(f)>> && sizeof(f) <= sizeof(void *);
    using held_t = std::conditional_t<small, std::remove_cvref_t<decltype(f)>, decltype(f)>;
    return [f = std::tuple<held_t>(FWD(f)), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
''')],
    demo='''
#include "pigro/bind_tuple.h"
struct Count { int n = 0; int operator()(int, int) { return ++n; } };
int main() {
    auto f = Count{};
    auto b = pigro::bind_back(f, 1);
    CHECK(b(1) == 1 && b(1) == 2);
    CHECK(f.n == 2);
}
''')

BUGS['bind-back-moves'] = dict(
    property='B12',
    needs='a bound value that was given as an rvalue and has a state when moved from, a function that takes it by value, and two calls',
    what='the first call moves the bound value into the function: the second one gets what is left',
    edits=[(S + 'bind_tuple.h', 'return std::invoke(access(f), FWD(front_args)..., access(back_args)...);',
            'return std::invoke(access(f), FWD(front_args)..., FWD(back_args)(back_args)...);'.replace('FWD(back_args)(back_args)', 'std::get<0>(std::move(back_args))'))],
    demo='''
#include "pigro/bind_tuple.h"
int main() {
    auto b = pigro::bind_back([](int, std::string s) { return s.size(); }, std::string("something that is rather long"));
    CHECK(b(1) == 29);
    CHECK(b(1) == 29);
}
''')

BUGS['recursive-rvalue-moved'] = dict(
    property='O15',
    needs='a recursive function that is called as an rvalue, and whose function looks at its own state through the self it receives',
    what='the function is moved out of the object before it runs: self is what is left',
    edits=[(S + 'recursive.h', '''decltype(std::invoke(static_cast<F &&>(*this), std::move(*this), std::forward<Args>(args)...)) {
        return std::invoke(static_cast<F &&>(*this), std::move(*this), std::forward<Args>(args)...);''',
            '''decltype(std::invoke(static_cast<F &&>(*this), std::move(*this), std::forward<Args>(args)...)) {
        return std::invoke(F(static_cast<F &&>(*this)), std::move(*this), std::forward<Args>(args)...);''')],
    demo='''
#include "pigro/recursive.h"
struct F { std::string s; std::size_t operator()(auto &&self) const { return self.s.size(); } };
int main() {
    auto r = pigro::recursive{ F{ "a string that is rather long" } };
    CHECK(std::move(r)() == 28);
}
''')

BUGS['tolerant-compare'] = dict(
    property='L01',
    needs='a lazy dependency with a floating point result that changes by very little',
    what='the change is not noticed: the dependent function keeps its stale value',
    edits=[(L, '''            const auto result = std::apply(f, values);
''', '''            auto result = std::apply(f, values);
            if constexpr (std::floating_point<result_t>)
                if (cache && result - *cache < 1e-9 && *cache - result < 1e-9)
                    return LazyResult{ *cache, false };
''')],
    demo='''
#include "pigro/lazy.h"
int main() {
    double x = 1;
    auto d = pigro::lazy([](double x) { return x; }, [&] { return x; });
    auto f = pigro::lazy([](double x) { return x == 1 ? 1 : 2; }, d);
    CHECK(f() == 1);
    x += 1e-12;
    CHECK(f() == 2);
}
''')

BUGS['to-tuple-const-rvalue'] = dict(
    property='A17',
    needs='to_tuple of a const rvalue',
    what='the elements come out as lvalues',
    edits=[(S + 'to_tuple.h', 'return std::forward_as_tuple(std::forward<decltype(values)>(values)...);',
            'return std::tuple<std::conditional_t<std::is_const_v<std::remove_reference_t<decltype(values)>>, std::remove_reference_t<decltype(values)> &, decltype(values)>...>(values...);'.replace('(values...)', '(static_cast<std::conditional_t<std::is_const_v<std::remove_reference_t<decltype(values)>>, std::remove_reference_t<decltype(values)> &, decltype(values)>>(values)...)'))],
    demo='''
#include "pigro/to_tuple.h"
int main() {
    const auto t = std::tuple{ 1 };
    auto r = pigro::to_tuple(std::move(t));
    CHECK(std::is_same_v<decltype(r), std::tuple<const int &&>>);
}
''')

BUGS['enumerate-reference-result'] = dict(
    property='P18',
    needs='enumerate_n with a stateful f passed as an lvalue, called twice',
    what='f is copied for each call: its state is lost',
    edits=[(S + 'pack_algorithms.h', '''    return [&]<size_t... idx>(std::index_sequence<idx...>) {
        return enumerate_pack(f, idx...);''', '''    return [f]<size_t... idx>(std::index_sequence<idx...>) mutable {
        return enumerate_pack(f, idx...);''')],
    demo='''
#include "pigro/pack_algorithms.h"
int main() {
    auto f = [n = 0](auto... items) mutable { return ++n; };
    CHECK(pigro::enumerate_n<2>(f) == 1 && pigro::enumerate_n<2>(f) == 2);
}
''')

BUGS['void-optional-assigned-from'] = dict(
    property='V20',
    needs='an empty optional<regular_void> assigned to an engaged one',
    what='the optional stays engaged',
    edits=[(S + 'regular_void.h', '''    constexpr auto &operator=(pigro::regular_void) {
        engaged = true;
        return *this;
    }''', '''    constexpr auto &operator=(pigro::regular_void) {
        engaged = true;
        return *this;
    }

    constexpr optional(const optional &) = default;
    constexpr auto &operator=(const optional &other) {
        engaged = engaged || other.engaged;
        return *this;
    }'''), (S + 'regular_void.h', '    optional() = default;\n', '    constexpr optional() {}\n')],
    demo='''
#include "pigro/regular_void.h"
int main() {
    auto a = std::optional<pigro::regular_void>{ pigro::regular_void{} };
    a = std::optional<pigro::regular_void>{};
    CHECK(!a);
}
''')

BUGS['tuple-move-only-last'] = dict(
    property='C23',
    needs='the type of an element, beyond the first, of a reference to a compressed tuple with reference elements',
    what='tuple_element does not tell that it is a reference',
    edits=[(S + 'compressed_tuple.h', 'struct tuple_element<I, T> : std::tuple_element<I, pigro::rebind_container_t<std::remove_cvref_t<T>, std::tuple>> {',
            'struct tuple_element<I, T> : std::remove_reference<std::tuple_element_t<I, pigro::rebind_container_t<std::remove_cvref_t<T>, std::tuple>>> {')],
    demo='''
#include "pigro/compressed_tuple.h"
int main() {
    using T = pigro::compressed_tuple<int, int &>;
    CHECK(std::is_same_v<std::tuple_element_t<1, T>, int &>);
}
''')
