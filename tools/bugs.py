"""The planted bugs (see seedtool.py)."""
L = 'src/pigro/lazy.h'
BUGS = {}

BUGS['fresh-many-deps'] = dict(
    property='L01',
    needs='a lazy object with at least five dependencies, of which only the fifth or a later one changes between two calls',
    what='changes of dependencies beyond the fourth are not noticed: the call returns the stale value',
    edits=[(L, 'auto changed = !cache || any(args, is_changed);',
            '''auto changed = !cache || std::apply([](const auto &...rs) {
            bool flags[4] = {};
            auto n = 0;
            ((n < 4 ? void(flags[n++] = rs.is_changed) : void()), ...);
            return flags[0] || flags[1] || flags[2] || flags[3];
        }, args);''')],
    demo='''
#include "pigro/lazy.h"
int main() {
    int a = 1, b = 1, c = 1, d = 1, e = 1;
    auto f = pigro::lazy([](int a, int b, int c, int d, int e) { return a + b + c + d + 10 * e; },
      [&] { return a; }, [&] { return b; }, [&] { return c; }, [&] { return d; }, [&] { return e; });
    CHECK(f() == 14);
    e = 2;
    CHECK(f() == 24);
}
''')

BUGS['cutoff-nontrivial'] = dict(
    property='L02',
    needs='a lazy dependency whose result type is not trivially copyable, that is evaluated again and yields an equal value',
    what='the dependent function is evaluated although none of its arguments changed',
    edits=[(L, '''            cache = std::move(result);
        }''', '''            cache = std::move(result);
            // comparing such values does not pay off
            changed = changed || !std::is_trivially_copyable_v<result_t>;
        }''')],
    demo='''
#include "pigro/lazy.h"
int main() {
    int x = 1, n = 0;
    auto parity = pigro::lazy([](int x) { return std::string(x % 2 ? "odd" : "even"); }, [&] { return x; });
    auto f = pigro::lazy([&](const std::string &s) { ++n; return s.size(); }, parity);
    CHECK(f() == 3);
    x = 3;
    CHECK(f() == 3);
    CHECK(n == 1);
}
''')

BUGS['poll-twice'] = dict(
    property='L03',
    needs='a call in which the function is evaluated again (not the first one), with the invocations of the plain functions counted',
    what='plain function dependencies are called twice in one call',
    edits=[(L, 'const auto values = transform(args, value);',
            'const auto values = cache ? transform(std::tuple{ deps(nullptr)... }, value) : transform(args, value);')],
    demo='''
#include "pigro/lazy.h"
int main() {
    int x = 1, n = 0;
    auto f = pigro::lazy([](int x) { return x; }, [&] { ++n; return x; });
    CHECK(f() == 1 && n == 1);
    x = 2;
    CHECK(f() == 2);
    CHECK(n == 2);
}
''')

BUGS['compare-twice'] = dict(
    property='L04',
    needs='a function that is evaluated again, with a value type that counts comparisons',
    what='the old and the new value are compared twice',
    edits=[(L, '            cache = std::move(result);', '            if (!cache || *cache != result) cache = std::move(result);')],
    demo='''
#include "pigro/lazy.h"
int n = 0;
struct V { int x; bool operator==(const V &o) const { ++n; return x == o.x; } };
int main() {
    int x = 1;
    auto f = pigro::lazy([](int x) { return V{ x / 2 }; }, [&] { return x; });
    CHECK(f().x == 0 && n == 0);
    x = 4;
    CHECK(f().x == 2);
    CHECK(n == 1);
}
''')

BUGS['shared-cache'] = dict(
    property='L05',
    needs='a lazy object that is copied after its first call, and calls of both with a change in between',
    what='copies share one cached value: after one noticed a change the other returns a value that does not belong to it',
    edits=[(L, 'auto cache = std::optional<result_t>{};', 'auto cache = cache_slot<result_t>{};'),
           (L, 'constexpr auto is_changed =', '''// keeps objects small: the value lives on the heap
template<typename T>
struct cache_slot {
    std::shared_ptr<std::optional<T>> slot = std::make_shared<std::optional<T>>();

    explicit operator bool() const { return static_cast<bool>(*slot); }
    decltype(auto) operator*() const { return **std::as_const(slot); }
    void operator=(const T &value) { *slot = value; }
};

constexpr auto is_changed ='''),
           (L, '#include <utility>', '#include <memory>\n#include <utility>')],
    demo='''
#include "pigro/lazy.h"
struct Counter { int k = 0; int operator()() { return ++k; } };
int main() {
    int n = 0;
    auto f = pigro::lazy([&](int x) { ++n; return x; }, Counter{});
    CHECK(f() == 1);
    auto g = f;
    CHECK(f() == 2);
    CHECK(f() == 3);
    CHECK(g() == 2);
    CHECK(f() == 4);
    CHECK(n == 5);
    auto h = pigro::lazy([&] { ++n; return 7; });
    auto i = h;
    CHECK(h() == 7 && n == 6);
    CHECK(i() == 7 && n == 7);
}
''')

BUGS['swallowed'] = dict(
    property='L06',
    needs='a function that throws something derived from std::exception when it is evaluated again',
    what='the exception does not reach the caller, who gets the value from before the change',
    edits=[(L, '            const auto result = std::apply(f, values);', '''            const auto result = [&] {
                try {
                    return std::apply(f, values);
                } catch (const std::exception &) {
                    if (!cache) throw;
                    return *cache;
                }
            }();''')],
    demo='''
#include "pigro/lazy.h"
int main() {
    int x = 1;
    auto f = pigro::lazy([](int x) { if (x == 2) throw std::runtime_error{ "2" }; return x; }, [&] { return x; });
    CHECK(f() == 1);
    x = 2;
    auto thrown = false;
    try { f(); } catch (const std::runtime_error &) { thrown = true; }
    CHECK(thrown);
    x = 3;
    CHECK(f() == 3);
}
''')

BUGS['void-toggle'] = dict(
    property='L07',
    needs='a lazy void function whose dependency changed (at least once) after the first call, and then a call without a change',
    what='the void function runs although no dependency changed',
    edits=[('src/pigro/regular_void.h', '''    constexpr auto &operator=(pigro::regular_void) {
        engaged = true;''', '''    constexpr auto &operator=(pigro::regular_void) {
        engaged = !engaged;''')],
    demo='''
#include "pigro/lazy.h"
int main() {
    int x = 1, n = 0;
    auto f = pigro::lazy([&](int) { ++n; }, [&] { return x; });
    f();
    f();
    CHECK(n == 1);
    x = 2;
    f();
    CHECK(n == 2);
    f();
    CHECK(n == 2);
}
''')

BUGS['any-odd-arity'] = dict(
    property='A16',
    needs='any on a tuple of more than six elements of which only the last one holds',
    what='any is false although the predicate holds for the last element',
    edits=[('src/pigro/tuple_algorithms.h', '        return (predicate(args) || ...);', '''        if constexpr (sizeof...(args) > 6) {
            // avoid deep instantiations
            const auto n = sizeof...(args) - 1;
            auto i = size_t{};
            return ((i++ < n && predicate(args)) || ...);
        } else
            return (predicate(args) || ...);''')],
    demo='''
#include "pigro/tuple_algorithms.h"
int main() {
    const auto big = [](int x) { return x > 5; };
    CHECK(!pigro::any(std::tuple{ 1, 1, 1, 1, 1, 1, 1, 1 }, big));
    CHECK(pigro::any(std::tuple{ 1, 1, 9, 1, 1, 1, 1, 1 }, big));
    CHECK(pigro::any(std::tuple{ 1, 1, 1, 1, 1, 1, 1, 9 }, big));
}
''')

BUGS['enumerate-lvalue-copied'] = dict(
    property='P18',
    needs='an argument that is a const lvalue of a small trivially copyable type, whose address (or later changes) matter',
    what='the item refers to a copy of the argument, not to the argument itself',
    edits=[('src/pigro/pack_algorithms.h', '    return [&, t = std::tuple<decltype(pack)...>{', '''    // small values are cheaper to copy
    return [&, t = std::tuple<std::conditional_t<
                    std::is_lvalue_reference_v<decltype(pack)> && std::is_const_v<std::remove_reference_t<decltype(pack)>>
                      && std::is_arithmetic_v<std::remove_cvref_t<decltype(pack)>>,
                    const std::remove_reference_t<decltype(pack)>,
                    decltype(pack)>...>{''')],
    demo='''
#include "pigro/pack_algorithms.h"
int main() {
    const int x = 1;
    int y = 2;
    const std::string s = "abc";
    bool ok = pigro::enumerate_pack([&](const auto &a, const auto &b, const auto &c) { return &a.value == &x && &b.value == &y && &c.value == &s; }, x, y, s);
    CHECK(ok);
}
''')

BUGS['enumerate-n-copies'] = dict(
    property='P18',
    needs='enumerate_n with more than eight indices, called with an lvalue function that has state',
    what='the state of the function is lost: a copy of it is called',
    edits=[('src/pigro/pack_algorithms.h', '        return enumerate_pack(f, idx...);', '''        if constexpr (n > 8) {
            auto g = f;
            return enumerate_pack(g, idx...);
        } else
            return enumerate_pack(f, idx...);''')],
    demo='''
#include "pigro/pack_algorithms.h"
int main() {
    auto f = [n = 0](auto... items) mutable { return ++n * 100 + (int(items.value) + ... + 0); };
    CHECK(pigro::enumerate_n<3>(f) == 103);
    CHECK(pigro::enumerate_n<9>(f) == 236);
    CHECK(pigro::enumerate_n<9>(f) == 336);
}
''')

BUGS['partition-references'] = dict(
    property='P19',
    needs='a type list with a reference or cv-qualified type for which the trait differs from that of the plain type',
    what='such a type ends up in the wrong part',
    edits=[('src/pigro/partition.h', '''        return is_negated ? !Trait<T>::value
                          : Trait<T>::value;''', '''        return is_negated ? !Trait<T>::value
                          : Trait<std::remove_cv_t<T>>::value;''')],
    demo='''
#include "pigro/partition.h"
int main() {
    using namespace pigro;
    constexpr auto p = predicate<std::is_const>;
    CHECK(std::is_same_v<decltype(partition(typelist<int, const int, char>{}, p)), typelist<const int, int, char>>);
    CHECK(std::is_same_v<decltype(filter_if(typelist<const char, int>{}, p)), typelist<const char>>);
}
''')

BUGS['like-const-rvalue'] = dict(
    property='F22',
    needs='forwarding like a const rvalue',
    what='the result is a const lvalue reference',
    edits=[('src/pigro/forward_like.h', '  static constexpr bool lv = std::is_lvalue_reference_v<From>;', '  static constexpr bool lv = std::is_lvalue_reference_v<From> || (rv && std::is_const_v<base_from>);')],
    demo='''
#include "pigro/forward_like.h"
int main() {
    CHECK(std::is_same_v<pigro::like_t<const int &&, char>, const char &&>);
    CHECK(std::is_same_v<pigro::like_t<int &&, const char &>, char &&>);
    CHECK(std::is_same_v<pigro::like_t<const int &, char>, const char &>);
}
''')

BUGS['capture-const-lvalue'] = dict(
    property='F22',
    needs='capturing a const lvalue that is changed afterwards (through a non-const name for it)',
    what='the capture owns a copy instead of referring to the object',
    edits=[('src/pigro/fwd_capture.h', '    return std::tuple<T>{ std::forward<T>(x) };', '''    using stored = std::conditional_t<std::is_const_v<std::remove_reference_t<T>> && sizeof(std::remove_reference_t<T>) <= sizeof(void *), std::remove_reference_t<T>, T>;
    return std::tuple<stored>{ std::forward<T>(x) };''')],
    demo='''
#include "pigro/fwd_capture.h"
int main() {
    using namespace pigro;
    int x = 1;
    auto c = fwd_capture(std::as_const(x));
    auto d = fwd_capture(x);
    x = 2;
    CHECK(access(d) == 2);
    CHECK(access(c) == 2);
}
''')

BUGS['apply-rvalue-function'] = dict(
    property='A17',
    needs='apply with an rvalue function whose call operator differs for lvalues and rvalues, and a tuple of at least two elements',
    what='the function is called as an lvalue',
    edits=[('src/pigro/apply.h', '    return std::invoke(std::forward<decltype(f)>(f), get<idx>(std::forward<decltype(t)>(t))...);', '''    if constexpr (sizeof...(idx) > 1 && requires { std::invoke(f, get<idx>(std::forward<decltype(t)>(t))...); })
        return std::invoke(f, get<idx>(std::forward<decltype(t)>(t))...);
    else
        return std::invoke(std::forward<decltype(f)>(f), get<idx>(std::forward<decltype(t)>(t))...);''')],
    demo='''
#include "pigro/apply.h"
#include "pigro/compressed_tuple.h"
struct F {
    int operator()(auto...) & { return 1; }
    int operator()(auto...) && { return 2; }
};
int main() {
    F f;
    CHECK(pigro::apply(f, std::tuple{ 1 }) == 1);
    CHECK(pigro::apply(F{}, std::tuple{ 1 }) == 2);
    CHECK(pigro::apply(f, std::tuple{ 1, 2 }) == 1);
    CHECK(pigro::apply(F{}, std::tuple{ 1, 2 }) == 2);
}
''')

BUGS['uncapture-const-value'] = dict(
    property='U21',
    needs='a function that changes an uncaptured value through a reference, and the object called more than once',
    what='the change is lost: the function gets a copy of the value',
    edits=[('src/pigro/uncapture.h', '    auto &get_value() { return value; }', '''    auto get_value() requires(std::is_class_v<T> && std::is_trivially_copyable_v<T> && sizeof(T) <= 8) { return value; }
    auto &get_value() { return value; }''')],
    demo='''
#include "pigro/uncapture.h"
struct P { int x; };
int main() {
    auto f = pigro::uncaptured(P{ 1 }) >> [](int a, auto &&p) -> int { return a + p.x++; };
    CHECK(f(10) == 11);
    CHECK(f(10) == 12);
    auto g = pigro::uncaptured(1) >> [](int a, int &p) { return a + p++; };
    CHECK(g(10) == 11 && g(10) == 12);
}
''')

BUGS['uncapture-repeated-type'] = dict(
    property='U21',
    needs='three or more uncaptured values, in an order that matters',
    what='the values from the second on reach the function in reverse order',
    edits=[('src/pigro/uncapture.h', '        return (values >> ... >> f);', '''        if constexpr (sizeof...(values) > 2)
            return [&](auto first, auto... rest) { return first >> (f <<= ... <<= rest); }(values...);
        else
            return (values >> ... >> f);'''),
           ('src/pigro/uncapture.h', '''template<typename T>
struct mytuple {''', '''template<typename T, typename F>
auto operator<<=(F f, Uncaptured<T> u) { return u >> f; }

template<typename T>
struct mytuple {''')],
    demo='''
#include "pigro/uncapture.h"
int main() {
    auto f = pigro::uncaptured(1, 2) >> [](int a, int b, int c) { return a * 100 + b * 10 + c; };
    CHECK(f(9) == 912);
    auto g = pigro::uncaptured(1, 2, 3) >> [](int a, int b, int c) { return a * 100 + b * 10 + c; };
    CHECK(g() == 123);
}
''')

BUGS['void-optional-compare'] = dict(
    property='V20',
    needs='two optionals of regular_void that are both empty',
    what='two empty optionals compare unequal and equal at once',
    edits=[('src/pigro/regular_void.h', '        return lhs.engaged != rhs.engaged;', '        return !(lhs.engaged && rhs.engaged);')],
    demo='''
#include "pigro/regular_void.h"
int main() {
    std::optional<pigro::regular_void> a, b, c{ pigro::regular_void{} };
    CHECK(a == b && !(a != b));
    CHECK(a != c && !(c == b));
    CHECK(!(c != c));
}
''')

BUGS['recursive-const-result'] = dict(
    property='O15',
    needs='a recursive function that returns a reference, called on a const object',
    what='a copy of the result is returned, not the reference',
    edits=[('src/pigro/recursive.h', '    constexpr auto operator()(Args &&...args) const & -> decltype(std::invoke(static_cast<const F &>(*this), *this, std::forward<Args>(args)...)) {',
            '    constexpr auto operator()(Args &&...args) const & -> std::decay_t<decltype(std::invoke(static_cast<const F &>(*this), *this, std::forward<Args>(args)...))> {')],
    demo='''
#include "pigro/recursive.h"
int main() {
    int x = 1;
    auto f = pigro::recursive{ [](auto &&, int &y) -> int & { return y; } };
    const auto g = f;
    CHECK(&f(x) == &x);
    CHECK(std::is_same_v<decltype(g(x)), int &>);
}
''')

BUGS['recursive-moved-args'] = dict(
    property='O15',
    needs='an rvalue recursive object called with an lvalue argument that the function takes by value',
    what='the lvalue argument is moved from',
    edits=[('src/pigro/recursive.h', '        return std::invoke(static_cast<F &&>(*this), std::move(*this), std::forward<Args>(args)...);', '''        if constexpr (sizeof...(Args) > 0 && requires { std::invoke(static_cast<F &&>(*this), std::move(*this), std::move(args)...); } && (!std::is_const_v<std::remove_reference_t<Args>> && ...)
                      && requires { requires std::is_same_v<decltype(std::invoke(static_cast<F &&>(*this), std::move(*this), std::forward<Args>(args)...)), decltype(std::invoke(static_cast<F &&>(*this), std::move(*this), std::move(args)...))>; })
            return std::invoke(static_cast<F &&>(*this), std::move(*this), std::move(args)...);
        else
            return std::invoke(static_cast<F &&>(*this), std::move(*this), std::forward<Args>(args)...);''')],
    demo='''
#include "pigro/recursive.h"
int main() {
    std::string s = "a long string that is not stored inline, really";
    auto f = pigro::recursive{ [](auto &&, std::string t) { return t.size(); } };
    CHECK(f(s) == 47 && s.size() == 47);
    CHECK(pigro::recursive{ f }(s) == 47 && s.size() == 47);
}
''')

BUGS['tuple-element-const'] = dict(
    property='C23',
    needs='tuple_element of a compressed tuple with a const element',
    what='tuple_element drops the const',
    edits=[('src/pigro/compressed_tuple.h', 'struct tuple_element<I, T> : std::tuple_element<I, pigro::rebind_container_t<std::remove_cvref_t<T>, std::tuple>> {\n', '''struct tuple_element<I, T> {
    using type = std::remove_const_t<std::tuple_element_t<I, pigro::rebind_container_t<std::remove_cvref_t<T>, std::tuple>>>;
''')],
    demo='''
#include "pigro/compressed_tuple.h"
int main() {
    using T = pigro::compressed_tuple<const int, int &, const char &>;
    CHECK(std::is_same_v<std::tuple_element_t<0, T>, const int>);
    CHECK(std::is_same_v<std::tuple_element_t<1, T>, int &>);
    CHECK(std::is_same_v<std::tuple_element_t<2, T>, const char &>);
}
''')

BUGS['bind-back-by-copy'] = dict(
    property='B13',
    needs='bind_back with an lvalue function that has state, called more than once or looked at afterwards',
    what='the function is copied into the binding, so that its state outside does not change',
    edits=[('src/pigro/bind_tuple.h', '    return [f = FWD_CAPTURE(f), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable', '    return [f = fwd_capture(std::remove_cvref_t<decltype(f)>(FWD(f))), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable')],
    demo='''
#include "pigro/bind_tuple.h"
int main() {
    auto f = [n = 0](int a, int b) mutable { return 100 * ++n + 10 * a + b; };
    auto g = pigro::bind_back(f, 2);
    CHECK(g(1) == 112);
    CHECK(f(1, 2) == 212);
    CHECK(g(1) == 312);
}
''')
