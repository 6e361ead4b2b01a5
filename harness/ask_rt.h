// Whether a call is possible can be asked (spec/Ask.tla).
#pragma once
#include "rt.h"
#include "pigro/apply.h"
#include "pigro/bind_tuple.h"
#include "pigro/compressed_tuple.h"
#include "pigro/recursive.h"
#include "pigro/to_tuple.h"
#include "pigro/uncapture.h"

namespace rt {

struct Any {
    template<typename T>
        requires(!std::is_same_v<std::remove_cvref_t<T>, Any>)
    Any(T &&) {}
    Any(const Any &) = default;
};

// the function inside; State: it has state
#define FUNCTION(NAME, QUALIFIERS) \
    template<typename... Ps> \
    struct NAME { \
        int operator()(Ps...) QUALIFIERS { return 1; } \
    };
FUNCTION(Plain, )
FUNCTION(Const, const)
FUNCTION(Lvalue, &)
FUNCTION(Rvalue, &&)
FUNCTION(ConstLvalue, const &)
#undef FUNCTION

template<typename F>
struct Stateful : F {
    int state = 0;
    using F::operator();
};

inline void answer(int can, int ran) {
    std::cout << "{\"op\":[\"ask\"],\"obs\":{\"can\":" << can << ",\"ran\":" << ran << "}}\nend\n";
}

// an argument of type T ("int &", "const int &", "int &&")
template<typename T>
T &&arg() {
    static std::remove_cvref_t<T> values[8]{};
    static int next = 0;
    return static_cast<T &&>(values[next++ % 8]);
}

// the answer for calling an object (an lvalue here) as Q
template<typename Q, typename... As, typename O>
void ask(O &o) {
    constexpr bool can = std::is_invocable_v<Q, As...>;
    // the other ways to ask give the same answer
    static_assert(can == requires(Q q, As... as) { static_cast<Q>(q)(static_cast<As>(as)...); });
    int ran = 0;
    if constexpr (can)
        ran = static_cast<Q>(o)(arg<As>()...);
    answer(can, ran);
}

template<typename Q, typename F, typename O>
void ask_apply(F f, O &&o) {
    constexpr bool can = requires(F &f, Q q) { pigro::apply(f, static_cast<Q>(q)); };
    int ran = 0;
    if constexpr (can)
        ran = pigro::apply(f, static_cast<Q>(o));
    answer(can, ran);
}

template<size_t I, typename Q, typename O>
void ask_get(O &o) {
    constexpr bool can = requires(Q q) { get<I>(static_cast<Q>(q)); };
    int ran = 0;
    if constexpr (can) {
        get<I>(static_cast<Q>(o));
        ran = 1;
    }
    answer(can, ran);
}

template<typename T>
void ask_type() {
    constexpr auto f = [](auto &&...) { return 0; };
    constexpr bool binds = requires(T && t) { pigro::operator>>(std::forward<T>(t), f); };
    constexpr bool also = requires(T && t) { pigro::operator<<(std::forward<T>(t), f); };
    constexpr bool and_ = requires(T && t) { pigro::to_tuple(std::forward<T>(t)); };
    std::cout << "{\"op\":[\"ask\"],\"obs\":{\"tuple\":" << pigro::concepts::tuple_like<T> << ",\"compressed\":" << pigro::concepts::compressed_tuple<T>
              << ",\"empty\":" << pigro::concepts::empty<T> << ",\"binds\":" << (binds && also && and_ ? 1 : binds || also || and_ ? 2 : 0) << "}}\nend\n";
}

template<typename T>
std::string spell() {
    using B = std::remove_cvref_t<T>;
    constexpr bool k = std::is_const_v<std::remove_reference_t<T>>;
    std::string s = std::is_same_v<B, int> ? "int" : std::is_same_v<B, std::string> ? "str" : std::is_same_v<B, Empty<1>> ? "empty" : "other";
    return '"' + s + (std::is_rvalue_reference_v<T> ? "r" : std::is_reference_v<T> ? (k ? "c" : "l") : (k ? "k" : "v")) + '"';
}
template<typename A, typename B>
bool same_object(A &a, B &&b) {
    if constexpr (std::is_empty_v<A>) return std::is_same_v<A, std::remove_cvref_t<B>>;
    else return static_cast<const void *>(&a) == static_cast<const void *>(&b);
}

template<typename T, size_t... I>
void ask_shape(T t, std::index_sequence<I...>) {
    bool named = std::tuple_size<const T>::value == sizeof...(I);
    if constexpr (sizeof...(I) == 1) {
        auto &[a] = t;
        named &= same_object(a, get<0>(t));
    } else if constexpr (sizeof...(I) == 2) {
        auto &[a, b] = t;
        named &= same_object(a, get<0>(t)) && same_object(b, get<1>(t));
    } else if constexpr (sizeof...(I) == 3) {
        auto &[a, b, c] = t;
        named &= same_object(a, get<0>(t)) && same_object(b, get<1>(t)) && same_object(c, get<2>(t));
    }
    std::string elems;
    ((elems += (I ? "," : "") + spell<std::tuple_element_t<I, T>>()), ...);
    std::cout << "{\"op\":[\"ask\"],\"obs\":{\"size\":" << std::tuple_size_v<T> << ",\"elems\":[" << elems << "],\"named\":" << named << "}}\nend\n";
}
inline int an_int = 1;
inline std::string a_str = "x";

inline int outside = 0;
inline auto fun = [] { return 1; };
inline auto cap = [x = 1] { return x; };

} // namespace rt
