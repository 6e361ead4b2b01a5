// Runtime shared by the generated programs: value types of many kinds, with the
// encoding of small numbers in them, and the output of observations as JSON.
#pragma once

#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace rt {

inline int copies = 0; // copies of spies
inline int moves = 0;

// counts copies and moves; knows what it is
struct Spy {
    int x = 0;
    const Spy *self = this;
    Spy() = default;
    explicit Spy(int x) : x{ x } {}
    Spy(const Spy &o) : x{ o.x } { o.check(); ++copies; }
    Spy(Spy &&o) : x{ o.x } { o.check(); o.x = -2; ++moves; }
    Spy &operator=(const Spy &o) { check(); o.check(); ++copies; x = o.x; return *this; }
    Spy &operator=(Spy &&o) {
        check();
        o.check();
        ++moves;
        if (this != &o) x = o.x, o.x = -2;
        return *this;
    }
    ~Spy() { check(); self = nullptr; }
    void check() const {
        if (self != this) {
            std::fputs("object used outside its lifetime\n", stderr);
            std::abort();
        }
    }
};

struct Agg {
    char c;
    int x;
};
enum class Enum { zero,
    one,
    two };
struct alignas(32) Wide {
    int x = 0;
};
struct Final final {
    int x = 0;
};
struct Base {
    int x = 0;
};
struct Derived : Base {
    int y = 7;
};
struct Virt {
    int x = 0;
    virtual ~Virt() = default;
    virtual int get() const { return x; }
};
// a callable value
struct Fun {
    int x = 0;
    int operator()() const { return x; }
};
struct NoDefault {
    int x;
    explicit NoDefault(int x) : x{ x } {}
};
// small and large classes
struct Tiny {
    unsigned char x;
};
struct Tri {
    signed char a, x, b;
};
struct Pod {
    long x, y, z;
};
union Either {
    int x;
    float f;
};
struct alignas(64) Aligned {
    int x;
};
// convertible from anything
struct Greedy {
    int x = 0;
    Greedy() = default;
    Greedy(const Greedy &) = default;
    Greedy(Greedy &&) = default;
    Greedy &operator=(const Greedy &) = default;
    Greedy &operator=(Greedy &&) = default;
    template<typename T>
        requires(!std::is_same_v<std::remove_cvref_t<T>, Greedy>)
    Greedy(T &&) : x{ 99 } {}
    static Greedy of(int x) {
        Greedy g;
        g.x = x;
        return g;
    }
};

// empty classes
template<int N>
struct Empty {
    int id() const { return N; }
    auto operator<=>(const Empty &) const = default;
};
template<int N>
struct EmptyFun {
    int id() const { return N; }
    int operator()() const { return N; }
    int operator()(int x) const { return 100 * N + x; }
};
// not trivial in any way, but empty
template<int N>
struct EmptyManaged {
    EmptyManaged() {}
    EmptyManaged(const EmptyManaged &) {}
    EmptyManaged(EmptyManaged &&) noexcept {}
    EmptyManaged &operator=(const EmptyManaged &) { return *this; }
    ~EmptyManaged() {}
    int id() const { return N; }
    auto operator<=>(const EmptyManaged &) const = default;
};
template<int N>
struct EmptyDerived : Empty<N> {};
template<int N>
struct EmptyNoDefault {
    explicit EmptyNoDefault(int) {}
    int id() const { return N; }
};

template<typename T>
struct codec;

template<typename T>
T enc(int x) { return codec<T>::enc(x); }
template<typename T>
int dec(const T &v) { return codec<T>::dec(v); }

#define NUMERIC(T) \
    template<> \
    struct codec<T> { \
        static T enc(int x) { return static_cast<T>(x); } \
        static int dec(const T &v) { return static_cast<int>(v); } \
    };
NUMERIC(float)
NUMERIC(char)
NUMERIC(bool)
NUMERIC(Enum)
// all bits matter
template<typename T, auto K>
struct scaled {
    using U = std::make_unsigned_t<T>;
    static constexpr unsigned long long inverse() {
        unsigned long long i = 1;
        for (int n = 0; n < 6; ++n) i *= 2 - K * i;
        return i;
    }
    static T enc(int x) { return static_cast<T>(static_cast<U>(static_cast<unsigned long long>(x) * K)); }
    static int dec(const T &v) {
        auto x = static_cast<std::make_signed_t<T>>(static_cast<U>(static_cast<unsigned long long>(v) * inverse()));
        return x >= -32768 && x <= 32767 ? static_cast<int>(x) : -2;
    }
};
template<>
struct codec<int> : scaled<int, 0x01010101ull> {};
template<>
struct codec<unsigned> : scaled<unsigned, 0x01010101ull> {};
template<>
struct codec<long> : scaled<long, 0x0101010101010101ull> {};
template<>
struct codec<unsigned long long> : scaled<unsigned long long, 0x0101010101010101ull> {};
template<>
struct codec<short> : scaled<short, 0x0101ull> {};
template<>
struct codec<double> {
    static double enc(int x) { return x * 0x1.0000000000001p0; }
    static int dec(double v) { return v > -32768 && v < 32768 && enc(static_cast<int>(v)) == v ? static_cast<int>(v) : -2; }
};

#define MEMBER_X(T) \
    template<> \
    struct codec<T> { \
        static T enc(int x) { T t{}; t.x = x; return t; } \
        static int dec(const T &v) { return v.x; } \
    };
MEMBER_X(Agg)
MEMBER_X(Wide)
MEMBER_X(Final)
MEMBER_X(Base)
MEMBER_X(Derived)
MEMBER_X(Virt)
MEMBER_X(Fun)
MEMBER_X(Tiny)
MEMBER_X(Tri)
MEMBER_X(Pod)
MEMBER_X(Either)
MEMBER_X(Aligned)
template<>
struct codec<Spy> {
    static Spy enc(int x) { return Spy{ x }; }
    static int dec(const Spy &v) { v.check(); return v.x; }
};
template<>
struct codec<NoDefault> {
    static NoDefault enc(int x) { return NoDefault{ x }; }
    static int dec(const NoDefault &v) { return v.x; }
};
template<>
struct codec<Greedy> {
    static Greedy enc(int x) { return Greedy::of(x); }
    static int dec(const Greedy &v) { return v.x; }
};
inline const char *const long_text = "a text that does not fit in the object itself ";
template<>
struct codec<std::string> {
    static std::string enc(int x) { return x == 0 ? "" : x == 1 ? "one" : long_text + std::to_string(x); }
    static int dec(const std::string &v) { return v.empty() ? 0 : v == "one" ? 1 : v.rfind(long_text, 0) == 0 ? std::stoi(v.substr(std::strlen(long_text))) : -2; }
};
template<>
struct codec<std::vector<int>> {
    static std::vector<int> enc(int x) { return std::vector<int>(x, x); }
    static int dec(const std::vector<int> &v) { return static_cast<int>(v.size()); }
};
template<>
struct codec<std::array<int, 3>> {
    static std::array<int, 3> enc(int x) { return { x, x, x }; }
    static int dec(const std::array<int, 3> &v) { return v[0] == v[1] && v[1] == v[2] ? v[0] : -2; }
};
template<>
struct codec<std::unique_ptr<int>> {
    static std::unique_ptr<int> enc(int x) { return x ? std::make_unique<int>(x) : nullptr; }
    static int dec(const std::unique_ptr<int> &v) { return v ? *v : 0; }
};
template<>
struct codec<std::shared_ptr<int>> {
    static std::shared_ptr<int> enc(int x) { return x ? std::make_shared<int>(x) : nullptr; }
    static int dec(const std::shared_ptr<int> &v) { return v ? *v : 0; }
};
template<typename T>
struct codec<std::tuple<T>> {
    static std::tuple<T> enc(int x) { return std::tuple<T>{ rt::enc<T>(x) }; }
    static int dec(const std::tuple<T> &v) { return rt::dec(std::get<0>(v)); }
};
template<typename T, typename U>
struct codec<std::tuple<T, U>> {
    static std::tuple<T, U> enc(int x) { return std::tuple<T, U>{ rt::enc<T>(x), rt::enc<U>(x) }; }
    static int dec(const std::tuple<T, U> &v) { return rt::dec(std::get<0>(v)) == rt::dec(std::get<1>(v)) ? rt::dec(std::get<0>(v)) : -2; }
};
template<typename T, typename U>
struct codec<std::pair<T, U>> {
    static std::pair<T, U> enc(int x) { return { rt::enc<T>(x), rt::enc<U>(x) }; }
    static int dec(const std::pair<T, U> &v) { return rt::dec(v.first) == rt::dec(v.second) ? rt::dec(v.first) : -2; }
};
template<typename T>
struct codec<std::optional<T>> {
    static std::optional<T> enc(int x) { return x == 0 ? std::optional<T>{} : std::optional<T>{ rt::enc<T>(x) }; }
    static int dec(const std::optional<T> &v) { return v ? rt::dec(*v) : 0; }
};
inline const int numbers[] = { 0, 1, 2, 3, 4, 5, 6, 7 };
template<>
struct codec<const int *> {
    static const int *enc(int x) { return x ? numbers + x : nullptr; }
    static int dec(const int *const &v) { return v ? *v : 0; }
};
inline int fun0() { return 0; }
inline int fun1() { return 1; }
inline int fun2() { return 2; }
template<>
struct codec<int (*)()> {
    static auto enc(int x) -> int (*)() { return x == 0 ? nullptr : x == 1 ? fun1 : fun2; }
    static int dec(int (*const &v)()) { return v ? v() : 0; }
};
template<>
struct codec<std::function<int()>> {
    static std::function<int()> enc(int x) { return x ? std::function<int()>{ [x] { return x; } } : std::function<int()>{}; }
    static int dec(const std::function<int()> &v) { return v ? v() : 0; }
};
template<typename T>
    requires std::is_empty_v<T> && requires(const T &t) { t.id(); }
struct codec<T> {
    static int dec(const T &v) { return v.id(); }
};
inline const auto empty_lambda = [](auto... xs) { return (40 + ... + xs); };
using EmptyLambda = std::remove_const_t<decltype(empty_lambda)>;
template<>
struct codec<EmptyLambda> {
    static int dec(const EmptyLambda &v) { return v(2); }
};

// ------------------------------------------------------------------ categories

template<typename T>
constexpr const char *category() {
    if constexpr (std::is_lvalue_reference_v<T>)
        return std::is_const_v<std::remove_reference_t<T>> ? "clv" : "lv";
    else if constexpr (std::is_rvalue_reference_v<T>)
        return std::is_const_v<std::remove_reference_t<T>> ? "crv" : "rv";
    else
        return "value";
}

// calls f with x as a value of the category
template<typename T, typename F>
void as_category(const std::string &cat, T &x, F f) {
    if (cat == "lv") f(x);
    else if (cat == "clv") f(std::as_const(x));
    else if (cat == "rv") f(std::move(x));
    else if (cat == "crv") f(std::move(std::as_const(x)));
    else std::abort();
}

// calls f with the number i as a type
template<size_t N, typename F>
void with_index(size_t i, F f) {
    [&]<size_t... I>(std::index_sequence<I...>) {
        ((I == i ? (f(std::integral_constant<size_t, I>{}), 0) : 0), ...);
    }(std::make_index_sequence<N>{});
}

// ------------------------------------------------------------------ output

inline std::string str(const std::string &s) { return '"' + s + '"'; }
inline std::string num(long x) { return std::to_string(x); }
template<typename C>
std::string list(const C &xs) {
    std::string s = "[";
    bool first = true;
    for (const auto &x : xs) {
        if (!first) s += ',';
        first = false;
        if constexpr (std::is_arithmetic_v<std::remove_cvref_t<decltype(x)>>) s += std::to_string(x);
        else s += x;
    }
    return s + "]";
}
struct Obj {
    std::string s = "{";
    Obj &add(const char *k, const std::string &json) {
        if (s.size() > 1) s += ',';
        s += '"';
        s += k;
        s += "\":";
        s += json;
        return *this;
    }
    Obj &n(const char *k, long x) { return add(k, std::to_string(x)); }
    Obj &t(const char *k, const std::string &x) { return add(k, str(x)); }
    std::string done() const { return s + "}"; }
};

// scripts: one per line, operations separated by ';', words by ' '.  F is made
// anew for each script, and gives an observation (JSON) for each operation.
using Words = std::vector<std::string>;
template<typename F>
int run_scripts(const char *file) {
    std::ifstream in{ file };
    std::string line;
    while (std::getline(in, line)) {
        std::string out = "[";
        {
            F f;
            std::istringstream ops{ line };
            std::string op;
            bool first = true;
            while (std::getline(ops, op, ';')) {
                std::istringstream ws{ op };
                Words w{ std::istream_iterator<std::string>{ ws }, {} };
                if (!first) out += ',';
                first = false;
                out += f(w);
            }
        }
        std::cout << out << "]" << std::endl;
    }
    return 0;
}

} // namespace rt
