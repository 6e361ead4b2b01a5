// Sizes of things (spec/Layout.tla).
#pragma once
#include "rt.h"
#include "pigro/bind_tuple.h"
#include "pigro/compressed_tuple.h"
#include "pigro/lazy.h"
#include "pigro/overload.h"
#include "pigro/recursive.h"
#include "pigro/regular_void.h"
#include "pigro/uncapture.h"

namespace rt {

struct Bytes {
    char data[24] = {};
    bool operator==(const Bytes &) const = default;
};
struct Block {
    double data[6] = {};
    bool operator==(const Block &) const = default;
};

template<int Id>
struct NoData {
    NoData() = default;
    // some are not trivial
    NoData(const NoData &) requires(Id % 2 == 1) {}
    NoData(const NoData &) = default;
    NoData &operator=(const NoData &) = default;
    ~NoData() requires(Id % 2 == 1) {}
    ~NoData() = default;
    auto operator<=>(const NoData &) const = default;
};

// a callable that holds a T, or nothing
template<typename T, int Id>
struct Callable {
    T data{};
    void operator()(auto &&...) const {}
};
template<int Id>
struct Callable<void, Id> {
    Callable() = default;
    // some are not trivial
    Callable(const Callable &) requires(Id % 2 == 1) {}
    Callable(const Callable &) = default;
    Callable &operator=(const Callable &) = default;
    ~Callable() requires(Id % 2 == 1) {}
    ~Callable() = default;
    void operator()(auto &&...) const {}
};

// a function of a lazy object, with result R
template<typename T, typename R, int Id>
struct LazyFn {
    T data{};
    R operator()(auto &&...) const { return R(); }
};
template<typename R, int Id>
struct LazyFn<void, R, Id> {
    LazyFn() = default;
    // some are not trivial
    LazyFn(const LazyFn &) requires(Id % 2 == 1) {}
    LazyFn(const LazyFn &) = default;
    LazyFn &operator=(const LazyFn &) = default;
    ~LazyFn() requires(Id % 2 == 1) {}
    ~LazyFn() = default;
    R operator()(auto &&...) const { return R(); }
};

template<typename... Es, typename F>
auto front(pigro::compressed_tuple<Es...> t, F f) { return std::move(t) >> std::move(f); }
template<typename... Es, typename F>
auto back(pigro::compressed_tuple<Es...> t, F f) { return std::move(t) << std::move(f); }

template<typename T>
std::string measure() {
    return "[" + num(sizeof(T)) + "," + num(alignof(T)) + "]";
}

inline void table() {
    Obj v, f, o;
    v.add("c", measure<char>()).add("i", measure<int>()).add("d", measure<double>()).add("w", measure<Wide>()).add("s", measure<Bytes>()).add("b", measure<Block>()).add("t", measure<std::string>()).add("r", measure<int *>());
    f.add("c", measure<Callable<char, 0>>()).add("i", measure<Callable<int, 0>>()).add("d", measure<Callable<double, 0>>()).add("w", measure<Callable<Wide, 0>>()).add("s", measure<Callable<Bytes, 0>>()).add("b", measure<Callable<Block, 0>>()).add("t", measure<Callable<std::string, 0>>());
    o.add("c", measure<std::optional<char>>()).add("i", measure<std::optional<int>>()).add("d", measure<std::optional<double>>()).add("w", measure<std::optional<Wide>>()).add("s", measure<std::optional<Bytes>>()).add("b", measure<std::optional<Block>>()).add("t", measure<std::optional<std::string>>()).add("v", measure<bool>());
    std::cout << Obj{}.add("v", v.done()).add("f", f.done()).add("o", o.done()).done() << "\n";
}

template<typename T, typename Bare>
void size_of() {
    std::cout << Obj{}.n("size", sizeof(T)).n("empty", std::is_empty_v<T>).n("bare", sizeof(Bare)).done() << "\n";
}

} // namespace rt
