// Runtime of the generated programs that use the real pigro::lazy: functions
// that record what is done with them, and value types of many kinds.
#pragma once

#include "pigro/lazy.h"

#include <algorithm>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

// With PARALLEL, several scripts are run at the same time, each on a thread of
// its own with everything of its own. Which thread runs is decided here, such
// that a run can be repeated: at every event, and when a function is entered,
// another one may take over.
#ifdef PARALLEL
#include <condition_variable>
#include <mutex>
#define RT_OWN thread_local
#else
#define RT_OWN
#endif

namespace rt {

#ifdef PARALLEL
inline std::mutex turn_m;
inline std::condition_variable turn_cv;
inline std::vector<int> running; // the threads that are not done
inline int turn = 0;
inline unsigned turn_rng = 1;
inline thread_local int me = 0;
inline void next_turn() {
    turn_rng = turn_rng * 1103515245u + 12345u;
    if (!running.empty()) turn = running[(turn_rng >> 16) % running.size()];
    turn_cv.notify_all();
}
inline void await_turn() {
    auto l = std::unique_lock{ turn_m };
    turn_cv.wait(l, [] { return turn == me; });
}
inline void hand_over() {
    {
        const auto l = std::lock_guard{ turn_m };
        next_turn();
    }
    await_turn();
}
inline void leave() {
    const auto l = std::lock_guard{ turn_m };
    running.erase(std::find(running.begin(), running.end(), me));
    next_turn();
}
#else
inline void hand_over() {}
#endif

inline RT_OWN std::string log_;
inline RT_OWN bool first_ = true;
inline RT_OWN bool silent = false;

inline void ev(const std::string &s) {
    if (silent) return;
    if (!first_) log_ += ',';
    first_ = false;
    log_ += s;
    hand_over();
}

inline RT_OWN int var[16];
inline RT_OWN bool in_call = false;

enum Arm { none, throw_, set_, cmp_, copy_, call_, clone_ };
struct Armed {
    Arm w = none;
    int v = 0, x = 0;
};
inline RT_OWN Armed armed[16][16]; // [node][dependency; 0: the function itself]

// other objects are called or copied by a function
inline void (*do_call)(int o);
inline void (*do_copy)(int o);
inline void nested(int n, int i) {
    const auto a = armed[n][i];
    if (a.w != call_ && a.w != clone_) return;
    armed[n][i] = {};
    (a.w == call_ ? do_call : do_copy)(a.x);
}

// what is thrown: of different types, in turn
inline RT_OWN int boom_id = 0;
struct Boom {
    int id;
};
struct BoomRuntime : std::runtime_error {
    int id;
    explicit BoomRuntime(int id) : std::runtime_error{ "boom" }, id{ id } {}
};
struct BoomAlloc : std::bad_alloc {
    int id;
    explicit BoomAlloc(int id) : id{ id } {}
};
struct BoomLogic : std::logic_error {
    int id;
    explicit BoomLogic(int id) : std::logic_error{ "boom" }, id{ id } {}
};
[[noreturn]] inline void raise() {
    switch (const auto id = ++boom_id; id % 5) {
    case 0: throw BoomRuntime{ id };
    case 1: throw BoomAlloc{ id };
    case 2: throw BoomLogic{ id };
    case 3: throw id;
    default: throw Boom{ id };
    }
}

inline std::string kv(const char *k, long v) {
    return std::string{ ",\"" } + k + "\":" + std::to_string(v);
}

inline void set(int v, int x) {
    var[v] = x;
    ev("{\"e\":\"set\"" + kv("v", v) + kv("x", x) + "}");
}

inline std::string seq(const std::vector<int> &a) {
    auto s = std::string{ "[" };
    for (size_t i = 0; i < a.size(); ++i)
        s += (i ? "," : "") + std::to_string(a[i]);
    return s + "]";
}

[[noreturn]] inline void boom(const std::string &event) {
    ev(event);
    raise();
}

[[noreturn]] inline void boom_other(int n, int i) {
    armed[n][i] = {};
    boom("{\"e\":\"throw\",\"w\":\"other\"}");
}

// ---------------------------------------------------------------- values

// A value that records comparisons, can be made to throw when it is compared or
// copied, and knows whether it is alive.
template<int N, int I>
struct Spy {
    int x;
    unsigned canary = 0xfeedbeef;

    explicit Spy(int x) : x{ x } {}
    Spy(const Spy &o) : x{ o.x }, canary{ o.canary } {
        hand_over();
        if (in_call && armed[N][I].w == copy_) boom_other(N, I);
    }
    Spy(Spy &&o) noexcept : x{ o.x }, canary{ o.canary } { hand_over(); }
    Spy &operator=(const Spy &o) {
        hand_over();
        if (in_call && armed[N][I].w == copy_) boom_other(N, I);
        x = o.x;
        canary = o.canary;
        return *this;
    }
    Spy &operator=(Spy &&o) noexcept {
        hand_over();
        x = o.x;
        canary = o.canary;
        return *this;
    }
    ~Spy() { *(volatile unsigned *)&canary = 0xdead; }

    friend bool operator==(const Spy &a, const Spy &b) {
        hand_over();
        if (in_call && armed[N][I].w == cmp_) boom_other(N, I);
        ev("{\"e\":\"cmp\"" + kv("n", N) + kv("i", I) + "}");
        return a.x == b.x;
    }
};

struct Big {
    std::array<int, 64> a;
    bool operator==(const Big &) const = default;
};

struct alignas(64) Aligned {
    int x;
    bool operator==(const Aligned &) const = default;
};
struct Final final {
    char c;
    int x;
    // only this one
    friend bool operator==(const Final &a, const Final &b) { return a.x == b.x; }
};
struct Virt {
    int x = 0;
    explicit Virt(int x) : x{ x } {}
    virtual ~Virt() = default;
    virtual int get() const { return x; }
    bool operator==(const Virt &o) const { return x == o.x; }
    bool operator!=(const Virt &o) const { return x != o.x; }
};
// a value that can be called, but not without arguments
struct Unary {
    int x;
    int operator()(int y) const { return x + y; }
    bool operator==(const Unary &) const = default;
};
// a type with a single value
struct Unit {
    bool operator==(const Unit &) const = default;
};
using Nested = std::pair<std::string, std::vector<std::optional<int>>>;
using Variant = std::variant<int, std::string>;

enum class Color : unsigned char {};

// equal values that are not the same: comparing is up to the type
struct Noisy {
    int x;
    int noise;
    bool operator==(const Noisy &o) const { return x == o.x; }
};
struct Zero { // wraps a double, to tell it from the other one
    double x;
    bool operator==(const Zero &) const = default;
};

template<typename T>
struct codec {
    static T make(int x) { return static_cast<T>(x); }
    static int read(const T &v) { return static_cast<int>(v); }
};
template<int N, int I>
struct codec<Spy<N, I>> {
    static auto make(int x) { return Spy<N, I>{ x }; }
    static int read(const Spy<N, I> &v) { return v.canary == 0xfeedbeef ? v.x : -99; }
};
// different values that are close, or agree in many bits
template<>
struct codec<double> {
    static double make(int x) { return 1.0 + x * 0x1p-52; }
    static int read(double v) { return static_cast<int>((v - 1.0) * 0x1p52); }
};
template<>
struct codec<int> {
    static int make(int x) { return x << 24; }
    static int read(int v) { return v & 0xffffff ? -99 : v >> 24; }
};
template<>
struct codec<long> {
    static long make(int x) { return (static_cast<long>(x) << 40) + 5; }
    static int read(long v) { return (v & 0xff) == 5 ? static_cast<int>(v >> 40) : -99; }
};
template<>
struct codec<std::size_t> {
    static std::size_t make(int x) { return static_cast<std::size_t>(x) << 57; }
    static int read(std::size_t v) { return static_cast<int>(v >> 57); }
};
template<>
struct codec<short> {
    static short make(int x) { return static_cast<short>(x << 8); }
    static int read(short v) { return v >> 8; }
};
template<>
struct codec<std::string> {
    static std::string make(int x) { return "a string that is too long for the small buffer " + std::to_string(x); }
    static int read(const std::string &v) { return v.size() > 47 ? std::atoi(v.c_str() + 47) : -99; }
};
template<>
struct codec<std::pair<int, int>> {
    static std::pair<int, int> make(int x) { return { x / 2, x % 2 }; }
    static int read(const std::pair<int, int> &v) { return v.first * 2 + v.second; }
};
template<>
struct codec<std::tuple<int, int>> {
    static std::tuple<int, int> make(int x) { return { x % 2, x / 2 }; }
    static int read(const std::tuple<int, int> &v) { return std::get<0>(v) + 2 * std::get<1>(v); }
};
template<>
struct codec<std::tuple<int>> {
    static std::tuple<int> make(int x) { return std::tuple<int>{ x }; }
    static int read(const std::tuple<int> &v) { return std::get<0>(v); }
};
template<>
struct codec<std::optional<int>> {
    static std::optional<int> make(int x) { return x == 0 ? std::nullopt : std::optional<int>{ x - 1 }; }
    static int read(const std::optional<int> &v) { return v ? *v + 1 : 0; }
};
template<>
struct codec<std::vector<int>> {
    static std::vector<int> make(int x) { return x % 2 ? std::vector{ 7, x, 7 } : std::vector{ 7, x, 7, 7 }; }
    static int read(const std::vector<int> &v) { return v.size() > 2 ? v[1] : -99; }
};
template<>
struct codec<std::array<int, 2>> {
    static std::array<int, 2> make(int x) { return { 5, x }; }
    static int read(const std::array<int, 2> &v) { return v[0] == 5 ? v[1] : -99; }
};
template<>
struct codec<Big> {
    static Big make(int x) {
        auto b = Big{};
        b.a[63] = x;
        return b;
    }
    static int read(const Big &v) { return v.a[0] == 0 ? v.a[63] : -99; }
};
template<>
struct codec<Noisy> {
    static Noisy make(int x) {
        static RT_OWN int noise = 0;
        return { x, ++noise };
    }
    static int read(const Noisy &v) { return v.x; }
};
template<>
struct codec<Zero> {
    static Zero make(int x) {
        static RT_OWN bool flip = false;
        flip = !flip;
        return { x == 0 && flip ? -0.0 : x };
    }
    static int read(const Zero &v) { return static_cast<int>(v.x); }
};
template<>
struct codec<float> {
    static float make(int x) {
        static RT_OWN bool flip = false;
        flip = !flip;
        return x == 0 && flip ? -0.0f : x;
    }
    static int read(float v) { return static_cast<int>(v); }
};
inline int cells[64];
template<>
struct codec<int *> {
    static int *make(int x) { return cells + x; }
    static int read(int *v) { return static_cast<int>(v - cells); }
};
template<>
struct codec<std::shared_ptr<int>> { // compared by identity
    static std::shared_ptr<int> make(int x) {
        static RT_OWN std::shared_ptr<int> p[64];
        if (!p[x]) p[x] = std::make_shared<int>(x);
        return p[x];
    }
    static int read(const std::shared_ptr<int> &v) { return v ? *v : -99; }
};
template<>
struct codec<Aligned> {
    static Aligned make(int x) { return { x }; }
    static int read(const Aligned &v) { return reinterpret_cast<std::uintptr_t>(&v) % 64 ? -98 : v.x; }
};
template<>
struct codec<Final> {
    static Final make(int x) { return { static_cast<char>(x), x }; }
    static int read(const Final &v) { return v.c == static_cast<char>(v.x) ? v.x : -99; }
};
template<>
struct codec<Virt> {
    static Virt make(int x) { return Virt{ x }; }
    static int read(const Virt &v) { return v.get(); }
};
template<>
struct codec<Unit> {
    static Unit make(int) { return {}; }
    static int read(const Unit &) { return 0; }
};
template<>
struct codec<Nested> {
    static Nested make(int x) { return { std::string(40, 'a' + x % 2), { std::nullopt, x / 2 } }; }
    static int read(const Nested &v) { return v.first.size() == 40 && v.second.size() == 2 ? (v.first[39] - 'a') + 2 * *v.second[1] : -99; }
};
template<>
struct codec<Variant> {
    static Variant make(int x) { return x % 2 ? Variant{ x } : Variant{ std::to_string(x) }; }
    static int read(const Variant &v) { return v.index() == 0 ? std::get<0>(v) : std::atoi(std::get<1>(v).c_str()); }
};
template<>
struct codec<long double> {
    static long double make(int x) { return 1.0L + x * 0x1p-63L; }
    static int read(long double v) { return static_cast<int>((v - 1.0L) * 0x1p63L); }
};
template<>
struct codec<Unary> {
    static Unary make(int x) { return { x }; }
    static int read(const Unary &v) { return v(0); }
};
template<>
struct codec<const char *> { // compared by identity
    static inline const char texts[] = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijkl";
    static const char *make(int x) { return texts + x; }
    static int read(const char *const &v) { return static_cast<int>(v - texts); }
};
template<>
struct codec<void> {};

inline int read(pigro::regular_void) { return -2; }
template<typename T>
int read(const T &v) {
    return codec<T>::read(v);
}

// ---------------------------------------------------------------- functions

enum class F { sum, max, pos, first, const_, void_ };

inline int apply(F f, int m, const std::vector<int> &args) {
    auto r = 0, b = 1;
    for (auto a : args) {
        a = a < 0 ? 0 : a;
        if (f == F::sum) r += a;
        if (f == F::max) r = a > r ? a : r;
        if (f == F::pos) r += b * a, b *= 3;
    }
    if (f == F::first && !args.empty()) r = args[0];
    return f == F::void_ ? -2 : r % m;
}

template<int N, typename R, F f, int m>
R eval(int k, const auto &...as) {
    hand_over();
    nested(N, 0);
    const auto args = std::vector<int>{ read(as)... };
    const auto a = armed[N][0];
    if (a.w == throw_) {
        armed[N][0] = {};
        boom("{\"e\":\"throw\",\"w\":\"eval\"" + kv("n", N) + kv("k", k) + ",\"a\":" + seq(args) + "}");
    }
    const auto r = apply(f, m, args);
    ev("{\"e\":\"eval\"" + kv("n", N) + kv("k", k) + ",\"a\":" + seq(args) + kv("r", r) + "}");
    if (a.w == set_) {
        armed[N][0] = {};
        set(a.v, a.x);
    }
    if constexpr (!std::is_void_v<R>) return codec<R>::make(r);
}

template<int N, int I, typename R, int v>
R poll(int k) {
    hand_over();
    nested(N, I);
    const auto a = armed[N][I];
    if (a.w == throw_) {
        armed[N][I] = {};
        boom("{\"e\":\"throw\",\"w\":\"poll\"" + kv("n", N) + kv("i", I) + kv("k", k) + "}");
    }
    const auto x = var[v];
    ev("{\"e\":\"poll\"" + kv("n", N) + kv("i", I) + kv("k", k) + kv("x", x) + "}");
    if (a.w == set_) {
        armed[N][I] = {};
        set(a.v, a.x);
    }
    return codec<R>::make(x);
}

// functions with state of their own
template<int N, typename R, F f, int m>
struct StatefulF {
    int k = 0;
    R operator()(const auto &...as) { return eval<N, R, f, m>(++k, as...); }
};
template<int N, int I, typename R, int v>
struct StatefulS {
    int k = 0;
    R operator()() { return poll<N, I, R, v>(++k); }
};
// state on the heap, deeply copied
struct Heap {
    std::unique_ptr<int> k = std::make_unique<int>(0);
    Heap() = default;
    Heap(const Heap &o) : k{ std::make_unique<int>(*o.k) } {}
    Heap(Heap &&) = default;
    Heap &operator=(const Heap &) = delete;
};
template<int N, typename R, F f, int m>
struct HeapF : Heap {
    R operator()(const auto &...as) { return eval<N, R, f, m>(++*k, as...); }
    // for const objects (which these are not)
    R operator()(const auto &...as) const { return eval<N, R, f, m>(*k, as...); }
};
template<int N, int I, typename R, int v>
struct HeapS : Heap {
    R operator()() { return poll<N, I, R, v>(++*k); }
    R operator()() const { return poll<N, I, R, v>(*k); }
};
// a lot of it
struct Fat {
    int before[64] = {};
    int k = 0;
    int after[64] = {};
};
template<int N, typename R, F f, int m>
struct FatF : Fat {
    R operator()(const auto &...as) { return eval<N, R, f, m>(++k, as...); }
};
template<int N, int I, typename R, int v>
struct FatS : Fat {
    R operator()() { return poll<N, I, R, v>(++k); }
};
// what they return stays theirs
template<typename R>
struct Kept {
    std::optional<R> r;
    const R &keep(R x) {
        r.reset();
        return r.emplace(std::move(x));
    }
};
template<>
struct Kept<void> {};
template<int N, typename R, F f, int m>
struct RefF : Kept<R> {
    int k = 0;
    decltype(auto) operator()(const auto &...as) {
        if constexpr (std::is_void_v<R>) eval<N, R, f, m>(++k, as...);
        else return this->keep(eval<N, R, f, m>(++k, as...));
    }
};
template<int N, int I, typename R, int v>
struct RefS : Kept<R> {
    int k = 0;
    decltype(auto) operator()() { return this->keep(poll<N, I, R, v>(++k)); }
};
// not as const, and what they return is const
template<int N, typename R, F f, int m>
struct ConstF {
    int k = 0;
    const R operator()(const auto &...as) { return eval<N, R, f, m>(++k, as...); }
    void operator()(const auto &...as) const = delete;
};
template<int N, int I, typename R, int v>
struct ConstS {
    int k = 0;
    const R operator()() { return poll<N, I, R, v>(++k); }
    void operator()() const = delete;
};
// without
template<int N, typename R, F f, int m>
struct EmptyF {
    R operator()(const auto &...as) const { return eval<N, R, f, m>(-1, as...); }
};
template<int N, int I, typename R, int v>
struct EmptyS {
    R operator()() const { return poll<N, I, R, v>(-1); }
};
// empty, but called through a non-const operator, with arguments by value
template<int N, typename R, F f, int m>
struct EmptyMutF {
    R operator()(auto... as) { return eval<N, R, f, m>(-1, as...); }
};
template<int N, int I, typename R, int v>
struct EmptyMutS {
    R operator()() { return poll<N, I, R, v>(-1); }
};

inline RT_OWN bool ctx = true;

template<int N, typename R, F f, int m>
auto lambda_f() {
    return [&c = ctx](const auto &...as) -> R { return eval<N, R, f, m>(c ? -1 : -2, as...); };
}
template<int N, int I, typename R, int v>
auto lambda_s() {
    return [&c = ctx]() -> R { return poll<N, I, R, v>(c ? -1 : -2); };
}
template<int N, typename R, F f, int m>
auto mutable_f() {
    return [k = 0](const auto &...as) mutable -> R { return eval<N, R, f, m>(++k, as...); };
}
template<int N, int I, typename R, int v>
auto mutable_s() {
    return [k = 0]() mutable -> R { return poll<N, I, R, v>(++k); };
}
template<int N, typename R, F f, int m, typename... As>
R function_f(As... as) {
    return eval<N, R, f, m>(-1, as...);
}
template<int N, int I, typename R, int v>
R function_s() {
    return poll<N, I, R, v>(-1);
}

// ---------------------------------------------------------------- driver

inline RT_OWN std::vector<std::pair<int, int>> objs; // node, index in its store

template<typename O>
using Store = std::vector<std::unique_ptr<O>>;

inline void copied(int o, int n, int i, const char *what) {
    ev(std::string{ "{\"e\":\"" } + what + "\"" + kv("o", o) + "}");
    objs.emplace_back(n, i);
}

inline RT_OWN std::vector<int> busy; // objects that are being called
inline bool is_busy(int o) { return std::find(busy.begin(), busy.end(), o) != busy.end(); }
inline void over() {
    busy.pop_back();
    in_call = !busy.empty();
}

inline void caught(int id) {
    over();
    ev(id == boom_id ? "{\"e\":\"exc\"}" : "{\"e\":\"other exception\"}");
}

template<typename O>
void call_plainly(int o, O &obj) {
    ev("{\"e\":\"call\"" + kv("o", o) + "}");
    in_call = true;
    busy.push_back(o);
    try {
        if constexpr (std::is_void_v<decltype(obj())>) {
            obj();
            over();
            ev("{\"e\":\"ret\"" + kv("x", -2) + "}");
        } else {
            auto &&r = obj();
            over();
            ev("{\"e\":\"ret\"" + kv("x", read(r)) + "}");
        }
    } catch (const Boom &b) {
        caught(b.id % 5 == 4 ? b.id : -1);
    } catch (const BoomRuntime &b) {
        caught(b.id);
    } catch (const BoomAlloc &b) {
        caught(b.id);
    } catch (const BoomLogic &b) {
        caught(b.id);
    } catch (int id) {
        caught(id % 5 == 3 ? id : -1);
    } catch (...) {
        caught(-1);
    }
}

// Calls are made in different circumstances: it should not matter.
inline RT_OWN unsigned circumstance = 0;

template<typename F>
struct AtExit {
    F f;
    ~AtExit() { f(); }
};
template<typename F>
AtExit(F) -> AtExit<F>;

template<typename O>
void call(int o, O &obj) {
    circumstance = circumstance * 1103515245u + 12345u;
    switch (circumstance >> 16 & 15) {
#ifndef PARALLEL
    case 1: // on another thread
        std::thread{ [&] { call_plainly(o, obj); } }.join();
        break;
#endif
    case 2: // while an exception is on its way
        try {
            const auto g = AtExit{ [&] { call_plainly(o, obj); } };
            throw 1;
        } catch (int) {
        }
        break;
    case 3: // while an exception is handled
        try {
            throw 1;
        } catch (int) {
            call_plainly(o, obj);
        }
        break;
    default:
        call_plainly(o, obj);
    }
}

// The scripts of a file, one after another or several at a time. The result of
// each is written to a line.
template<typename Reset, typename Run>
int main_(const char *file, Reset reset, Run run) {
    auto in = std::ifstream{ file };
    auto one = [&](std::istream &in) {
        for (auto &v : var) v = 0;
        for (auto &r : armed)
            for (auto &a : r) a = {};
        objs.clear();
        log_.clear();
        first_ = true;
        reset();
        run(in);
        return "[" + log_ + "]";
    };
    std::string op;
#ifndef PARALLEL
    while (in >> op >> circumstance) { // "run"
        std::puts(one(in).c_str());
        std::fflush(stdout);
    }
#else
    std::vector<std::string> scripts, out;
    for (std::string line; std::getline(in, line);) {
        if (line.starts_with("run ")) scripts.emplace_back();
        scripts.back() += line + '\n';
    }
    out.resize(scripts.size());
    running = { 0, 1, 2 };
    std::vector<std::thread> threads;
    for (auto t = 0; t < 3; ++t)
        threads.emplace_back([&, t] {
            me = t;
            await_turn();
            for (auto i = static_cast<std::size_t>(t); i < scripts.size(); i += 3) {
                auto script = std::istringstream{ scripts[i] };
                std::string op;
                script >> op >> circumstance;
                out[i] = one(script);
            }
            reset();
            leave();
        });
    for (auto &t : threads) t.join();
    for (const auto &o : out) std::puts(o.c_str());
#endif
    return 0;
}

} // namespace rt
