// Runtime of the programs with constructs inside constructs: the functions at
// the leaves, and objects made of a tree.
#pragma once

#include "pigro/apply.h"
#include "pigro/bind_tuple.h"
#include "pigro/compressed_tuple.h"
#include "pigro/fwd_capture.h"
#include "pigro/lazy.h"
#include "pigro/overload.h"
#include "pigro/recursive.h"
#include "pigro/regular_void.h"
#include "pigro/uncapture.h"
#include "rt.h"

#include <algorithm>
#include <set>

namespace rt {

struct Log {
    int id, n;
    std::vector<int> a;
    int r;
};
inline std::vector<Log> log_;
inline std::set<int> arm;
struct Boom {};

inline int value_of(int x) { return x; }
inline int value_of(pigro::regular_void) { return -2; }
template<typename T>
int value_of(const T &x) { return dec(x); }

inline int leaf(int id, int n, std::vector<int> a, bool nothing) {
    if (arm.erase(id)) {
        log_.push_back({ id, n, std::move(a), -1 });
        throw Boom{};
    }
    auto r = (3 * id + n) % 97;
    for (auto x : a) r = ((r * 7 + x) % 97 + 97) % 97;
    if (nothing) r = -2;
    log_.push_back({ id, n, std::move(a), r });
    return r;
}

// functions with a fixed number of arguments
template<int Id, size_t Ar>
struct Plain {
    int n = 0;
    template<typename... As>
        requires(sizeof...(As) == Ar)
    int operator()(As &&...as) { return leaf(Id, ++n, { value_of(as)... }, false); }
};
template<int Id, size_t Ar>
struct Heap {
    std::unique_ptr<int> n = std::make_unique<int>(0);
    Heap() = default;
    Heap(const Heap &o) : n{ std::make_unique<int>(*o.n) } {}
    Heap(Heap &&) = default;
    template<typename... As>
        requires(sizeof...(As) == Ar)
    int operator()(As... as) { return leaf(Id, ++*n, { value_of(as)... }, false); }
};
template<int Id, size_t Ar>
struct Free {
    template<typename... As>
        requires(sizeof...(As) == Ar)
    int operator()(const As &...as) const { return leaf(Id, 0, { value_of(as)... }, false); }
};
template<int Id, size_t Ar>
struct Nothing {
    int n = 0;
    template<typename... As>
        requires(sizeof...(As) == Ar)
    void operator()(As &&...as) { leaf(Id, ++n, { value_of(as)... }, true); }
};
template<int Id, size_t Ar>
auto lambda() {
    return [n = 0]<typename... As>(As &&...as) mutable -> int requires(sizeof...(As) == Ar) { return leaf(Id, ++n, { value_of(as)... }, false); };
}

// a function that calls itself once more
template<typename F>
struct Again {
    F f;
    bool inner = false;
    template<typename... As>
    auto operator()(auto &&self, As &&...as) -> std::invoke_result_t<F &, As &...> {
        if (!inner) {
            struct Leave {
                bool &b;
                ~Leave() { b = false; }
            };
            {
                const auto l = Leave{ inner = true };
                self(as...);
            }
        }
        return f(as...);
    }
};
template<typename F>
Again(F) -> Again<F>;

// a function applied to its arguments as a tuple, as an element of a
// compressed tuple, or in a capture
template<typename F>
struct Applied {
    F f;
    template<typename... As>
    auto operator()(As &&...as) -> std::invoke_result_t<F &, As &...> {
        if constexpr (sizeof...(As) == 2) {
            auto t = std::pair<As &...>{ as... };
            return pigro::apply(f, t);
        } else if constexpr (sizeof...(As) == 1) {
            return pigro::apply(f, pigro::compressed_tuple<As &...>{ as... });
        } else {
            auto t = std::tuple<As &...>{ as... };
            return pigro::apply(f, t);
        }
    }
};
auto through_apply(auto f) { return Applied<decltype(f)>{ std::move(f) }; }

template<typename F>
struct Element {
    pigro::compressed_tuple<Empty<1>, F, int> t;
    template<typename... As>
    auto operator()(As &&...as) -> std::invoke_result_t<F &, As...> {
        return get<1>(t)(std::forward<As>(as)...);
    }
};
auto through_elem(auto f) { return Element<decltype(f)>{ pigro::compressed_tuple<Empty<1>, decltype(f), int>{ Empty<1>{}, std::move(f), 3 } }; }

auto captured(auto &&f) {
    return [f = pigro::FWD_CAPTURE(f)](auto &&...as) mutable -> std::invoke_result_t<std::remove_reference_t<decltype(f)> &, decltype(as)...> {
        return pigro::access(f)(FWD(as)...);
    };
}
auto through_cap(auto f) { return captured(std::move(f)); }

template<typename T>
T v(int x) {
    if constexpr (std::is_empty_v<T>) return T{};
    else if constexpr (std::is_same_v<T, int>) return x;
    else return enc<T>(x);
}

template<typename R>
const char *type_name() {
    if constexpr (std::is_void_v<R>) return "void";
    else if constexpr (std::is_same_v<R, int>) return "int";
    else if constexpr (std::is_same_v<R, pigro::regular_void>) return "regular_void";
    else return "other";
}

struct Any {
    virtual ~Any() = default;
    virtual std::string call(const std::vector<int> &a, int how) = 0;
    virtual std::unique_ptr<Any> copy() const = 0;
    virtual std::unique_ptr<Any> move() = 0;
};

// the arguments of a call: numbers and texts, lvalues and rvalues
template<size_t N, size_t I = 0>
void with_args(const std::vector<int> &a, int how, auto f, auto &&...as) {
    if constexpr (I == N) f(FWD(as)...);
    else if ((how >> I & 1) == 0) {
        auto x = enc<std::string>(a[I]);
        with_args<N, I + 1>(a, how, f, FWD(as)..., x);
    } else {
        with_args<N, I + 1>(a, how, f, FWD(as)..., int(a[I]));
    }
}

template<typename T, bool ask, size_t... Arities>
struct Of : Any {
    T t;
    explicit Of(T &&t) : t{ std::move(t) } {}
    Of(const Of &) = default;
    Of(Of &&) = default;

    int r = -1, thrown = 0;
    const char *type = "none";

    template<typename... As>
    void call_with(int how, As &&...as) {
        using R = decltype(t(std::forward<As>(as)...));
        type = type_name<R>();
        try {
            if constexpr (std::is_void_v<R>) {
                if (how & 64) std::invoke(t, std::forward<As>(as)...);
                else t(std::forward<As>(as)...);
                r = -2;
            } else {
                r = value_of(how & 64 ? std::invoke(t, std::forward<As>(as)...) : t(std::forward<As>(as)...));
            }
        } catch (const Boom &) {
            thrown = 1;
        }
    }
    template<size_t N>
    void call_n(const std::vector<int> &a, int how) {
        with_args<N>(a, how, [&](auto &&...as) { call_with(how, FWD(as)...); });
    }

    std::string call(const std::vector<int> &a, int how) override {
        log_.clear();
        r = -1, thrown = 0, type = "none";
        ((a.size() == Arities ? call_n<Arities>(a, how) : void()), ...);
        std::vector<std::string> calls;
        for (const auto &l : log_) calls.push_back(Obj{}.n("id", l.id).n("n", l.n).add("a", list(l.a)).n("r", l.r).done());
        auto o = Obj{};
        o.add("log", list(calls)).n("r", r).n("thrown", thrown).t("type", type);
        if constexpr (ask) {
            o.add("asked", list(std::vector<int>{ std::is_invocable_v<T &>, std::is_invocable_v<T &, int>, std::is_invocable_v<T &, int, int>,
                                                  std::is_invocable_v<T &, int, int, std::string>, std::is_invocable_v<T &, int, int, int, int>,
                                                  std::is_invocable_v<T &, int, int, int, int, int> }));
        }
        return o.done();
    }
    std::unique_ptr<Any> copy() const override { return std::make_unique<Of>(*this); }
    std::unique_ptr<Any> move() override { return std::make_unique<Of>(std::move(*this)); }
};

template<bool ask, size_t... Arities>
std::unique_ptr<Any> any(auto t) {
    return std::make_unique<Of<decltype(t), ask, Arities...>>(std::move(t));
}

std::unique_ptr<Any> make_tree(int k); // by the program

struct ComposeRun {
    std::vector<std::unique_ptr<Any>> objs;
    ComposeRun() { arm.clear(); }
    std::string operator()(const Words &w) {
        const auto i = w.size() > 1 ? std::stoi(w[1]) : 0;
        if (w[0] == "tree") objs.push_back(make_tree(i));
        if (w[0] == "arm") arm.insert(i);
        if (w[0] == "copy") objs.push_back(objs[i - 1]->copy());
        if (w[0] == "move") objs.push_back(objs[i - 1]->move()), objs[i - 1].reset();
        if (w[0] == "drop") objs[i - 1].reset();
        if (w[0] == "call") {
            auto a = std::vector<int>{};
            for (size_t k = 3; k < w.size(); ++k) a.push_back(std::stoi(w[k]));
            return objs[i - 1]->call(a, std::stoi(w[2]));
        }
        return "{\"done\":1}";
    }
};

} // namespace rt
