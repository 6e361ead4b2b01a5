// Recursive functions (spec/Recursive.tla).
#pragma once
#include "rt.h"
#include "pigro/overload.h"
#include "pigro/recursive.h"

namespace rt {

enum Self { byvalue,
    byref,
    byfwd,
    bycref };

inline std::vector<std::string> invocations;
inline const void *root = nullptr;
inline const void *the_x = nullptr;

template<int Ret, typename X>
using result = std::conditional_t<Ret == 0, int, std::conditional_t<Ret == 1, std::remove_reference_t<X> &, void>>;

// the body of all functions; self: what the inner calls use
template<int Ret, typename S, typename X>
auto recurse(S &&self, int d, X &x) -> result<Ret, X &> {
    if constexpr (Ret == 0) {
        int r = 1;
        if (d >= 1) r += std::forward<S>(self)(d - 1, x);
        if (d >= 2) r += 2 * std::forward<S>(self)(d - 2, x);
        return r;
    } else {
        if (d >= 1) std::forward<S>(self)(d - 1, x);
        if (d >= 2) std::forward<S>(self)(d - 2, x);
        if constexpr (Ret == 1) return x;
    }
}

template<typename S, typename X>
void note(const char *cat, const void *me, const char *selfcat, const void *self, int d, int n, X &x) {
    invocations.push_back(Obj{}.n("d", d).n("n", n).t("this", cat).t("self", selfcat).t("x", std::addressof(x) == the_x ? category<S>() : "copy")
                            .n("root", me == root)
                            .n("same", me == self)
                            .done());
}

template<Self K, int Ret>
struct Function {
    int n = 0;
    Spy spy;

#define OPERATOR(QUAL, CAT, COUNT) \
    template<typename S, typename X> \
        requires(K == byref || K == byfwd) \
    auto operator()(S &&self, int d, X &&x) QUAL -> result<Ret, X> { \
        const int k = COUNT; \
        note<X &&>(CAT, this, category<S &&>(), std::addressof(self), d, k, x); \
        if constexpr (K == byfwd) return recurse<Ret>(std::forward<S>(self), d, x); \
        else return recurse<Ret>(self, d, x); \
    } \
    template<typename S, typename X> \
        requires(K == bycref) \
    auto operator()(const S &self, int d, X &&x) QUAL -> result<Ret, X> { \
        const int k = COUNT; \
        note<X &&>(CAT, this, category<const S &>(), std::addressof(self), d, k, x); \
        return recurse<Ret>(self, d, x); \
    } \
    template<typename S, typename X> \
        requires(K == byvalue) \
    auto operator()(S self, int d, X &&x) QUAL -> result<Ret, X> { \
        const int k = COUNT; \
        note<X &&>(CAT, this, category<S>(), std::addressof(self), d, k, x); \
        return recurse<Ret>(self, d, x); \
    }
    OPERATOR(&, "lv", ++n)
    OPERATOR(&&, "rv", ++n)
    OPERATOR(const &, "clv", n)
    OPERATOR(const &&, "crv", n)
#undef OPERATOR
};

// lambdas; the first member is not accessible, but the lambda is the only base
template<Self K, int Ret, bool Mutable>
auto lambda() {
#define LAMBDA(SELF, SELFCAT, MUT, COUNT, FWD_) \
    [n = 0, spy = Spy{}](SELF self, int d, auto &&x) MUT -> result<Ret, decltype(x)> { \
        const int k = COUNT; \
        note<decltype(x)>("lambda", static_cast<const void *>(&n), SELFCAT, std::addressof(self), d, k, x); \
        return recurse<Ret>(FWD_, d, x); \
    }
    if constexpr (Mutable) {
        if constexpr (K == byvalue) return LAMBDA(auto, "value", mutable, ++n, self);
        else if constexpr (K == byref) return LAMBDA(auto &&, category<decltype(self)>(), mutable, ++n, self);
        else return LAMBDA(auto &&, category<decltype(self)>(), mutable, ++n, std::forward<decltype(self)>(self));
    } else {
        if constexpr (K == byvalue) return LAMBDA(auto, "value", , n, self);
        else if constexpr (K == byref) return LAMBDA(auto &&, category<decltype(self)>(), , n, self);
        else if constexpr (K == byfwd) return LAMBDA(auto &&, category<decltype(self)>(), , n, std::forward<decltype(self)>(self));
        else return LAMBDA(const auto &, "clv", , n, self);
    }
#undef LAMBDA
}

struct Unrelated {
    int operator()(auto &&, const char *) const { return 77; }
    int operator()(auto &&) const { return 78; }
};

enum Wrap { plain,
    lam,
    mutlam,
    over };

template<Wrap W, Self K, int Ret>
auto make_recursive() {
    if constexpr (W == plain) return pigro::recursive{ Function<K, Ret>{} };
    else if constexpr (W == over) return pigro::recursive{ pigro::overload{ Function<K, Ret>{}, Unrelated{} } };
    else if constexpr (W == lam) return pigro::recursive{ lambda<K, Ret, false>() };
    else return pigro::recursive{ lambda<K, Ret, true>() };
}

template<Wrap W, Self K, int Ret>
struct RecursiveRun {
    using R = decltype(make_recursive<W, K, Ret>());
    R original = make_recursive<W, K, Ret>();
    std::unique_ptr<R> copy;
    Spy x;

    template<typename O, typename X>
    void call(O &&o, int d, X &&a, Obj &out, bool &done) {
        invocations.clear();
        copies = 0;
        root = std::addressof(o);
        the_x = std::addressof(a);
        if constexpr (std::is_invocable_v<O, int, X>) {
            static_assert(std::is_same_v<std::invoke_result_t<O, int, X>, result<Ret, X>>);
            int r = 0;
            std::string rat = "void";
            if constexpr (Ret == 0) r = std::forward<O>(o)(d, std::forward<X>(a)), rat = "value";
            else if constexpr (Ret == 1) {
                auto &y = std::forward<O>(o)(d, std::forward<X>(a));
                rat = std::addressof(y) == the_x ? "x" : "elsewhere";
            } else
                std::forward<O>(o)(d, std::forward<X>(a));
            out.add("calls", list(invocations)).n("r", r).t("rat", rat);
            done = true;
        }
    }

    std::string operator()(const Words &w) {
        Obj out;
        bool done = false;
        if (w[0] == "copy") copy = std::make_unique<R>(original), done = true;
        else if (w[0] == "back") copy.reset(), done = true;
        else {
            const int d = std::stoi(w[2]);
            as_category(w[1], copy ? *copy : original, [&]<typename O>(O &&o) {
                if (w[3] == "lv") call(std::forward<O>(o), d, x, out, done);
                else if (w[3] == "clv") call(std::forward<O>(o), d, std::as_const(x), out, done);
                else call(std::forward<O>(o), d, Spy{}, out, done);
            });
        }
        return out.n("copies", copies).n("done", done).done();
    }
};

// usable in constant expressions
static_assert(pigro::recursive{ [](auto &&self, int n) -> int { return n ? n * self(n - 1) : 1; } }(5) == 120);
static_assert(pigro::recursive{ [](auto self, int n) -> int { return n < 2 ? n : self(n - 1) + self(n - 2); } }(10) == 55);

} // namespace rt
