// Tools for value categories (spec/Forward.tla).
#pragma once
#include "rt.h"
#include "pigro/forward_like.h"
#include "pigro/fwd_capture.h"
#include "pigro/utils.h"

namespace rt {

template<typename T>
std::string shape() {
    using U = std::remove_reference_t<T>;
    return "[" + num(std::is_const_v<U>) + "," + num(std::is_volatile_v<U>) + "," +
           str(std::is_lvalue_reference_v<T> ? "&" : std::is_rvalue_reference_v<T> ? "&&" : "") + "]";
}
inline void print(const std::string &op, const Obj &obs) { std::cout << "{\"op\":" << op << ",\"obs\":" << obs.done() << "}\n"; }

template<typename From, typename To, typename Base>
void like(const char *op) {
    using R = pigro::like_t<From, To>;
    static_assert(std::is_same_v<std::remove_cvref_t<R>, Base>);
    print(op, Obj{}.add("t", shape<R>()));
}

template<typename R>
std::string result() { return category<R>(); }

template<typename Like, typename T>
void forward(const char *op, const std::string &cat) {
    T x = enc<T>(1);
    Obj out;
    copies = 0;
    auto look = [&]<typename R>(R &&r) { out.t("cat", category<R &&>()).n("same", static_cast<const void *>(std::addressof(r)) == std::addressof(x)); };
    constexpr bool c = std::is_const_v<std::remove_reference_t<Like>>, l = std::is_lvalue_reference_v<Like>;
    if constexpr (!c) {
        if (cat == "lv") {
            static_assert(std::is_reference_v<decltype(pigro::forward_like<Like>(x))>);
            look(pigro::forward_like<Like>(x));
        }
        if constexpr (!l)
            if (cat == "rv") look(pigro::forward_like<Like>(std::move(x)));
    } else {
        if (cat == "lv") look(pigro::forward_like<Like>(x));
        if (cat == "clv") look(pigro::forward_like<Like>(std::as_const(x)));
        if constexpr (!l) {
            if (cat == "rv") look(pigro::forward_like<Like>(std::move(x)));
            if (cat == "crv") look(pigro::forward_like<Like>(std::move(std::as_const(x))));
        }
    }
    print(op, out.n("copies", copies));
}

template<typename T>
void nonconst(const char *op, const std::string &cat) {
    T x = enc<T>(1);
    Obj out;
    copies = 0;
    as_category(cat, x, [&]<typename X>(X &&y) {
        using R = decltype(pigro::as_nonconst(std::forward<X>(y)));
        R r = pigro::as_nonconst(std::forward<X>(y));
        out.t("cat", category<R>()).n("same", std::addressof(r) == std::addressof(x));
    });
    print(op, out.n("copies", copies));
}

template<int N>
struct Id {};
template<typename... Ts>
struct From {};
template<typename... Ts>
struct To;
template<typename T>
struct ids;
template<int... N>
struct ids<To<Id<N>...>> {
    static std::string get() { return list(std::vector<int>{ N... }); }
};
template<typename L>
void rebind(const char *op) { print(op, Obj{}.add("ids", ids<pigro::rebind_container_t<L, To>>::get())); }

template<typename T, int Cat>
struct CaptureRun {
    T x = enc<T>(0);
    T source = enc<T>(0);
    static auto capture(CaptureRun &r) {
        if constexpr (Cat == 0) return pigro::fwd_capture(r.x);
        else if constexpr (Cat == 1) return pigro::fwd_capture(std::as_const(r.x));
        else if constexpr (Cat == 2) return pigro::fwd_capture(std::move(r.source));
        else return pigro::fwd_capture(std::move(std::as_const(r.source)));
    }
    using C = decltype(capture(std::declval<CaptureRun &>()));
    C original = capture(*this);
    std::unique_ptr<C> copy;

    std::string operator()(const Words &w) {
        Obj out;
        copies = 0;
        C &c = copy ? *copy : original;
        int done = 1;
        if (w[0] == "var") x = enc<T>(std::stoi(w[1]));
        else if (w[0] == "copy") copy = std::make_unique<C>(original);
        else if (w[0] == "back") copy.reset();
        else if (w[0] == "put") {
            if constexpr (Cat % 2 == 0) pigro::access(c) = enc<T>(std::stoi(w[1]));
        } else if (w[0] == "get")
            as_category(w[1], c, [&]<typename D>(D &&d) {
                using R = decltype(pigro::access(std::forward<D>(d)));
                R r = pigro::access(std::forward<D>(d));
                out.t("cat", category<R>()).n("v", dec<T>(r)).n("same", static_cast<const void *>(std::addressof(r)) == std::addressof(x));
            });
        return out.n("copies", copies).n("done", done).done();
    }
};

// all but fwd_capture and access can be used in constant expressions
constexpr int forwarded(int x) { return pigro::forward_like<const int &>(pigro::as_nonconst(std::as_const(x))); }
static_assert(forwarded(3) == 3);
static_assert(pigro::idx<3> == 3 && std::is_same_v<decltype(pigro::idx<3>), const pigro::idx_t<3>>);

} // namespace rt
