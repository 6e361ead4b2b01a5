// Callables with bound arguments (spec/Bind.tla).
#pragma once
#include "rt.h"
#include "pigro/bind_tuple.h"
#include "pigro/compressed_tuple.h"
#ifdef WITH_UNCAPTURE
#include "pigro/uncapture.h"
#endif

namespace rt {

struct Seen {
    std::vector<int> values;
    std::vector<const void *> places;
    int n = 0;
    const void *returned = nullptr;
};
inline Seen seen;
inline int poke_at = 0, poke_with = 0;

template<typename T>
int read(const T &x) { return dec(x); }

template<typename T>
void write(T &&x, int v) {
    using P = std::remove_cvref_t<T>;
    if constexpr (!std::is_empty_v<P> && !std::is_const_v<std::remove_reference_t<T>>) x = enc<P>(v);
}

template<typename X>
void take(X &&x) {
    if constexpr (!std::is_lvalue_reference_v<X> && std::is_constructible_v<X, X>) [[maybe_unused]] const auto taken = X(std::move(x));
}

template<int Ret, bool Take = true, typename... Xs>
decltype(auto) record(int n, Xs &&...xs) {
    seen = Seen{ { read(xs)... }, { static_cast<const void *>(std::addressof(xs))... }, n, nullptr };
    int k = 0;
    ((++k == poke_at ? write(xs, poke_with) : void()), ...);
    // what is handed over is taken
    if constexpr (Ret == 0 && Take) (take(std::forward<Xs>(xs)), ...);
    if constexpr (Ret == 0) {
        int r = 1;
        for (auto v : seen.values) r = (r * 5 + v) % 9973;
        return r;
    } else if constexpr (Ret <= sizeof...(Xs)) {
        // handed on just as it was received
        using R = std::tuple_element_t<Ret - 1, std::tuple<Xs &&...>>;
        return static_cast<R>(std::get<Ret - 1>(std::tie(xs...)));
    } else
        return;
}

template<int Ret>
struct Counting {
    int n = 0;
    template<typename... Xs>
    decltype(auto) operator()(Xs &&...xs) { return record<Ret>(++n, std::forward<Xs>(xs)...); }
    template<typename... Xs>
        requires(Ret == 0)
    decltype(auto) operator()(Xs &&...xs) const { return record<Ret>(n, std::forward<Xs>(xs)...); }
};
template<int Ret>
struct MoveOnly : Counting<Ret> {
    MoveOnly() = default;
    MoveOnly(MoveOnly &&) = default;
};
template<int Ret>
struct Stateless {
    template<typename... Xs>
    decltype(auto) operator()(Xs &&...xs) const { return record<Ret>(0, std::forward<Xs>(xs)...); }
};

enum Form { front,
    back,
    bback,
    uncap };
enum Holder { ct,
    tup,
    pr,
    ar };
enum Fn { own,
    ref,
    empty,
    moveonly };

template<typename... Ts>
struct types {};

template<Holder H, typename... Ts>
struct holder {
    using type = pigro::compressed_tuple<Ts...>;
};
template<typename... Ts>
struct holder<tup, Ts...> {
    using type = std::tuple<Ts...>;
};
template<typename T, typename U>
struct holder<pr, T, U> {
    using type = std::pair<T, U>;
};
template<typename T, typename... Ts>
struct holder<ar, T, Ts...> {
    using type = std::array<T, 1 + sizeof...(Ts)>;
};

#ifdef WITH_UNCAPTURE
auto uncaptured_with(auto &&f, auto &&...xs) { return pigro::uncaptured(std::forward<decltype(xs)>(xs)...) >> std::forward<decltype(f)>(f); }
#else
void uncaptured_with(auto &&...);
#endif

template<Form form, Holder H, bool ref_tuple, Fn fn, int Ret, typename Bound, typename Args>
struct BindBase;

template<Form form, Holder H, bool ref_tuple, Fn fn, int Ret, typename... Bs, typename... As>
struct BindBase<form, H, ref_tuple, fn, Ret, types<Bs...>, types<As...>> {
    static constexpr size_t N = sizeof...(Bs);
    static constexpr size_t M = sizeof...(As);
    using Tuple = typename holder<H, Bs...>::type;
    template<size_t I>
    using elem = std::tuple_element_t<I, std::tuple<Bs...>>;
    template<size_t I>
    using plain = std::remove_cvref_t<elem<I>>;
    using F = std::conditional_t<fn == empty, Stateless<Ret>, std::conditional_t<fn == moveonly, MoveOnly<Ret>, Counting<Ret>>>;

    template<typename T>
    static T initial() {
        if constexpr (std::is_empty_v<T>) return T{};
        else return enc<T>(0);
    }

    std::tuple<std::remove_cvref_t<Bs>...> bank[2] = { { initial<std::remove_cvref_t<Bs>>()... }, { initial<std::remove_cvref_t<Bs>>()... } };
    std::tuple<As...> args{ enc<As>(0)... };
    F user_fn;
    std::unique_ptr<Tuple> tuples[2];

    using I_N = std::make_index_sequence<N>;
    using I_M = std::make_index_sequence<M>;

    template<size_t I>
    decltype(auto) given(int b) {
        if constexpr (std::is_lvalue_reference_v<elem<I>>) return (std::get<I>(bank[b]));
        else if constexpr (std::is_empty_v<plain<I>>) return plain<I>{};
        else return enc<plain<I>>(dec(std::get<I>(bank[b])));
    }
    Tuple make_tuple(int b) {
        return [&]<size_t... I>(std::index_sequence<I...>) {
            auto temps = std::tuple<decltype(given<I>(b))...>{ given<I>(b)... };
            copies = 0;
            if constexpr (H == ar) return Tuple{ { std::get<I>(std::move(temps))... } };
            else return Tuple(std::get<I>(std::move(temps))...);
        }(I_N{});
    }

    BindBase() {
        if constexpr (form != bback && ref_tuple)
            for (int b = 0; b < 2; ++b) tuples[b] = std::make_unique<Tuple>(make_tuple(b));
    }

    static auto bind(auto &&t, auto &&f) {
        if constexpr (form == front) {
            using namespace pigro;
            return FWD(t) >> FWD(f);
        } else {
            using namespace pigro;
            return FWD(t) << FWD(f);
        }
    }
    auto with_fn(auto make) {
        if constexpr (fn == ref) return make(user_fn);
        else return make(F{});
    }
    auto make(int b) {
        return with_fn([&]<typename G>(G &&g) {
            if constexpr (form == bback) {
                return [&]<size_t... I>(std::index_sequence<I...>) {
                    auto temps = std::tuple<decltype(given<I>(b))...>{ given<I>(b)... };
                    copies = 0;
                    return pigro::bind_back(std::forward<G>(g), std::get<I>(std::move(temps))...);
                }(I_N{});
            } else if constexpr (form == uncap) {
                return [&]<size_t... I>(std::index_sequence<I...>) {
                    auto temps = std::tuple<decltype(given<I>(b))...>{ given<I>(b)... };
                    return uncaptured_with(std::forward<G>(g), std::get<I>(std::move(temps))...);
                }(I_N{});
            } else if constexpr (ref_tuple)
                return bind(*tuples[b], std::forward<G>(g));
            else
                return bind(make_tuple(b), std::forward<G>(g));
        });
    }
};

template<Form form, Holder H, bool ref_tuple, Fn fn, int Ret, typename Bound, typename Args>
struct BindRun;

template<Form form, Holder H, bool ref_tuple, Fn fn, int Ret, typename... Bs, typename... As>
struct BindRun<form, H, ref_tuple, fn, Ret, types<Bs...>, types<As...>> : BindBase<form, H, ref_tuple, fn, Ret, types<Bs...>, types<As...>> {
    using Base = BindBase<form, H, ref_tuple, fn, Ret, types<Bs...>, types<As...>>;
    using Base::args, Base::bank, Base::make, Base::M, Base::N, Base::tuples;
    using typename Base::I_M, typename Base::I_N;
    template<size_t I>
    using elem = std::tuple_element_t<I, std::tuple<Bs...>>;
    template<size_t I>
    using plain = std::remove_cvref_t<elem<I>>;

    using B = decltype(std::declval<Base &>().make(0));
    std::unique_ptr<B> objs[8];

    // the variable element i of bank b is; elements that a tuple of the user
    // owns are inside it
    template<size_t I>
    plain<I> &variable(int b) {
        if constexpr (form != bback && ref_tuple && !std::is_lvalue_reference_v<elem<I>> && !std::is_empty_v<elem<I>>) {
            using std::get;
            using pigro::get;
            return get<I>(*tuples[b]);
        } else
            return std::get<I>(bank[b]);
    }

    std::string place(const B &o, const void *p) {
        const auto a = static_cast<const char *>(p);
        const auto b = reinterpret_cast<const char *>(std::addressof(o));
        if (a >= b && a < b + sizeof(B)) return "binding";
        std::string r = "elsewhere";
        for (int k = 0; k < 2; ++k)
            [&]<size_t... I>(std::index_sequence<I...>) {
                ((!std::is_empty_v<plain<I>> && p == std::addressof(variable<I>(k)) ? (r = k ? "bank2" : "bank1", 0) : 0), ...);
            }(I_N{});
        [&]<size_t... J>(std::index_sequence<J...>) {
            ((p == std::addressof(std::get<J>(args)) ? (r = "arg", 0) : 0), ...);
        }(I_M{});
        return r;
    }

    template<typename O, typename... Xs>
    bool call(O &&o, Obj &out, Xs &&...xs) {
        copies = 0;
        seen = {};
        if constexpr (std::is_invocable_v<O, Xs...>) {
            using R = std::invoke_result_t<O, Xs...>;
            std::string rat = "value";
            int ret = 0;
            if constexpr (std::is_reference_v<R>) {
                auto &&r = std::forward<O>(o)(std::forward<Xs>(xs)...);
                rat = place(o, std::addressof(r));
            } else if constexpr (std::is_void_v<R>)
                std::forward<O>(o)(std::forward<Xs>(xs)...);
            else
                ret = std::forward<O>(o)(std::forward<Xs>(xs)...);
            std::vector<std::string> at;
            for (auto p : seen.places) at.push_back(str(place(o, p)));
            out.add("seen", list(seen.values)).add("at", list(at)).n("n", seen.n).n("ret", ret).t("rat", rat);
            return true;
        } else
            return false;
    }

    // adds the arguments one after the other
    template<typename O, typename... Xs>
    bool call_with(O &&o, Obj &out, const Words &w, size_t from, Xs &&...xs) {
        constexpr auto J = sizeof...(Xs);
        if (from + J >= w.size()) return call(std::forward<O>(o), out, std::forward<Xs>(xs)...);
        if constexpr (J < M) {
            auto &x = std::get<J>(args);
            const auto &cat = w[from + J];
            if (cat == "lv") return call_with(std::forward<O>(o), out, w, from, std::forward<Xs>(xs)..., x);
            if (cat == "clv") return call_with(std::forward<O>(o), out, w, from, std::forward<Xs>(xs)..., std::as_const(x));
            auto temp = enc<std::remove_cvref_t<decltype(x)>>(dec(x));
            return call_with(std::forward<O>(o), out, w, from, std::forward<Xs>(xs)..., std::move(temp));
        } else
            return false;
    }

    std::string operator()(const Words &w) {
        const auto &n = w[0];
        Obj out;
        bool done = false;
        auto arg = [&](size_t i) { return std::stoi(w[i]); };
        copies = 0;
        if (n == "var") {
            with_index<N>(arg(2) - 1, [&]<size_t I>(std::integral_constant<size_t, I>) {
                if constexpr (!std::is_empty_v<plain<I>>) variable<I>(arg(1) - 1) = enc<plain<I>>(arg(3)), done = true;
            });
        } else if (n == "arg") {
            with_index<M>(arg(1) - 1, [&]<size_t J>(std::integral_constant<size_t, J>) {
                std::get<J>(args) = enc<std::tuple_element_t<J, std::tuple<As...>>>(arg(2));
                done = true;
            });
        } else if (n == "make") {
            objs[arg(1)].reset(new B(make(arg(2) - 1)));
            done = true;
        } else if (n == "copy") {
            if constexpr (std::copy_constructible<B>) objs[arg(1)].reset(new B(std::as_const(*objs[arg(2)]))), done = true;
        } else if (n == "move") {
            objs[arg(1)].reset(new B(std::move(*objs[arg(2)])));
            done = true;
        } else if (n == "drop") {
            objs[arg(1)].reset();
            done = true;
        } else if (n == "vars") {
            [&]<size_t... I>(std::index_sequence<I...>) {
                auto values = [&](int b) {
                    return list(std::array<int, N>{ [&] {
                        if constexpr (std::is_empty_v<plain<I>>) return 0;
                        else return dec(variable<I>(b));
                    }()... });
                };
                out.add("v", "[" + values(0) + "," + values(1) + "]");
            }(I_N{});
            [&]<size_t... J>(std::index_sequence<J...>) {
                out.add("a", list(std::array<int, M>{ dec(std::get<J>(args))... }));
            }(I_M{});
            done = true;
        } else if (n == "call") {
            // call o j x cats...
            poke_at = arg(2);
            poke_with = arg(3);
            done = call_with(*objs[arg(1)], out, w, 4);
            poke_at = 0;
        } else if (n == "ccall") {
            if constexpr (Ret == 0 && form != bback) done = call_with(std::as_const(*objs[arg(1)]), out, w, 2);
        }
        return out.n("copies", copies).n("done", done).done();
    }
};

} // namespace rt
