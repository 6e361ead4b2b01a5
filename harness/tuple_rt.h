// Compressed tuples as objects (spec/Tuple.tla).
#pragma once
#include "rt.h"
#include "pigro/compressed_tuple.h"

namespace rt {

// Ts: the element types; the variables hold their plain types
template<typename... Ts>
struct TupleRun {
    using CT = pigro::compressed_tuple<Ts...>;
    static constexpr size_t N = sizeof...(Ts);
    using Vars = std::tuple<std::remove_cvref_t<Ts>...>;
    template<size_t I>
    using elem = std::tuple_element_t<I, std::tuple<Ts...>>;
    template<size_t I>
    using plain = std::remove_cvref_t<elem<I>>;

    template<typename T>
    static auto initial() {
        if constexpr (std::is_same_v<T, EmptyLambda>) return empty_lambda;
        else if constexpr (std::is_empty_v<T> && std::default_initializable<T>) return T{};
        else if constexpr (std::is_empty_v<T>) return T{ 0 };
        else return enc<T>(0);
    }

    Vars bank[2] = { Vars{ initial<std::remove_cvref_t<Ts>>()... }, Vars{ initial<std::remove_cvref_t<Ts>>()... } };
    std::unique_ptr<CT> objs[8];

    // a copy of the value of a variable, for it to be moved from
    template<size_t I>
    auto fresh(int b) {
        if constexpr (std::is_empty_v<plain<I>>) return initial<plain<I>>();
        else return enc<plain<I>>(dec(std::get<I>(bank[b])));
    }

    template<typename Make>
    bool construct(int b, const std::string &cat, Make make) {
        return [&]<size_t... I>(std::index_sequence<I...>) {
            if (cat == "rv") {
                auto temps = std::tuple<plain<I>...>{ fresh<I>(b)... };
                copies = 0;
                return make([&]() -> decltype(auto) {
                    if constexpr (std::is_lvalue_reference_v<elem<I>>) return (std::get<I>(bank[b]));
                    else return std::move(std::get<I>(temps));
                }()...);
            }
            if constexpr ((std::copy_constructible<plain<I>> && ...)) {
                copies = 0;
                if (cat == "lv") return make(std::get<I>(bank[b])...);
                return make([&]() -> decltype(auto) {
                    if constexpr (std::is_lvalue_reference_v<elem<I>>) return (std::get<I>(bank[b]));
                    else return (std::as_const(std::get<I>(bank[b])));
                }()...);
            } else
                return false;
        }(std::make_index_sequence<N>{});
    }

    template<size_t I>
    std::string place(const CT &t, const plain<I> *p) {
        const auto a = reinterpret_cast<const char *>(p);
        const auto b = reinterpret_cast<const char *>(&t);
        if (a >= b && a + sizeof(plain<I>) <= b + sizeof(CT)) return "tuple";
        for (int k = 0; k < 2; ++k)
            if (p == &std::get<I>(bank[k])) return k ? "bank2" : "bank1";
        return "elsewhere";
    }

    std::string operator()(const Words &w) {
        const auto &n = w[0];
        Obj out;
        bool done = false;
        auto arg = [&](size_t i) { return std::stoi(w[i]); };
        copies = 0;
        if (n == "var") {
            with_index<N>(arg(2) - 1, [&]<size_t I>(std::integral_constant<size_t, I>) {
                if constexpr (!std::is_empty_v<plain<I>>) std::get<I>(bank[arg(1) - 1]) = enc<plain<I>>(arg(3)), done = true;
            });
        } else if (n == "make") {
            done = construct(arg(2) - 1, w[3], [&]<typename... Us>(Us &&...us) {
                if constexpr (std::constructible_from<CT, Us...>) {
                    objs[arg(1)].reset(new CT(std::forward<Us>(us)...));
                    return true;
                } else
                    return false;
            });
        } else if (n == "deduce") {
            done = construct(arg(2) - 1, w[3], [&]<typename... Us>(Us &&...us) {
                if constexpr (requires { pigro::compressed_tuple(std::forward<Us>(us)...); }) {
                    if constexpr (std::is_same_v<decltype(pigro::compressed_tuple(std::forward<Us>(us)...)), CT>) {
                        objs[arg(1)].reset(new CT(pigro::compressed_tuple{ std::forward<Us>(us)... }));
                        return true;
                    } else
                        return false;
                } else
                    return false;
            });
        } else if (n == "default") {
            if constexpr (std::default_initializable<CT>) objs[arg(1)].reset(new CT{}), done = true;
        } else if (n == "copy") {
            if constexpr (std::copy_constructible<CT>) objs[arg(1)].reset(new CT(std::as_const(*objs[arg(2)]))), done = true;
        } else if (n == "copyn") {
            if constexpr (std::constructible_from<CT, CT &>) objs[arg(1)].reset(new CT(*objs[arg(2)])), done = true;
        } else if (n == "move") {
            if constexpr (std::move_constructible<CT>) objs[arg(1)].reset(new CT(std::move(*objs[arg(2)]))), done = true;
        } else if (n == "assign") {
            if constexpr (std::is_copy_assignable_v<CT>) *objs[arg(1)] = std::as_const(*objs[arg(2)]), done = true;
        } else if (n == "massign") {
            if constexpr (std::is_move_assignable_v<CT>) *objs[arg(1)] = std::move(*objs[arg(2)]), done = true;
        } else if (n == "swap") {
            if constexpr (std::swappable<CT>) std::swap(*objs[arg(1)], *objs[arg(2)]), done = true;
        } else if (n == "drop") {
            objs[arg(1)].reset(), done = true;
        } else if (n == "get") {
            auto &t = *objs[arg(1)];
            with_index<N>(arg(2) - 1, [&]<size_t I>(std::integral_constant<size_t, I>) {
                as_category(w[3], t, [&]<typename T>(T &&t) {
                    if constexpr (requires { pigro::get<I>(std::forward<T>(t)); }) {
                        using R = decltype(pigro::get<I>(std::forward<T>(t)));
                        auto &&r = pigro::get<I>(std::forward<T>(t));
                        out.n("v", dec(r)).t("cat", category<R>());
                        if constexpr (std::is_reference_v<R>) out.t("at", place<I>(t, &r));
                        else out.t("at", "none");
                        done = std::is_same_v<std::remove_cvref_t<R>, plain<I>>;
                    }
                });
            });
        } else if (n == "put") {
            auto &t = *objs[arg(1)];
            with_index<N>(arg(2) - 1, [&]<size_t I>(std::integral_constant<size_t, I>) {
                if constexpr (!std::is_empty_v<plain<I>>)
                    if constexpr (std::is_assignable_v<decltype(pigro::get<I>(t)), plain<I>>) pigro::get<I>(t) = enc<plain<I>>(arg(3)), done = true;
            });
        } else if (n == "take") {
            auto &t = *objs[arg(1)];
            with_index<N>(arg(2) - 1, [&]<size_t I>(std::integral_constant<size_t, I>) {
                if constexpr (std::is_constructible_v<plain<I>, decltype(pigro::get<I>(std::move(t)))>) {
                    plain<I> x(pigro::get<I>(std::move(t)));
                    out.n("v", dec(x));
                    done = true;
                }
            });
        } else if (n == "all") {
            // unqualified get, as generic code does it
            auto &t = *objs[arg(1)];
            [&]<size_t... I>(std::index_sequence<I...>) {
                out.add("v", list(std::array<int, N>{ dec(get<I>(t))... }));
            }(std::make_index_sequence<N>{});
            done = std::tuple_size_v<CT> == N;
        }
        else if (n == "vars") {
            [&]<size_t... I>(std::index_sequence<I...>) {
                auto values = [&](int b) {
                    return list(std::array<int, N>{ [&] {
                        if constexpr (std::is_empty_v<plain<I>>) return 0;
                        else return dec(std::get<I>(bank[b]));
                    }()... });
                };
                out.add("v", "[" + values(0) + "," + values(1) + "]");
            }(std::make_index_sequence<N>{});
            done = true;
        }
        return out.n("copies", copies).n("done", done).done();
    }
};

} // namespace rt
