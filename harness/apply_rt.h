// apply and to_tuple (spec/Apply.tla).
#pragma once
#include "bind_rt.h"
#include "pigro/apply.h"
#include "pigro/to_tuple.h"

namespace rt {

template<typename... Ts>
struct ApplyStore {
    std::tuple<std::remove_cvref_t<Ts>...> vars;
};

inline std::vector<std::string> cats;
inline std::string fcat;
inline int calls;

template<int Ret>
struct Function {
    int state = 1;

    template<typename... Xs>
    static decltype(auto) body(const char *cat, Xs &&...xs) {
        fcat = cat;
        ++calls;
        cats = { str(category<Xs &&>())... };
        if constexpr (Ret >= 0) return record<Ret, false>(0, std::forward<Xs>(xs)...);
        else record<0, false>(0, std::forward<Xs>(xs)...);
    }
    template<typename... Xs>
    decltype(auto) operator()(Xs &&...xs) & { return body("lv", std::forward<Xs>(xs)...); }
    template<typename... Xs>
    decltype(auto) operator()(Xs &&...xs) const & { return body("clv", std::forward<Xs>(xs)...); }
    template<typename... Xs>
    decltype(auto) operator()(Xs &&...xs) && { return body("rv", std::forward<Xs>(xs)...); }
    template<typename... Xs>
    decltype(auto) operator()(Xs &&...xs) const && { return body("crv", std::forward<Xs>(xs)...); }
};

template<Holder H, int Ret, typename... Ts>
struct ApplyRun {
    static constexpr size_t N = sizeof...(Ts);
    using T = typename holder<H, Ts...>::type;
    using Vars = std::tuple<std::remove_cvref_t<Ts>...>;
    static Vars start(const int (&vs)[N + 1]) {
        return [&]<size_t... I>(std::index_sequence<I...>) {
            return Vars{ [&] {
                using P = std::tuple_element_t<I, Vars>;
                if constexpr (std::is_empty_v<P>) return P{};
                else return enc<P>(vs[I]);
            }()... };
        }(std::make_index_sequence<N>{});
    }

    Vars vars, temps;
    T t;

    explicit ApplyRun(const int (&vs)[N + 1]) : vars{ start(vs) }, temps{ start(vs) }, t{ build(std::make_index_sequence<N>{}) } {}

    template<size_t... I>
    T build(std::index_sequence<I...>) {
        auto pick = [&]<size_t J>(std::integral_constant<size_t, J>) -> decltype(auto) {
            if constexpr (std::is_lvalue_reference_v<std::tuple_element_t<J, std::tuple<Ts...>>>) return (std::get<J>(vars));
            else return std::move(std::get<J>(temps));
        };
        if constexpr (H == ar) return T{ { pick(std::integral_constant<size_t, I>{})... } };
        else return T(pick(std::integral_constant<size_t, I>{})...);
    }

    std::string place(const void *p) {
        const auto a = static_cast<const char *>(p);
        const auto b = reinterpret_cast<const char *>(std::addressof(t));
        if (a >= b && a < b + sizeof(T)) return "tuple";
        std::string r = "elsewhere";
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((p == static_cast<const void *>(std::addressof(std::get<I>(vars))) ? (r = "var", 0) : 0), ...);
        }(std::make_index_sequence<N>{});
        return r;
    }
    std::string places(const std::vector<const void *> &ps) {
        std::vector<std::string> v;
        for (auto p : ps) v.push_back(str(place(p)));
        return list(v);
    }

    std::string apply(const std::string &cat, const std::string &fc) {
        Obj out;
        bool done = false;
        seen = {};
        cats.clear();
        calls = 0;
        fcat = "none";
        copies = 0;
        as_category(cat, t, [&]<typename X>(X &&x) {
            auto f = Function<Ret>{};
            as_category(fc, f, [&]<typename G>(G &&g) {
                if constexpr (requires { pigro::apply(std::forward<G>(g), std::forward<X>(x)); }) {
                    using R = decltype(pigro::apply(std::forward<G>(g), std::forward<X>(x)));
                    int ret = 0;
                    std::string rat = "value";
                    if constexpr (std::is_void_v<R>) {
                        pigro::apply(std::forward<G>(g), std::forward<X>(x));
                        rat = "void";
                    } else if constexpr (std::is_reference_v<R>) {
                        auto &&r = pigro::apply(std::forward<G>(g), std::forward<X>(x));
                        rat = place(std::addressof(r));
                    } else
                        ret = pigro::apply(std::forward<G>(g), std::forward<X>(x));
                    out.n("ret", ret).t("rat", rat);
                    done = true;
                }
            });
        });
        return out.add("seen", list(seen.values)).add("cats", list(cats)).add("at", places(seen.places)).t("f", fcat).n("calls", calls).n("copies", copies).n("done", done).done();
    }

    template<typename R, size_t... I>
    void report(Obj &out, R &r, std::index_sequence<I...>) {
        std::vector<int> vs;
        std::vector<const void *> ps;
        (look(std::get<I>(r), vs, ps), ...);
        out.add("seen", list(vs)).add("at", places(ps));
        out.add("cats", list(std::array<std::string, sizeof...(I)>{ str(category<std::tuple_element_t<I, R>>())... }));
    }
    template<typename E>
    static void look(E &e, std::vector<int> &vs, std::vector<const void *> &ps) {
        if constexpr (std::is_empty_v<E>) vs.push_back(0), ps.push_back(nullptr);
        else vs.push_back(dec(e)), ps.push_back(std::addressof(e));
    }

    std::string to_tuple(const std::string &cat) {
        Obj out;
        bool done = false;
        copies = 0;
        as_category(cat, t, [&]<typename X>(X &&x) {
            if constexpr (requires { pigro::to_tuple(std::forward<X>(x)); }) {
                auto r = pigro::to_tuple(std::forward<X>(x));
                using R = decltype(r);
                report(out, r, std::make_index_sequence<std::tuple_size_v<R>>{});
                done = true;
            }
        });
        return out.n("copies", copies).n("done", done).done();
    }

    void all() {
        for (auto cat : { "lv", "clv", "rv", "crv" }) {
            for (auto fc : { "lv", "clv", "rv", "crv" })
                std::cout << "{\"op\":[\"apply\",\"" << cat << "\",\"" << fc << "\"],\"obs\":" << apply(cat, fc) << "}\n";
            std::cout << "{\"op\":[\"to_tuple\",\"" << cat << "\"],\"obs\":" << to_tuple(cat) << "}\n";
        }
        std::cout << "end\n";
    }
};

} // namespace rt
