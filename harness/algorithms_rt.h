// transform and any (spec/Algorithms.tla).
#pragma once
#include "bind_rt.h"
#include "pigro/tuple_algorithms.h"

namespace rt {

inline std::vector<std::pair<const void *, int>> visited;

template<typename T>
int visit(const T &x) {
    visited.emplace_back(std::addressof(x), dec(x));
    return dec(x);
}

inline const auto number = [](const auto &x) { return enc<int>(visit(x) + 10); };
inline const auto same = [](const auto &x) -> const auto & { visit(x); return x; };
inline const auto as_pair = [](const auto &x) { const auto v = enc<int>(visit(x) + 20); return std::pair{ v, v }; };
inline const auto as_unique = [](const auto &x) { return std::make_unique<int>(visit(x) + 30); };
inline const auto odd = [](const auto &x) -> bool { return visit(x) % 2; };
inline const auto as_tuple = [](const auto &x) { return std::tuple{ enc<int>(visit(x)) }; };
inline const auto as_ref = [](const auto &x) { visit(x); return std::cref(x); };
struct Truth {
    bool value;
    explicit operator bool() const { return value; }
};

template<typename T>
int dec_any(const T &x) {
    if constexpr (requires { typename T::type; x.get(); }) return std::is_same_v<T, std::reference_wrapper<typename T::type>> ? dec(x.get()) : -3;
    else return dec(x);
}

template<Holder H, typename... Ts>
struct AlgorithmsRun {
    static constexpr size_t N = sizeof...(Ts);
    using T = typename holder<H, Ts...>::type;

    template<size_t... I>
    static T build(const Words &w, size_t from, std::index_sequence<I...>) {
        if constexpr (H == ar) return T{ { enc<Ts>(std::stoi(w[from + I]))... } };
        else return T(enc<Ts>(std::stoi(w[from + I]))...);
    }
    template<size_t... I>
    static std::string calls(const T &t, std::index_sequence<I...>) {
        std::vector<std::string> out;
        for (auto [p, v] : visited) {
            int k = 0;
            ((static_cast<const void *>(std::addressof(std::get<I>(t))) == p ? (k = I + 1, 0) : 0), ...);
            out.push_back("[" + num(k) + "," + num(v) + "]");
        }
        return list(out);
    }

    template<typename P, size_t... I>
    static void transformed(const T &t, P p, Obj &out, bool &done, std::index_sequence<I...>) {
        copies = 0;
        auto r = pigro::transform(t, p);
        if constexpr (!std::is_same_v<P, std::remove_const_t<decltype(same)>>) done = true;
        else done = true, copies = 0;
        using R = std::tuple<std::decay_t<std::invoke_result_t<P, const Ts &>>...>;
        if constexpr (std::is_same_v<decltype(r), R>) out.add("res", list(std::array<int, N>{ dec_any(std::get<I>(r))... }));
        else done = false;
    }

    std::string operator()(const Words &w) {
        Obj out;
        bool done = false;
        visited.clear();
        const auto seq = std::make_index_sequence<N>{};
        if (w[0] == "transform") {
            const T t = build(w, 2, seq);
            auto run = [&](auto p) { transformed(t, p, out, done, seq); };
            if (w[1] == "number") run(number);
            else if (w[1] == "ref") run(as_ref);
            else if constexpr ((std::copy_constructible<Ts> && ...)) {
                if (w[1] == "same") run(same);
                if (w[1] == "pair") run(as_pair);
                if (w[1] == "unique") run(as_unique);
                if (w[1] == "odd") run(odd);
                if (w[1] == "tuple") run(as_tuple);
            }
            out.add("calls", calls(t, seq));
        } else if (w[0] == "any" || w[0] == "anynum" || w[0] == "anyptr" || w[0] == "anyexp") {
            const T t = build(w, 2, seq);
            copies = 0;
            const auto th = std::stoi(w[1]);
            auto run = [&](auto p) {
                auto r = pigro::any(t, p);
                done = true;
                out.add("res", list(std::array<int, 1>{ r ? 1 : 0 }));
            };
            if (w[0] == "any") run([th](const auto &x) { return visit(x) >= th; });
            if (w[0] == "anynum") run([th](const auto &x) { return visit(x) >= th ? 2 : 0; });
            if (w[0] == "anyptr") run([th](const auto &x) { return visit(x) >= th ? &visited : nullptr; });
            if (w[0] == "anyexp") run([th](const auto &x) { return Truth{ visit(x) >= th }; });
            out.add("calls", calls(t, seq));
        } else if (w[0] == "anyid") {
            const T t = build(w, 1, seq);
            copies = 0;
            if constexpr ((std::is_arithmetic_v<Ts> && ...)) {
                auto r = pigro::any(t);
                done = true;
                out.add("res", list(std::array<int, 1>{ r ? 1 : 0 }));
            }
            out.add("calls", "[]");
        }
        return out.n("copies", copies).n("done", done).done();
    }
};

// both can be used in constant expressions
static_assert(pigro::transform(std::tuple{ 1, 2L, 'c' }, [](auto x) { return x + 1; }) == std::tuple{ 2, 3L, 'c' + 1 });
static_assert(pigro::any(std::tuple{ false, true, false }) && !pigro::any(std::tuple{ false, 0, false }) && !pigro::any(std::tuple{}));
static_assert(pigro::any(std::array{ 1, 2, 3 }, [](int x) { return x > 2; }) && !pigro::any(std::pair{ 1, 2 }, [](int x) { return x > 2; }));

} // namespace rt
