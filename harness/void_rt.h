// void as a value (spec/Void.tla).
#pragma once
#include "rt.h"
#include "pigro/regular_void.h"

namespace rt {

inline std::vector<int> arguments;
inline int calls, count;

template<typename R>
R answer(int n, std::vector<int> vs) {
    ++calls;
    count = n;
    arguments = vs;
    int r = 1;
    for (auto v : vs) r = (r * 5 + v) % 9973;
    if constexpr (std::is_void_v<R>) return;
    else if constexpr (std::is_same_v<R, pigro::regular_void>) return {};
    else if constexpr (std::is_same_v<R, int>) return r;
    else if constexpr (std::is_same_v<R, std::string>) return std::to_string(r);
    else return R{ r };
}
template<typename R>
const char *type_name() {
    if constexpr (std::is_void_v<R>) return "void";
    else if constexpr (std::is_same_v<R, pigro::regular_void>) return "unit";
    else if constexpr (std::is_same_v<R, int>) return "num";
    else if constexpr (std::is_same_v<R, std::string>) return "text";
    else if constexpr (std::is_same_v<R, std::optional<int>>) return "opt";
    else return "other";
}

template<typename R>
struct Mut {
    int n = 0;
    R operator()(const auto &...xs) { return answer<R>(++n, { dec(xs)... }); }
};
template<typename R>
struct Large {
    int before[40]{};
    int n = 0;
    int after[40]{};
    R operator()(const auto &...xs) { return answer<R>(++n, { dec(xs)... }); }
};
template<typename R>
struct Both {
    int n = 0;
    R operator()(const auto &...xs) { return answer<R>(++n, { dec(xs)... }); }
    R operator()(const auto &...xs) const { return answer<R>(n, { dec(xs)... }); }
};
template<typename R>
struct Con {
    int n = 0;
    std::string data = long_text;
    R operator()(const auto &...xs) const { return answer<R>(n, { dec(xs)... }); }
};
template<typename R>
struct Bare {
    R operator()(const auto &...xs) const { return answer<R>(0, { dec(xs)... }); }
};

enum Adapter { reg,
    unreg };
template<Adapter... As>
struct adapt;
template<>
struct adapt<> {
    static auto make(auto f) { return f; }
};
template<Adapter A, Adapter... As>
struct adapt<A, As...> {
    static auto make(auto f) {
        if constexpr (A == reg) return adapt<As...>::make(pigro::regularized_void(f));
        else return adapt<As...>::make(pigro::unregularized_void(f));
    }
};

template<typename F, typename Adapt, typename... Args>
struct VoidRun {
    using B = decltype(Adapt::make(F{}));
    std::unique_ptr<B> objs[4];

    template<typename O, size_t... J>
    void call(O &o, const Words &w, Obj &out, bool &done, std::index_sequence<J...>) {
        calls = 0;
        if constexpr (std::is_invocable_v<O &, Args...>) {
            using R = decltype(o(std::declval<Args>()...));
            int ret = 0;
            if constexpr (std::is_void_v<R>) o(enc<Args>(std::stoi(w[2 + J]))...);
            else {
                auto r = o(enc<Args>(std::stoi(w[2 + J]))...);
                if constexpr (std::is_same_v<R, int>) ret = r;
                else if constexpr (std::is_same_v<R, std::string>) ret = std::stoi(r);
                else if constexpr (std::is_same_v<R, std::optional<int>>) ret = *r;
            }
            out.add("seen", list(arguments)).t("type", type_name<R>()).n("ret", ret).n("calls", calls).n("n", count);
            done = true;
        }
    }

    std::string operator()(const Words &w) {
        Obj out;
        bool done = false;
        auto &o = objs[std::stoi(w[1])];
        const auto seq = std::index_sequence_for<Args...>{};
        if (w[0] == "make") o.reset(new B(Adapt::make(F{}))), done = true;
        else if (w[0] == "copy") o.reset(new B(std::as_const(*objs[std::stoi(w[2])]))), done = true;
        else if (w[0] == "move") o.reset(new B(std::move(*objs[std::stoi(w[2])]))), done = true;
        else if (w[0] == "call") call(*o, w, out, done, seq);
        else if (w[0] == "ccall") {
            if constexpr (std::is_invocable_v<const F &, Args &...>) call(std::as_const(*o), w, out, done, seq);
        }
        return out.n("done", done).done();
    }
};

struct OptionalRun {
    using V = pigro::regular_void;
    using O = std::optional<V>;
    std::unique_ptr<O> objs[4];

    std::string operator()(const Words &w) {
        std::vector<int> r;
        const V a{}, b{};
        if (w[0] == "order") r = { a == b, a != b, a < b, a <= b, a > b, a >= b };
        else {
            auto &o = objs[std::stoi(w[1])];
            auto p = [&]() -> O & { return *objs[std::stoi(w[2])]; };
            if (w[0] == "default") o.reset(new O);
            else if (w[0] == "value") o.reset(new O{ V{} });
            else if (w[0] == "set") *o = V{};
            else if (w[0] == "reset") *o = O{};
            else if (w[0] == "erase") o->reset();
            else if (w[0] == "emplace") o->emplace();
            else if (w[0] == "null") *o = std::nullopt;
            else if (w[0] == "nullopt") o.reset(new O{ std::nullopt });
            else if (w[0] == "has") r = { o->has_value() };
            else if (w[0] == "access") {
                try {
                    r = { o->value() == V{} };
                } catch (const std::bad_optional_access &) {
                    r = { 0 };
                }
            } else if (w[0] == "bool") r = { *o ? 1 : 0 };
            else if (w[0] == "deref") r = { **o == V{} };
            else if (w[0] == "eqv") r = { *o == a, *o != a, a == *o, a != *o };
            else if (w[0] == "copy") o.reset(new O(std::as_const(p())));
            else if (w[0] == "assign") *o = std::as_const(p());
            else if (w[0] == "eq") r = { *o == p(), *o != p() };
        }
        return Obj{}.add("r", list(r)).n("done", 1).done();
    }
};

static_assert(std::regular<pigro::regular_void> && std::is_empty_v<pigro::regular_void>);
constexpr bool in_constants() {
    auto o = std::optional<pigro::regular_void>{};
    const auto p = std::optional<pigro::regular_void>{ pigro::regular_void{} };
    const bool before = !o && o != p;
    o = pigro::regular_void{};
    return before && o && o == p && *o == *p;
}
static_assert(in_constants());

} // namespace rt
