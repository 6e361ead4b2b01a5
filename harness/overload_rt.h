// Overload sets (spec/Overload.tla).
#pragma once
#include "rt.h"
#include "pigro/overload.h"

namespace rt {

struct Tag1 {};
struct Tag2 {};

struct Hit {
    int fn = 0, n = 0;
};
inline Hit hit;

// function number Id, with fixed parameters; Const: the call operator is const
template<int Id, bool Const, typename... Ps>
struct Fixed {
    int n = 0;
    int operator()(Ps...) { hit = { Id, ++n }; return Id; }
};
template<int Id, typename... Ps>
struct Fixed<Id, true, Ps...> {
    int n = 0;
    int operator()(Ps...) const { hit = { Id, n }; return Id; }
};
// the same without state
template<int Id, typename... Ps>
struct Bare {
    int operator()(Ps...) const { hit = { Id, 0 }; return Id; }
};

struct IntArg {
    using type = int;
};

template<typename O, typename... Ts>
std::string call_it(O &&o, Ts... ts) {
    hit = {};
    bool done = true;
    if constexpr (std::is_invocable_v<O, Ts...>) {
        const int r = std::forward<O>(o)(std::move(ts)...);
        done = r == hit.fn;
    }
    return Obj{}.n("fn", hit.fn).n("n", hit.n).n("done", done).done();
}

template<typename O>
struct OverloadRun {
    O original = O{};
    std::unique_ptr<O> copy;
    O &now() { return copy ? *copy : original; }

    template<typename F>
    static std::string arg(const std::string &t, F f) {
        if (t == "int") return f(int{});
        if (t == "long") return f(long{});
        if (t == "double") return f(double{});
        if (t == "char") return f(char{});
        if (t == "str") return f(std::string{});
        if (t == "cstr") return f(static_cast<const char *>(""));
        if (t == "tag1") return f(Tag1{});
        if (t == "tag2") return f(Tag2{});
        if (t == "derived") return f(Derived{});
        std::abort();
    }
    template<typename Q>
    std::string with_args(Q &&q, const Words &w) {
        if (w.size() == 2) return call_it(std::forward<Q>(q));
        return arg(w[2], [&](auto a) {
            if (w.size() == 3) return call_it(std::forward<Q>(q), a);
            return arg(w[3], [&](auto b) { return call_it(std::forward<Q>(q), a, b); });
        });
    }

    std::string operator()(const Words &w) {
        const auto ok = Obj{}.n("fn", 0).n("n", 0).n("done", 1).done();
        if (w[0] == "copy") {
            copy = std::make_unique<O>(original);
            return ok;
        }
        if (w[0] == "back") {
            copy.reset();
            return ok;
        }
        if (w[1] == "lv") return with_args(now(), w);
        if (w[1] == "clv") return with_args(std::as_const(now()), w);
        return with_args(std::move(now()), w);
    }
};

} // namespace rt
