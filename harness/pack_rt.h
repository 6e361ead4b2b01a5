// enumerate_pack and enumerate_n (spec/Pack.tla).
#pragma once
#include "rt.h"
#include "pigro/pack_algorithms.h"

namespace rt {

inline std::vector<long> indices, values;
inline std::vector<std::string> cats;
inline std::vector<const void *> places;
inline int calls, count;

template<int Ret>
struct Items {
    int n = 0;
    Spy spy;

    template<typename... Is>
    static auto body(int n, Is &&...items) {
        ++calls;
        count = n;
        // the position is known at compile time
        indices = { static_cast<long>(std::integral_constant<size_t, std::remove_reference_t<Is>::index>::value)... };
        values = { dec<std::remove_cvref_t<decltype(items.value)>>(items.value)... };
        cats = { str(category<decltype(items.value)>())... };
        places = { static_cast<const void *>(std::addressof(items.value))... };
        int r = 1;
        for (auto v : values) r = (r * 5 + v) % 9973;
        if constexpr (Ret == 0) return r;
        else if constexpr (Ret == 1) return std::make_unique<int>(r);
    }
    template<typename... Is>
    auto operator()(Is &&...items) { return body(++n, std::forward<Is>(items)...); }
    template<typename... Is>
    auto operator()(Is &&...items) const { return body(n, std::forward<Is>(items)...); }
};

template<>
struct codec<unsigned long> {
    static int dec(const unsigned long &v) { return static_cast<int>(v); }
};

template<int Ret, typename Run>
void report(int k, Run run, const std::vector<const void *> &args) {
    calls = 0;
    copies = 0;
    int r = 0;
    bool done = true;
    using R = decltype(run());
    if constexpr (Ret == 0) r = run(), done = std::is_same_v<R, int>;
    else if constexpr (Ret == 1) {
        auto p = run();
        done = std::is_same_v<R, std::unique_ptr<int>>;
        r = *p;
    } else
        run(), done = std::is_void_v<R>;
    std::vector<int> same;
    for (size_t i = 0; i < places.size(); ++i) same.push_back(i < args.size() && args[i] == places[i]);
    std::cout << "{\"op\":[\"run\"," << k << "],\"obs\":"
              << Obj{}.add("index", list(indices)).add("seen", list(values)).add("cats", list(cats)).add("same", list(same)).n("calls", calls).n("n", count).n("ret", r).n("copies", copies).n("done", done).done()
              << "}\n";
}

// an argument: a value of type T, passed as category C
enum Cat { lv,
    clv,
    rv,
    crv };
template<Cat C, typename T>
decltype(auto) as(T &x) {
    if constexpr (C == lv) return (x);
    else if constexpr (C == clv) return (std::as_const(x));
    else if constexpr (C == rv) return std::move(x);
    else return std::move(std::as_const(x));
}

template<Cat FC, int Ret, Cat... Cs, typename... Ts>
void pack(Ts... xs) {
    Items<Ret> f;
    for (int k = 1; k <= 3; ++k)
        report<Ret>(k, [&] { return pigro::enumerate_pack(as<FC>(f), as<Cs>(xs)...); }, { static_cast<const void *>(std::addressof(xs))... });
    std::cout << "end\n";
}
template<Cat FC, int Ret, size_t N>
void n() {
    Items<Ret> f;
    for (int k = 1; k <= 3; ++k)
        report<Ret>(k, [&] { return pigro::enumerate_n<N>(as<FC>(f)); }, {});
    std::cout << "end\n";
}

} // namespace rt
