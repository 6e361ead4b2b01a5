// Lists of types (spec/Partition.tla).
#pragma once
#include "rt.h"
#include "pigro/partition.h"

namespace rt {

template<typename T>
constexpr int id = 0;
#define TYPES(X) X(1, int) X(2, void) X(3, const char &) X(4, Empty<1>) X(5, std::string) X(6, int[]) X(7, int()) X(8, pigro::typelist<int>) X(9, const int)
#define ID(N, ...) \
    template<> \
    constexpr int id<__VA_ARGS__> = N;
TYPES(ID)
#undef ID

template<unsigned Mask>
struct Select {
    template<typename T>
    struct trait : std::bool_constant<(Mask >> id<T>)&1> {};
};

template<typename... Ts>
std::string ids(pigro::typelist<Ts...>) { return list(std::vector<int>{ id<Ts>... }); }

inline void print(const char *op, const std::string &types) {
    std::cout << "{\"op\":[\"" << op << "\"],\"obs\":{\"types\":" << types << "}}\n";
}

template<unsigned Mask, typename... Ts, typename... Us>
void partition(pigro::typelist<Ts...> l, pigro::typelist<Us...> m) {
    constexpr auto p = pigro::predicate<Select<Mask>::template trait>;
    print("keep", ids(pigro::filter_if(l, p)));
    print("drop", ids(pigro::filter_if(l, !p)));
    print("part", ids(pigro::partition(l, p)));
    print("trap", ids(pigro::partition(l, !p)));
    print("part", ids(pigro::partition(l, !!p)));
    print("type", ids(pigro::partition_t<Select<Mask>::template trait, Ts...>{}));
    print("plus", ids(l + m));
    print("concat", ids(pigro::concat(l, m, l)));
    print("one", ids(pigro::concat(l)));
    print("concat0", ids(pigro::concat()));
    print("user", ids(pigro::filter_if(l, [](auto t) { return std::bool_constant<(Mask >> id<typename decltype(t)::type>)&1>{}; })));
    print("asked", list(std::vector<int>{ p(pigro::type_c<Ts>)... }));
    print("negated", list(std::vector<int>{ (!p)(pigro::type_c<Ts>)... }));
    static_assert(pigro::partition(l, p) == pigro::concat(pigro::filter_if(l, p), pigro::filter_if(l, !p)));
    std::cout << "end\n";
}

} // namespace rt
