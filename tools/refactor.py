#!/usr/bin/env python3
"""Edits of /repo that keep the behaviour: the checks must stay quiet.
refactor.py [name...]: applies each to a scratch copy, and runs the checks it concerns."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/pigro/'
ALL_LAZY = ['L01', 'L02', 'L03', 'L04', 'L05', 'L06', 'L07', 'L08', 'L09']
R = {}

R['lazy-helper'] = (ALL_LAZY, [(S + 'lazy.h', '''        const auto args = std::tuple{ deps(nullptr)... };

        auto changed = !cache || any(args, is_changed);
        if (changed) {
            const auto values = transform(args, value);
            const auto result = std::apply(f, values);

            changed = !cache || *cache != result;
            cache = std::move(result);
        }

        return LazyResult{
            *cache,
            changed,
        };''', '''        const auto results = std::tuple{ deps(nullptr)... };
        const auto first = !cache.has_value();

        if (!first && !any(results, is_changed))
            return LazyResult{ *cache, false };

        auto result = std::apply(f, transform(results, value));
        const auto changed = first || !(*cache == result);
        if (changed)
            cache = std::move(result);

        return LazyResult{ *cache, changed };''')])

R['lazy-emplace'] = (ALL_LAZY, [(S + 'lazy.h', '''            const auto result = std::apply(f, values);

            changed = !cache || *cache != result;
            cache = std::move(result);''', '''            auto result = std::apply(f, values);

            if (cache)
                changed = *cache != result;
            cache.emplace(std::move(result));''')])

R['lazy-right-to-left'] = (ALL_LAZY, [(S + 'lazy.h', '''        const auto args = std::tuple{ deps(nullptr)... };
''', '''        // the order in which dependencies are evaluated does not matter
        auto slots = std::tuple<std::optional<decltype(deps(nullptr))>...>{};
        [&]<size_t... i>(std::index_sequence<i...>, auto &...ds) {
            const auto refs = std::tie(ds...);
            constexpr auto n = sizeof...(i);
            (std::get<n - 1 - i>(slots).emplace(std::get<n - 1 - i>(refs)(nullptr)), ...);
        }
        (std::index_sequence_for<decltype(deps)...>{}, deps...);
        const auto args = std::apply([](auto &...os) { return std::tuple<decltype(deps(nullptr))...>{ *os... }; }, slots);
''')])

R['algorithms-by-index'] = (['A16', 'L01', 'L02', 'L04'], [(S + 'tuple_algorithms.h', '''        return (predicate(args) || ...);''', '''        auto found = false;
        static_cast<void>(((found = static_cast<bool>(predicate(args))) || ...));
        return found;''')])

R['apply-one'] = (['A17', 'B12', 'B13', 'C23', 'T10'], [(S + 'apply.h', '''    return apply_impl(std::forward<decltype(f)>(f), std::forward<decltype(t)>(t), std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<decltype(t)>>>{});''',
'''    using indices = std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>;
    return apply_impl(std::forward<F>(f), std::forward<Tuple>(t), indices{});''')])

R['bind-forwarding'] = (['B12', 'B13', 'C23', 'T11', 'V20', 'L01', 'L05', 'L08', 'L09'], [(S + 'bind_tuple.h', '''        return pigro::apply(bind_back(f, FWD(args)...), t);''',
'''        return pigro::apply([&](auto &&...elements) -> decltype(auto) { return std::invoke(f, FWD(elements)..., args...); }, t);'''),
(S + 'bind_tuple.h', '''        return pigro::apply(pigro::bind_front(f, FWD(args)...), t);''',
'''        return pigro::apply([&](auto &&...elements) -> decltype(auto) { return std::invoke(f, args..., FWD(elements)...); }, t);''')])

R['overload-nested'] = (['O14', 'T10', 'T11', 'L01', 'L09'], [(S + 'overload.h', '''template<typename... Fs>
struct overload : Fs... {
    using Fs::operator()...;
};
#endif''', '''template<typename... Fs>
struct overload : Fs... {
    using Fs::operator()...;
};

template<typename F>
struct overload<F> : F {
    using F::operator();
};

template<typename... Fs>
overload(Fs...) -> overload<Fs...>;
#endif''')])

R['pack-reordered'] = (['P18', 'T10', 'B12', 'L01'], [(S + 'pack_algorithms.h', '''    return [&, t = std::tuple<decltype(pack)...>{ std::forward<decltype(pack)>(pack)... } ]<size_t... idx>(std::index_sequence<idx...>) mutable {
        return f(
          Item<
            idx,
            std::tuple_element_t<idx, decltype(t)>>(
            std::forward<
              std::tuple_element_t<idx, decltype(t)>>(std::get<idx>(t)))...);
    }
    (std::make_index_sequence<sizeof...(pack)>{});''', '''    const auto indices = std::index_sequence_for<decltype(pack)...>{};
    return [&]<size_t... idx>(std::index_sequence<idx...>) {
        return f(Item<idx, decltype(pack)>(std::forward<decltype(pack)>(pack))...);
    }
    (indices);''')])

R['partition-twice'] = (['P19'], [(S + 'partition.h', '''    return concat(
      filter_if(typelist<Ts>{}, predicate)...,
      filter_if(typelist<Ts>{}, !predicate)...);''', '''    constexpr auto all = typelist<Ts...>{};
    return filter_if(all, predicate) + filter_if(all, !predicate);'''),
(S + 'partition.h', '''        return is_negated ? !Trait<T>::value
                          : Trait<T>::value;''', '''        return is_negated != static_cast<bool>(Trait<T>::value);''')])

R['like-spelled'] = (['F22', 'T10', 'B13'], [(S + 'forward_like.h', '''    return std::forward<like_t<Like, T>>(std::forward<T>(t));''', '''    using result_t = like_t<Like, T>;
    return std::forward<result_t>(std::forward<T>(t));''')])

R['uncapture-named'] = (['U21', 'T11', 'C23'], [(S + 'uncapture.h', '''    return std::apply([](auto f, auto... values) {
        return (values >> ... >> f);
    },
      std::tuple_cat(std::tuple{ f }, values_.data));''', '''    const auto bind_all = [&f](auto... values) {
        return (values >> ... >> f);
    };
    return std::apply(bind_all, values_.data);''')])

R['void-switched'] = (['V20', 'L07', 'L08'], [(S + 'regular_void.h', '''    if constexpr (std::same_as<result_t, void>) {
        f(args...);
        return regular_void{};
    } else {
        return f(args...);
    }
};

constexpr auto unregularized''', '''    if constexpr (!std::is_void_v<result_t>)
        return f(args...);
    else
        return f(args...), regular_void{};
};

constexpr auto unregularized''')])

R['recursive-self'] = (['O15', 'T10', 'B12', 'C23', 'L01'], [(S + 'recursive.h', '''        return std::invoke(static_cast<F &>(*this), *this, std::forward<Args>(args)...);''', '''        auto &self = *this;
        F &f = self;
        return std::invoke(f, self, std::forward<Args>(args)...);''')])

R['tuple-size'] = (['T10', 'C23', 'A17', 'L01'], [(S + 'compressed_tuple.h', '''struct tuple_size<T> : std::tuple_size<pigro::rebind_container_t<std::remove_cvref_t<T>, std::tuple>> {
};''', '''struct tuple_size<T> : std::integral_constant<size_t, std::tuple_size_v<pigro::rebind_container_t<std::remove_cvref_t<T>, std::tuple>>> {};'''),
(S + 'compressed_tuple.h', '''    return std::forward<T>(t)(pigro::idx<I>);
}''', '''    constexpr auto index = pigro::idx<I>;
    return std::forward<T>(t)(index);
}''')])

R['capture-tie'] = (['F22', 'T10', 'B13'], [(S + 'fwd_capture.h', '''    return std::get<0>(std::forward<T>(x));''', '''    using std::get;
    return get<0>(std::forward<T>(x));''')])


def main():
    bad = []
    for name in sys.argv[1:] or R:
        checks, edits = R[name]
        d = tempfile.mkdtemp(prefix='refactor.')
        try:
            subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}', shell=True, check=True)
            for f, old, new in edits:
                p = os.path.join(d, f)
                s = open(p).read()
                assert s.count(old) == 1, (name, f, s.count(old))
                open(p, 'w').write(s.replace(old, new))
            for c in checks:
                r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), c, 'quick'], capture_output=True, text=True, env=dict(os.environ, PIGRO_REPO=d))
                print(name, c, r.returncode, r.stdout.strip().splitlines()[-1][:150] if r.returncode == 0 else r.stdout[-1200:] + r.stderr[-500:], flush=True)
                if r.returncode:
                    bad.append((name, c))
        finally:
            shutil.rmtree(d)
    print('NOT QUIET:', bad)


main()
