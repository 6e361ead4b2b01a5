"""T11 (stateless parts take no space) and L09 (footprint of lazy objects)."""
import json
import random

from pv import *
import replay as rp

CXX_T = {'c': 'char', 'i': 'int', 'd': 'double', 'w': 'rt::Wide', 's': 'rt::Bytes', 'b': 'rt::Block', 't': 'std::string', 'r': 'int &', 'v': 'void', 'e': 'void'}


def value(k, i):
    return f'rt::NoData<{i % 2}>' if k == 'e' else CXX_T[k]


def fn(k, i):
    return f'rt::Callable<{CXX_T[k]}, {i}>'


def type_of(form, parts):
    if form == 'tuple':
        return 'pigro::compressed_tuple<' + ', '.join(value(k, i) for i, k in enumerate(parts)) + '>'
    if form == 'overload':
        return 'pigro::overload<' + ', '.join(fn(k, i) for i, k in enumerate(parts)) + '>' if parts else 'rt::NoData<0>'
    if form == 'recursive':
        return f'pigro::recursive<{fn(parts[0], 0)}>'
    if form in ('regular', 'unregular'):
        return f'decltype(pigro::{form}ized_void(std::declval<{fn(parts[0], 0)}>()))'
    f, vals = fn(parts[0], 0), parts[1:]
    if form == 'uncapture':
        if not vals:
            return f
        return f'decltype(pigro::uncaptured({", ".join(f"std::declval<{value(k, i)}>()" for i, k in enumerate(vals))}) >> std::declval<{f}>())'
    return f'decltype(rt::{form}(std::declval<{type_of("tuple", vals)}>(), std::declval<{f}>()))'


def bare(form, parts):
    """The same without the stateless parts (the callable stays)."""
    if form == 'tuple' or form == 'overload':
        return [k for k in parts if k != 'e'] if form == 'tuple' or any(k != 'e' for k in parts) else parts
    if form in ('front', 'back', 'uncapture'):
        return parts[:1] + [k for k in parts[1:] if k != 'e']
    return parts


def lazy_expr(t, n):
    def lf(f, r):
        n[0] += 1
        return f'std::declval<rt::LazyFn<{CXX_T[f]}, {CXX_T[r]}, {n[0] % 3}>>()'
    if t.get('k') == 'val':
        n[0] += 1
        return f'std::declval<{value(t["v"], n[0])}>()'
    if t.get('k') == 'src':
        return lf(t['f'], t['r'])
    return 'pigro::lazy(' + ', '.join([lf(t['f'], t['r'])] + [lazy_expr(d, n) for d in t['deps']]) + ')'


def lazy_type(t):
    return f'decltype({lazy_expr(t, [0])})'


def measure(work, cov, name, cases):
    """Measure all cases, in several programs."""
    def one(k, part):
        lines = []
        for c in part:
            if c['form'] == 'lazy':
                t = lazy_type(c['tree'])
                lines.append(f'    {{ using T = {t}; rt::size_of<T, T>(); }}')
            else:
                lines.append(f'    rt::size_of<{type_of(c["form"], c["parts"])}, {type_of(c["form"], bare(c["form"], c["parts"]))}>();')
        src = '#include "layout_rt.h"\nint main() {\n    rt::table();\n' + '\n'.join(lines) + '\n}\n'
        exe = compile_cxx(work, f'{name}{k}', src)
        rc, out, err = run_exe(exe)
        ls = out.splitlines()
        if rc != 0 or len(ls) != len(part) + 1:
            raise ToolError(f'{name}{k}: {rc} {err[-300:]}')
        table = json.loads(ls[0])
        runs = [{'cfg': c, 'ev': [{'op': ['size'], 'obs': dict(json.loads(l), **table)}]} for c, l in zip(part, ls[1:])]
        rp.judge(work, cov, 'Layout', f'{name}{k}', runs, {'program': exe + '.cpp'})

    n = max(8, len(cases) // 150)
    parallel([lambda k=k: one(k, cases[k::n]) for k in range(n) if cases[k::n]])


def t11(work, tier, cov):
    rng = random.Random(seed())
    cs = rp.cases(work, cov, 'Layout', {'what': 'simple', 'max': 3 if tier == 'quick' else 4}, props=['Sane'])
    for k in range(400 if tier == 'quick' else 4000):
        form = rng.choice(['tuple', 'overload', 'front', 'back', 'uncapture'])
        # every other one has few parts with state, so that there is no padding
        # for the others to hide in
        ks = 'eecidwsbt' + ('r' if form == 'tuple' else '') if k % 2 else 'e' * 12 + 'ciid'
        cs.append({'form': form, 'parts': [rng.choice(ks) for _ in range(rng.randint(4, 10))]})
    measure(work, cov, 'layout', cs)
    cov.notes.append(f'{len(cs)} constructs measured')


def random_tree(rng, depth):
    deps = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        x = rng.random()
        if x < 0.35:
            deps.append({'k': 'val', 'v': rng.choice('ecidwsbt')})
        elif x < 0.7 or depth == 0:
            deps.append({'k': 'src', 'f': rng.choice('eeidws'), 'r': rng.choice('cidsbt')})
        else:
            deps.append(random_tree(rng, depth - 1))
    return {'k': 'lazy', 'f': rng.choice('eeidws'), 'r': rng.choice('vcidsbt'), 'deps': deps}


def l09(work, tier, cov):
    rng = random.Random(seed())
    cs = rp.cases(work, cov, 'Layout', {'what': 'lazy', 'max': 0}, props=['Sane'])
    rng.shuffle(cs)
    cs = cs[:240] if tier == 'quick' else cs
    for _ in range(40 if tier == 'quick' else 400):
        cs.append({'form': 'lazy', 'tree': random_tree(rng, 2)})
    measure(work, cov, 'footprint', cs)
    cov.notes.append(f'{len(cs)} lazy objects measured')


CHECKS = {'T11': t11, 'L09': l09}
