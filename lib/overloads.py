"""O14: overload sets."""
import json
import random

from pv import *
import replay as rp

CXX_P = {'int': 'int', 'long': 'long', 'double': 'double', 'str': 'std::string', 'tag1': 'rt::Tag1', 'tag2': 'rt::Tag2',
         'base': 'rt::Base', 'any': 'auto'}
ARGS = ['int', 'long', 'double', 'char', 'str', 'cstr', 'tag1', 'tag2', 'derived']


def function(i, f, lambdas):
    """(declaration, type name) of a function of a set."""
    ps = ', '.join(CXX_P[p] for p in f['ps'])
    c = 'const ' if f['c'] else ''
    inc = '' if f['c'] else '++'
    n = f'F{i}'
    return f'''struct {n} {{
        int n = 0;
        int operator()({ps}) {c}{{ rt::hit = {{ {i + 1}, {inc}n }}; return {i + 1}; }}
    }};''', n


def program(sets):
    """One program for many sets; argv[2] chooses."""
    parts, cases = [], []
    for k, c in enumerate(sets):
        ds = [function(i, f, False) for i, f in enumerate(c['fns'])]
        names = ', '.join(n for _, n in ds)
        inits = ', '.join(n + '{}' for _, n in ds)
        parts.append(f'namespace set{k} {{\n    ' + '\n    '.join(d for d, _ in ds)
                     + f'\n    struct Run : rt::OverloadRun<decltype(pigro::overload{{ {inits} }})> {{}};\n}}')
        cases.append(f'        case {k}: return rt::run_scripts<set{k}::Run>(argv[1]);')
    return ('#include "overload_rt.h"\n' + '\n'.join(parts) + '\nint main(int, char **argv) {\n    switch (std::stoi(argv[2])) {\n'
            + '\n'.join(cases) + '\n    }\n    return 3;\n}\n')


def words(s):
    return [[op[0], op[1], *op[2]] if op[0] == 'call' else op for op in s]


def scripts_for(rng, c, quick):
    arities = sorted({len(f['ps']) for f in c['fns']})
    calls = []
    if 1 in arities:
        calls += [['call', cat, [t]] for cat in ('lv', 'clv', 'rv') for t in ARGS]
    if 0 in arities:
        calls += [['call', cat, []] for cat in ('lv', 'clv', 'rv')]
    if 2 in arities:
        two = [['call', cat, [t, u]] for cat in ('lv', 'clv', 'rv') for t in ARGS for u in ARGS]
        calls += rng.sample(two, 60) if quick else two
    rng.shuffle(calls)
    h = len(calls) // 2
    return [calls[:h] + [['copy']] + calls[h:] + [['back']] + calls[:h // 2]]


def run_sets(work, cov, name, sets, rng, quick):
    exe = compile_cxx(work, name, program(sets))
    runs = []
    for k, c in enumerate(sets):
        sc = scripts_for(rng, c, quick)
        sf = work.write(f'{name}.{k}.scripts', rp.script_lines([words(s) for s in sc]))
        rc, out, err = run_exe(exe, [sf, str(k)])
        lines = out.splitlines()
        if rc != 0 or len(lines) != len(sc):
            raise Violation(f'{name}: overload set {json.dumps(c)} crashes or hangs (status {rc}) {err[-300:]}', {'program': exe + '.cpp', 'scripts': sf})
        for s, l in zip(sc, lines):
            runs.append({'cfg': c, 'ev': [{'op': o, 'obs': b} for o, b in zip(s, json.loads(l))]})
    rp.judge(work, cov, 'Overload', name, runs, {'program': exe + '.cpp'})


def random_set(rng, n):
    ps = list(CXX_P)
    fns = []
    for _ in range(n):
        a = rng.choice([0, 1, 1, 1, 1, 2, 2])
        fns.append({'ps': [rng.choice(ps) for _ in range(a)], 'c': rng.random() < 0.6})
    return {'fns': fns}


def o14(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    cs = rp.cases(work, cov, 'Overload', {}, props=['Sane'])
    rng.shuffle(cs)
    cs = (cs[:120] if quick else cs) + [random_set(rng, rng.choice([3, 3, 4, 5, 8])) for _ in range(48 if quick else 1200)]
    n = max(8, len(cs) // 28)
    parallel([lambda k=k, r=random.Random(rng.random()): run_sets(work, cov, f'overload{k}', cs[k::n], r, quick) for k in range(n)])
    cov.notes.append(f'{len(cs)} overload sets')


CHECKS = {'O14': o14}
