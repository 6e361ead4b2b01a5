"""F22: value categories."""
import json
import random

from pv import *
import replay as rp
from cxxtypes import OWN
from applies import run_programs

CATS = ['lv', 'clv', 'rv', 'crv']


def cxx(t, base):
    return ('const ' if t[0] else '') + ('volatile ' if t[1] else '') + base + t[2]


def build(rng, ops):
    lines = []
    for op in ops:
        o = 'R"(' + json.dumps(op) + ')"'
        b, f = rng.choice(['int', 'std::string', 'rt::Spy', 'std::unique_ptr<int>']), rng.choice(['int', 'double', 'std::string'])
        if op[0] == 'like':
            lines.append(f'rt::like<{cxx(op[1], f)}, {cxx(op[2], b)}, {b}>({o});')
        elif op[0] == 'forward':
            lines.append(f'rt::forward<{cxx(op[1], f)}, {b}>({o}, "{op[2]}");')
        elif op[0] == 'nonconst':
            lines.append(f'rt::nonconst<{b}>({o}, "{op[1]}");')
        elif op[0] == 'rebind':
            lines.append(f'rt::rebind<rt::From<{", ".join(f"rt::Id<{i}>" for i in op[1])}>>({o});')
    return {'what': 'types', 'cat': ''}, '    ' + '\n    '.join(lines) + '\n    std::cout << "end\\n";'


def f22(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    ops = rp.cases(work, cov, 'Forward', {}, props=['Sane'])
    ops = ops * (2 if quick else 10)
    rng.shuffle(ops)
    items = [build(rng, ops[k::16]) for k in range(16)]
    run_programs(work, cov, 'Forward', 'forward_rt.h', 'forward', items, per=2)

    types = [t for t in OWN if not OWN[t][2]]
    types = rng.sample(types, 4) + ['spy'] if quick else types

    def scripts(cat):
        return rp.scripts(work, cov, 'Forward', f'capture-{cat}', {'what': 'capture', 'cat': cat}, 6)

    cover = dict(zip(CATS, parallel([lambda c=c: scripts(c) for c in CATS])))

    def one(cat, t):
        name = f'capture-{cat}-{t}'
        exe = compile_cxx(work, name, f'#include "forward_rt.h"\nint main(int, char **argv) {{ return rt::run_scripts<rt::CaptureRun<{OWN[t][0]}, {CATS.index(cat)}>>(argv[1]); }}\n')
        obs = rp.perform(work, name, exe, cover[cat])
        return [{'cfg': {'what': 'capture', 'cat': cat}, 'ev': [{'op': o, 'obs': b} for o, b in zip(s, ob)]} for s, ob in zip(cover[cat], obs)]

    runs = parallel([lambda c=c, t=t: one(c, t) for c in CATS for t in types])
    rp.judge(work, cov, 'Forward', 'capture', [r for rs in runs for r in rs])
    cov.notes.append(f'{len(ops)} type computations, captures of {len(types)} types')


CHECKS = {'F22': f22}
