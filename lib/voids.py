"""V20: void as a value."""
import random

from pv import *
import replay as rp
from cxxtypes import OWN

RES = {'void': 'void', 'unit': 'pigro::regular_void', 'num': 'int', 'text': 'std::string', 'opt': 'std::optional<int>'}
FNS = {'mut': 'Mut', 'large': 'Large', 'both': 'Both', 'con': 'Con', 'empty': 'Bare'}
ADAPTS = [['reg'], ['unreg'], ['reg', 'unreg'], ['unreg', 'reg'], ['reg', 'reg'], ['reg', 'unreg', 'reg']]


def draw(rng, c, length):
    s, alive = [], set()
    while len(s) < length:
        o, p = rng.randint(1, 3), rng.randint(1, 3)
        n = rng.choice(['make', 'copy', 'move', 'call', 'call', 'call', 'ccall'])
        if n == 'make':
            s.append([n, o])
            alive.add(o)
        elif n in ('copy', 'move') and o != p and p in alive:
            s.append([n, o, p])
            alive.add(o)
        elif n in ('call', 'ccall') and o in alive and (n == 'call' or c['fn'] not in ('mut', 'large')):
            s.append([n, o, [rng.randint(0, 1) for _ in range(c['args'])]])
    return s


def words(s):
    return [[*op[:2], *op[2]] if op[0] in ('call', 'ccall') else op for op in s]


def v20(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    keys = [(f, n) for f in FNS for n in range(3)]
    cover = dict(zip(keys, parallel([lambda f=f, n=n: rp.scripts(
        work, cov, 'Void', f'void-{f}-{n}', {'what': 'adapter', 'objs': 2, 'adapt': ['reg'], 'res': 'void', 'args': n, 'fn': f, 'maxn': 2}, 4 if quick else 6)
        for f, n in keys])))
    opt = {'what': 'optional', 'objs': 2 if quick else 3, 'maxn': 2}
    osc = rp.scripts(work, cov, 'Void', 'void-optional', opt, 6)

    def one(k, fn, res, adapt, args):
        name = f'void{k}'
        cfg = {'what': 'adapter', 'objs': 3, 'adapt': adapt, 'res': res, 'args': len(args), 'fn': fn}
        sub = random.Random(seed() * 100 + k)
        sc = list(cover[fn, len(args)])
        cap = 150 if quick else 3000
        if len(sc) > cap:
            sc = sub.sample(sc, cap)
        sc += [draw(sub, cfg, 30) for _ in range(5 if quick else 100)]
        targs = ''.join(', ' + OWN[a][0] for a in args)
        exe = compile_cxx(work, name, f'#include "void_rt.h"\nint main(int, char **argv) {{ return rt::run_scripts<rt::VoidRun<rt::{FNS[fn]}<{RES[res]}>, '
                          f'rt::adapt<{", ".join("rt::" + a for a in adapt)}>{targs}>>(argv[1]); }}\n')
        obs = rp.perform(work, name, exe, [words(s) for s in sc])
        return [{'cfg': cfg, 'ev': [{'op': o, 'obs': b} for o, b in zip(s, ob)]} for s, ob in zip(sc, obs)]

    def optional():
        exe = compile_cxx(work, 'optional', '#include "void_rt.h"\nint main(int, char **argv) { return rt::run_scripts<rt::OptionalRun>(argv[1]); }\n')
        rp.replay(work, cov, 'Void', 'optional', opt, exe, osc)

    pool = [t for t in OWN if not OWN[t][2]]
    progs = []
    for fn in FNS:
        for res in RES:
            for adapt in (ADAPTS if not quick else ADAPTS[:2] + [rng.choice(ADAPTS[2:])]):
                progs.append((fn, res, adapt, [rng.choice(pool) for _ in range(rng.randint(0, 2))]))
    runs = parallel([optional] + [lambda k=k, p=p: one(k, *p) for k, p in enumerate(progs)])[1:]
    parallel([lambda k=k: rp.judge(work, cov, 'Void', f'voids{k}', [r for rs in runs[k::8] for r in rs]) for k in range(8)])
    cov.notes.append(f'{len(progs)} adapted functions')


CHECKS = {'V20': v20}
