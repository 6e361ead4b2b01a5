"""O15: recursive functions."""
import random

from pv import *
import replay as rp

SELVES = {'value': 'byvalue', 'ref': 'byref', 'fwd': 'byfwd', 'cref': 'bycref'}
OPS = {'plain': 'all', 'over': 'all', 'lam': 'con', 'mutlam': 'mut'}


def draw(rng, c, length):
    s, copied = [], False
    cats = ['lv', 'rv'] if c['op'] == 'mut' else ['lv', 'clv', 'rv', 'crv']
    while len(s) < length:
        if rng.random() < 0.1:
            s.append(['back' if copied else 'copy'])
            copied = not copied
        else:
            d = 0 if c['op'] == 'mut' and c['self'] == 'cref' else rng.randint(0, 5)
            s.append(['call', rng.choice(cats), d, rng.choice(['lv', 'clv', 'rv'])])
    return s


def o15(work, tier, cov):
    quick = tier == 'quick'

    def scripts(self, op):
        cfg = {'self': self, 'op': op, 'ret': 0, 'maxn': 5, 'maxd': 3 if quick else 5}
        return rp.scripts(work, cov, 'Recursive', f'recursive-{self}-{op}', cfg, 3 if quick else 5)

    kinds = [(s, o) for s in SELVES for o in ('all', 'con', 'mut') if not (s == 'cref' and o == 'mut')]
    cover = dict(zip(kinds, parallel([lambda k=k: scripts(*k) for k in kinds])))

    def one(wrap, self, ret):
        name = f'recursive-{wrap}-{self}-{ret}'.replace('--', '-m')
        cfg = {'self': self, 'op': OPS[wrap], 'ret': ret}
        rng = random.Random(f'{seed()}{name}')
        sc = list(cover[self, OPS[wrap]])
        cap = 300 if quick else 5000
        if len(sc) > cap:
            sc = rng.sample(sc, cap)
        sc += [draw(rng, cfg, 40) for _ in range(10 if quick else 200)]
        exe = compile_cxx(work, name, f'#include "recursive_rt.h"\nint main(int, char **argv) {{ return rt::run_scripts<rt::RecursiveRun<rt::{wrap}, rt::{SELVES[self]}, {ret}>>(argv[1]); }}\n')
        obs = rp.perform(work, name, exe, sc)
        return [{'cfg': cfg, 'ev': [{'op': o, 'obs': b} for o, b in zip(s, ob)]} for s, ob in zip(sc, obs)]

    progs = [(w, s, r) for w in OPS for s in SELVES for r in (0, 1, -1) if not (w == 'mutlam' and s == 'cref')]
    runs = parallel([lambda p=p: one(*p) for p in progs])
    parallel([lambda k=k: rp.judge(work, cov, 'Recursive', f'recursive{k}', [r for rs in runs[k::8] for r in rs]) for k in range(8)])
    cov.notes.append(f'{len(progs)} kinds of recursive functions')


CHECKS = {'O15': o15}
