"""P18: enumerate_pack and enumerate_n."""
import random

from pv import *
import replay as rp
from cxxtypes import OWN, EMPTY
from applies import run_programs


def build(rng, form, cats, n, fcat=None, ret=None):
    fcat = fcat or rng.choice(['lv', 'lv', 'clv', 'rv'])
    ret = rng.choice([0, 0, 1, -1]) if ret is None else ret
    if form == 'n':
        return ({'form': 'n', 'args': [], 'n': n, 'fcat': fcat, 'ret': ret}, f'    rt::n<rt::{fcat}, {ret}, {n}>();')
    args, exprs = [], []
    for c in cats:
        if rng.random() < 0.15:
            t, v, nd = EMPTY[rng.choice(['e1', 'e2', 'e3', 'e4', 'e6'])]
            exprs.append(f'{t}{{}}')
        else:
            t, k, mo, nd = OWN[rng.choice(list(OWN))]
            v = rng.randrange(k)
            exprs.append(f'rt::enc<{t}>({v})')
        args.append({'cat': c, 'v': v})
    cs = ''.join(f', rt::{c}' for c in cats)
    return ({'form': 'pack', 'args': args, 'n': 0, 'fcat': fcat, 'ret': ret}, f'    rt::pack<rt::{fcat}, {ret}{cs}>({", ".join(exprs)});')


def p18(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    cs = rp.cases(work, cov, 'Pack', {}, props=['Sane'])
    items = [build(rng, c['form'], c['cats'], c['n']) for c in cs for _ in range(1 if quick else 5)]
    items += [build(rng, 'n', [], n, f, r) for n in (0, 1, 2, 5, 17, 40) for f in ('lv', 'clv', 'rv') for r in (0, 1, -1)]
    for _ in range(60 if quick else 800):
        items.append(build(rng, 'pack', [rng.choice(['lv', 'clv', 'rv', 'crv']) for _ in range(rng.randint(5, 14))], 0))
    run_programs(work, cov, 'Pack', 'pack_rt.h', 'pack', items, per=40)
    cov.notes.append(f'{len(items)} packs')


CHECKS = {'P18': p18}
