"""A17: apply and to_tuple."""
import json
import random

from pv import *
import replay as rp
from cxxtypes import OWN, EMPTY

POOL = [t for t in OWN if t not in ('greedy',)]


def element(rng, k, holder):
    if k == 'empty':
        n = rng.choice(['e1', 'e2', 'e3', 'e4', 'e6'])
        return EMPTY[n][0], {'k': k, 'v': EMPTY[n][1]}
    t, n, mo, nd = OWN[rng.choice(POOL)]
    if k == 'const' and mo:
        t, n = 'int', 3
    v = rng.randrange(n)
    cxx = f'std::type_identity_t<{t}>'
    if k in ('const', 'cref'):
        cxx = f'std::add_const_t<{t}>'
    if k in ('ref', 'cref'):
        cxx += ' &'
    return cxx, {'k': k, 'v': v}


def build(rng, holder, ks, ret=None):
    if holder == 'ar':
        t, n, mo, nd = OWN[rng.choice(['int', 'spy', 'str', 'uptr'])]
        es = [(t, {'k': 'own', 'v': rng.randrange(n)}) for _ in ks]
    else:
        es = [element(rng, k, holder) for k in ks]
    if ret is None:
        ok = [i + 1 for i, e in enumerate(es) if e[1]['k'] != 'empty']
        ret = rng.choice([0, 0, -1] + ok)
    cfg = {'holder': holder, 'elems': [e for _, e in es], 'ret': ret}
    ts = ''.join(', ' + t for t, _ in es)
    vs = ', '.join(str(e['v']) for _, e in es) or '0'
    code = f'    rt::ApplyRun<rt::{holder}, {ret}{ts}>({{ {vs} }}).all();'
    if es:
        code = f'    {{ const int vs[] = {{ {vs}, 0 }}; rt::ApplyRun<rt::{holder}, {ret}{ts}>(vs).all(); }}'
    else:
        code = f'    {{ const int vs[] = {{ 0 }}; rt::ApplyRun<rt::{holder}, {ret}>(vs).all(); }}'
    return cfg, code


def run_programs(work, cov, module, header, name, items, per=14):
    """items: (cfg, code). The code prints {"op":, "obs":} lines and "end"."""
    def one(k, part):
        src = f'#include "{header}"\nint main() {{\n' + '\n'.join(c for _, c in part) + '\n}\n'
        exe = compile_cxx(work, f'{name}{k}', src)
        rc, out, err = run_exe(exe)
        runs, cur = [], []
        for l in out.splitlines():
            if l == 'end':
                runs.append({'cfg': part[len(runs)][0], 'ev': cur})
                cur = []
            else:
                cur.append(json.loads(l))
        if rc != 0 or len(runs) != len(part):
            at = part[len(runs)] if len(runs) < len(part) else ('?', '?')
            raise Violation(f'{name}{k}: {"hangs" if rc is None else f"crashes (status {rc})"} {err[-400:]}\nin {at[1].strip()}\nafter {cur[-3:]}',
                            {'program': exe + '.cpp'})
        rp.judge(work, cov, module, f'{name}{k}', runs, {'program': exe + '.cpp'})

    n = max(8, (len(items) + per - 1) // per)
    parallel([lambda k=k: one(k, items[k::n]) for k in range(n) if items[k::n]])


def a17(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    cs = rp.cases(work, cov, 'Apply', {}, props=['Sane'])
    rng.shuffle(cs)
    small = [c for c in cs if len(c['ks']) < 3]
    rest = [c for c in cs if len(c['ks']) >= 3]
    cs = small + (rest[:60] if quick else rest * 3)
    items = [build(rng, c['holder'], c['ks']) for c in cs]
    for _ in range(24 if quick else 400):
        n = rng.randint(4, 9)
        items.append(build(rng, rng.choice(['ct', 'ct', 'tup']), [rng.choice(['own', 'own', 'const', 'ref', 'cref', 'empty']) for _ in range(n)]))
    run_programs(work, cov, 'Apply', 'apply_rt.h', 'apply', items)
    cov.notes.append(f'{len(items)} tuples')


CHECKS = {'A17': a17}
