"""Bound arguments: B12 (order, results), B13 (ownership, state)."""
import random

from pv import *
import replay as rp
from cxxtypes import OWN, EMPTY

ET = {'e1': EMPTY['e1'], 'e2': EMPTY['e2'], 'e3': EMPTY['e3'], 'e4': EMPTY['e4'], 'e6': EMPTY['e6']}


def element(e):
    if e in ET:
        return ET[e][0], {'k': 'empty', 'id': ET[e][1], 'n': 1, 'mo': False}
    base = e.replace(' &', '')
    t, n, mo, nd = OWN[base]
    if e.endswith('&'):
        return f'std::type_identity_t<{t}> &', {'k': 'ref', 'id': 0, 'n': n, 'mo': bool(mo)}
    return f'std::type_identity_t<{t}>', {'k': 'own', 'id': 0, 'n': n, 'mo': bool(mo)}


def config(p, what, objs=2, banks=1, maxn=2):
    return {'form': p['form'], 'elems': [element(e)[1] for e in p['elems']], 'tuple': p['tuple'], 'fn': p['fn'],
            'args': len(p['args']), 'an': 2, 'ret': p['ret'], 'objs': objs, 'banks': banks, 'maxn': maxn, 'what': what}


def program(p):
    bs = ', '.join(element(e)[0] for e in p['elems'])
    as_ = ', '.join(OWN[a][0] for a in p['args'])
    return ('#define WITH_UNCAPTURE\n' if p['form'] == 'uncap' else '') + f'''#include "bind_rt.h"
int main(int, char **argv) {{
    using namespace rt;
    return run_scripts<BindRun<{p["form"]}, {p["holder"]}, {int(p["tuple"] == "ref")}, rt::{p["fn"]}, {p["ret"]}, types<{bs}>, types<{as_}>>>(argv[1]);
}}
'''


def P(form, elems, args, holder='ct', tuple='own', fn='own', ret=0):
    if form in ('bback', 'uncap'):
        tuple = 'own'
    return dict(form=form, elems=elems.split(), args=args.split(), holder=holder, tuple=tuple, fn=fn, ret=ret)


def fix(p):
    p['elems'] = [e.replace('&', ' &') for e in p['elems']]
    return p


SMALL = [
    (P('front', 'int', 'int'), 5), (P('back', 'int', 'int'), 5), (P('bback', 'int', 'int'), 5),
    (P('front', 'spy spy', 'spy'), 4), (P('back', 'spy spy', 'spy'), 4), (P('bback', 'spy spy', 'spy'), 4),
    (P('front', 'spy&', 'spy', fn='ref'), 5), (P('back', 'spy&', 'spy', fn='ref'), 5), (P('bback', 'spy&', 'spy', fn='ref'), 5),
    (P('front', 'e1', 'int', fn='empty'), 4), (P('back', 'e1', 'int', fn='empty'), 4), (P('back', 'e1 int', 'int', fn='empty'), 4),
    (P('front', '', 'int int'), 4), (P('back', '', 'int int'), 4), (P('bback', '', 'int int'), 4),
    (P('front', 'str', 'str', tuple='ref'), 4), (P('back', 'str', 'str', tuple='ref'), 4),
    (P('front', 'spy int', 'int', holder='tup'), 4), (P('back', 'spy int', 'int', holder='tup'), 4),
    (P('front', 'int int', 'int', holder='ar', tuple='ref', fn='ref'), 4), (P('back', 'int str', 'int', holder='pr'), 4),
    (P('front', 'uptr', 'uptr', fn='moveonly'), 4), (P('back', 'uptr', 'uptr', fn='moveonly'), 4), (P('bback', 'uptr', 'uptr', fn='moveonly'), 4),
]

RETS = [
    (P('front', 'int str', 'int', ret=1), 4), (P('back', 'int str', 'str', ret=1), 4), (P('back', 'int str', 'int', ret=2), 4),
    (P('bback', 'int str', 'int', ret=2), 4), (P('front', 'int& str', 'int', ret=1), 4), (P('front', 'int', 'str', ret=2, fn='empty'), 4),
]

LARGE = [
    P('front', 'int str double e1 spy', 'spy int'), P('back', 'int str double e1 spy', 'spy int'), P('bback', 'int str double spy&', 'spy int'),
    P('front', 'int int int int int int int int', 'int int int'), P('back', 'int int int int int int int int', 'int int int'),
    P('bback', 'int int int int int int', 'int int int'),
    P('front', 'e1 e1 e2 int e3', 'int', fn='empty'), P('back', 'e1 e1 e2 int e3', 'int', fn='empty'),
    P('front', 'tup1 pair opt', 'tup1', holder='tup'), P('back', 'tup2 tuptup vec', 'tup1 pair', holder='ct'),
    P('front', 'int& str& e1 spy', 'spy', tuple='ref'), P('back', 'int& str& e1 spy', 'spy', tuple='ref', fn='ref'),
    P('front', 'double double double', 'double', holder='ar'), P('back', 'spy spy spy', 'spy', holder='ar', tuple='ref'),
    P('front', 'spy vec', 'spy', holder='pr', tuple='ref'), P('back', 'uptr int uptr', 'uptr', fn='moveonly'),
    P('front', 'uptr spy&', 'spy uptr', holder='tup', fn='ref'), P('bback', 'func fun sptr', 'wide char'),
    P('back', 'bool char wide short', 'ull'), P('front', 'greedy nodef agg', 'greedy'),
    P('front', 'int str', 'int int int int'), P('back', 'int str', 'int int int int'), P('bback', 'spy&', 'int int int int'),
    P('back', 'e1', '', fn='empty'), P('front', 'e1 e2', '', fn='own'), P('back', 'spy', '', fn='empty'),
]


UNCAP_SMALL = [
    (P('uncap', 'int', 'int'), 5), (P('uncap', 'spy spy', 'spy'), 4), (P('uncap', 'e1', 'int', fn='empty'), 4), (P('uncap', 'e1 int', 'int', fn='empty'), 4),
    (P('uncap', '', 'int int'), 4), (P('uncap', 'str', 'str'), 4), (P('uncap', 'e1 e1', 'str'), 4), (P('uncap', 'int e1 int', 'int'), 4),
    (P('uncap', 'int str', 'int', ret=2), 4), (P('uncap', 'int str', 'str', ret=1), 4), (P('uncap', 'int str', 'str', ret=3, fn='empty'), 4),
    (P('uncap', 'tup1', 'tup2'), 4), (P('uncap', 'pair', ''), 4), (P('uncap', 'e1', ''), 4), (P('uncap', 'tup1 tup1', 'int'), 4),
]
UNCAP_LARGE = [
    P('uncap', 'int str double e1 spy', 'spy int'), P('uncap', 'int int int int int int int int', 'int int int'), P('uncap', 'e1 e1 e2 int e3', 'int', fn='empty'),
    P('uncap', 'tup1 pair opt', 'tup1'), P('uncap', 'tup2 tuptup vec', 'tup1 pair'), P('uncap', 'func fun sptr', 'wide char'), P('uncap', 'bool char wide short', 'ull'),
    P('uncap', 'greedy nodef agg', 'greedy'), P('uncap', 'int str', 'int int int int'), P('uncap', 'spy', '', fn='empty'), P('uncap', 'spy e1 e2 e3 e4 e1 spy', 'int', fn='empty'),
    P('uncap', 'arr vec opt enum derived base virt final', 'uptr uptr'), P('uncap', 'e1 e2 e3', 'spy uptr', fn='own'),
]


def random_uncap(rng):
    pool = [t for t in OWN if not OWN[t][2]]
    es = [rng.choice(list(ET)) if rng.random() < 0.3 else rng.choice(pool) for _ in range(rng.choice([1, 2, 3, 4, 6, 9]))]
    return P('uncap', ' '.join(es), ' '.join(rng.choice(list(OWN)) for _ in range(rng.randint(0, 3))), fn=rng.choice(['own', 'own', 'empty']))


def random_prog(rng):
    form = rng.choice(['front', 'back', 'bback'])
    n = rng.choice([1, 2, 2, 3, 4, 6])
    pool = [t for t in OWN if t not in ('fptr',)]
    es = []
    for _ in range(n):
        x = rng.random()
        if x < 0.25 and form != 'bback':
            es.append(rng.choice(list(ET)))
        elif x < 0.45:
            es.append(rng.choice(pool) + '&')
        else:
            es.append(rng.choice(pool))
    holder = rng.choice(['ct', 'ct', 'tup'])
    if holder == 'tup':
        es = [e for e in es]
    args = ' '.join(rng.choice(pool) for _ in range(rng.randint(0, 3)))
    return P(form, ' '.join(es), args, holder=holder, tuple=rng.choice(['own', 'own', 'ref']),
             fn=rng.choice(['own', 'own', 'ref', 'empty', 'moveonly']), ret=0)


def draw(rng, cfg, length):
    """Random script of enabled operations."""
    es = cfg['elems']
    alive, s = set(), []
    inside = [cfg['tuple'] == 'own' and e['k'] == 'own' for e in es]
    copyable = cfg['fn'] != 'moveonly' and not any(i and e['mo'] for i, e in zip(inside, es))
    nonempty = [i + 1 for i, e in enumerate(es) if e['k'] != 'empty']
    while len(s) < length:
        o, p, b = rng.randint(1, cfg['objs']), rng.randint(1, cfg['objs']), rng.randint(1, 2)
        n = rng.choice(['var', 'arg', 'make', 'copy', 'move', 'drop', 'call', 'call', 'call', 'call', 'ccall', 'vars'])
        if n == 'var' and nonempty:
            i = rng.choice(nonempty)
            s.append([n, b, i, rng.randrange(es[i - 1]['n'])])
        elif n == 'arg' and cfg['args']:
            s.append([n, rng.randint(1, cfg['args']), rng.randint(0, 1)])
        elif n == 'make':
            s.append([n, o, b])
            alive.add(o)
        elif n in ('copy', 'move') and p in alive and o != p and (n == 'move' or copyable):
            s.append([n, o, p])
            alive.add(o)
        elif n == 'drop' and o in alive and rng.random() < 0.3:
            s.append([n, o])
            alive.discard(o)
        elif n in ('call', 'ccall') and o in alive:
            k = rng.randint(0, cfg['args'])
            cats = [rng.choice(['lv', 'clv', 'rv']) for _ in range(k)]
            if n == 'ccall':
                if cfg['form'] != 'bback' and not cfg['ret']:
                    s.append([n, o, cats])
                continue
            ps = [('b', i) for i in range(len(es))]
            ps = ps + [('a', j) for j in range(k)] if cfg['form'] == 'front' else [('a', j) for j in range(k)] + ps
            if cfg['ret'] > len(ps):
                continue
            ok = [0, 0] + [q + 1 for q, (w, i) in enumerate(ps) if (cats[i] != 'clv' if w == 'a' else es[i]['k'] != 'empty')]
            j = rng.choice(ok)
            x = 0
            if j:
                w, i = ps[j - 1]
                x = rng.randint(0, 1) if w == 'a' else rng.randrange(es[i]['n'])
            s.append([n, o, cats, j, x])
        elif n == 'vars':
            s.append([n])
    s.append(['vars'])
    return s


def words(s):
    """The order of the words the harness reads."""
    out = []
    for op in s:
        if op[0] == 'call':
            out.append(['call', op[1], op[3], op[4], *op[2]])
        elif op[0] == 'ccall':
            out.append(['ccall', op[1], *op[2]])
        else:
            out.append(op)
    return out


def replay(work, cov, name, cfg, exe, scripts):
    obs = rp.perform(work, name, exe, [words(s) for s in scripts])
    runs = [{'cfg': cfg, 'ev': [{'op': o, 'obs': b} for o, b in zip(s, ob)]} for s, ob in zip(scripts, obs)]
    rp.judge(work, cov, 'Bind', name, runs, {'program': exe + '.cpp', 'scripts': work.path(f'{name}.scripts')})


def check(what, uncap=False):
    def run(work, tier, cov):
        quick = tier == 'quick'
        rng = random.Random(seed())
        jobs = []

        def small(k, p, n):
            name = f'bind-small{k}'
            cfg = config(p, what, objs=2, banks=2 if p['tuple'] == 'ref' else 1, maxn=1)
            sc = rp.scripts(work, cov, 'Bind', name, cfg, n if quick else n + 1)
            sub = random.Random(seed() * 1000 + k)
            cap = 600 if quick else 20000
            if len(sc) > cap:
                sc = sub.sample(sc, cap)
            sc += [draw(sub, cfg, 80) for _ in range(10 if quick else 100)]
            exe = compile_cxx(work, name, program(p))
            replay(work, cov, name, cfg, exe, sc)

        def large(k, p):
            name = f'bind-large{k}'
            cfg = config(p, what, objs=4, banks=2)
            sub = random.Random(seed() * 77 + k)
            exe = compile_cxx(work, name, program(p))
            replay(work, cov, name, cfg, exe, [draw(sub, cfg, 60) for _ in range(40 if quick else 500)])

        sm = UNCAP_SMALL if uncap else SMALL + (RETS if what == 'state' else [])
        lg = UNCAP_LARGE if uncap else LARGE
        for k, (p, n) in enumerate(sm):
            jobs.append(lambda k=k, p=fix(dict(p)), n=n: small(k, p, n))
        more = [(random_uncap if uncap else random_prog)(rng) for _ in range(6 if quick else 150)]
        for k, p in enumerate(lg + more):
            jobs.append(lambda k=k, p=fix(dict(p)): large(k, p))
        parallel(jobs)
        cov.notes.append(f'{len(sm)} small bindings covered, {len(lg) + len(more)} larger ones sampled')
    return run


CHECKS = {'B12': check('order'), 'B13': check('state'), 'U21': check('all', uncap=True)}
