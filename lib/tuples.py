"""Compressed tuples: T10 (elements), T11 (storage)."""
import random

from pv import *
import replay as rp
from cxxtypes import OWN, EMPTY

# an element: 'int', 'const int', 'int &', 'const int &', 'e1'


def element(e):
    base = e.replace('const ', '').replace(' &', '')
    if base in EMPTY:
        t, id_, nd = EMPTY[base]
        return t, {'k': 'empty', 'mo': False, 'nd': bool(nd), 'id': id_, 'n': 1}
    t, n, mo, nd = OWN[base]
    if e.endswith(' &'):
        k = 'cref' if e.startswith('const') else 'ref'
    else:
        k = 'const' if e.startswith('const') else 'own'
    cxx = f'std::type_identity_t<{t}>' if '(' in t else t
    if k in ('const', 'cref'):
        cxx = 'std::add_const_t<' + t + '>'
    if k in ('ref', 'cref'):
        cxx = cxx + ' &'
    return cxx, {'k': k, 'mo': bool(mo), 'nd': bool(nd), 'id': 0, 'n': n}


def config(elems, objs, banks, nvals=3):
    es = [dict(element(e)[1]) for e in elems]
    for e in es:
        e['n'] = min(e['n'], nvals)
    return {'elems': es, 'objs': objs, 'banks': banks}


def program(elems):
    ts = ', '.join(element(e)[0] for e in elems)
    return f'''#include "tuple_rt.h"
int main(int, char **argv) {{ return rt::run_scripts<rt::TupleRun<{ts}>>(argv[1]); }}
'''


class Model:
    """Just enough of Tuple.tla to draw enabled operations (TLC rejects scripts
    with operations that are not enabled, so this is not trusted)."""

    def __init__(self, cfg):
        self.c = cfg
        es = cfg['elems']
        own = [e for e in es if e['k'] in ('own', 'const')]
        self.copyable = not any(e['mo'] for e in own)
        self.movable = not any(e['mo'] and e['k'] == 'const' for e in es)
        self.assignable = all(e['k'] in ('own', 'ref', 'empty') and not (e['k'] == 'ref' and e['mo']) for e in es)
        self.deducible = all(e['k'] in ('own', 'empty') for e in es)
        self.defaultable = self.deducible and not any(e['nd'] for e in es)
        self.refs = any(e['k'] in ('ref', 'cref') for e in es)

    def script(self, rng, length):
        es = self.c['elems']
        alive = set()
        s = []
        nonempty = [i + 1 for i, e in enumerate(es) if e['k'] != 'empty']
        makes = (['lv', 'clv'] if self.copyable else []) + ['rv']
        while len(s) < length:
            o, p = rng.randint(1, self.c['objs']), rng.randint(1, self.c['objs'])
            b = rng.randint(1, 2)
            n = rng.choice(['var', 'var', 'make', 'deduce', 'default', 'copy', 'copyn', 'move', 'assign', 'massign', 'swap',
                            'drop', 'get', 'get', 'get', 'put', 'put', 'take', 'all', 'all'])
            if n == 'var' and nonempty:
                i = rng.choice(nonempty)
                s.append([n, b, i, rng.randrange(es[i - 1]['n'])])
            elif n == 'make' or n == 'deduce' and self.deducible:
                s.append([n, o, b, rng.choice(makes)])
                alive.add(o)
            elif n == 'default' and self.defaultable:
                s.append([n, o])
                alive.add(o)
            elif n in ('copy', 'copyn', 'move') and p in alive and o != p and (self.movable if n == 'move' else self.copyable):
                s.append([n, o, p])
                alive.add(o)
            elif n in ('assign', 'massign', 'swap') and {o, p} <= alive and o != p and self.assignable and \
                    (n != 'assign' or self.copyable) and (n != 'swap' or not self.refs):
                s.append([n, o, p])
            elif o in alive and n == 'drop':
                s.append([n, o])
                alive.discard(o)
            elif o in alive and n == 'all':
                s.append([n, o])
            elif o in alive and es and n in ('get', 'put', 'take'):
                i = rng.randint(1, len(es))
                k = es[i - 1]['k']
                if n == 'get':
                    s.append([n, o, i, rng.choice(['lv', 'clv', 'rv', 'crv'])])
                elif n == 'put' and k in ('own', 'ref'):
                    s.append([n, o, i, rng.randrange(es[i - 1]['n'])])
                elif n == 'take' and k == 'own':
                    s.append([n, o, i])
        # look at everything in the end
        for o in sorted(alive):
            s.append(['all', o])
        s.append(['vars'])
        return s


SMALL = [  # (elements, objects, banks, script length) whose state graphs are covered
    ([], 2, 1, 4), (['int'], 2, 1, 6), (['spy'], 2, 1, 6), (['int &'], 2, 2, 5), (['const str &'], 2, 2, 5), (['const int'], 2, 1, 5),
    (['uptr'], 2, 1, 6), (['e1'], 2, 1, 4), (['greedy'], 2, 1, 5), (['int', 'int'], 2, 1, 5), (['e1', 'str'], 2, 1, 5),
    (['str', 'e1'], 2, 1, 5), (['spy &', 'spy'], 2, 2, 4), (['e1', 'e1'], 2, 1, 4), (['int', 'e1', 'int'], 2, 1, 4),
    (['tup1'], 2, 1, 5), (['uptr', 'spy'], 2, 1, 5),
]

LARGE = [
    ['int', 'str &', 'const double', 'e1', 'e1', 'uptr', 'spy', 'e42', 'e5', 'greedy', 'const spy &'],
    ['char', 'int', 'bool', 'double', 'short', 'ull', 'float', 'enum'],
    ['spy'] * 9, ['e1', 'e2', 'e3', 'e4', 'e42', 'e1'], ['e6', 'int', 'e6', 'e1'], ['str', 'str', 'str', 'vec', 'vec', 'sptr', 'func'],
    ['tup1', 'tup2', 'tuptup', 'pair', 'opt', 'arr'], ['wide', 'char', 'wide', 'e1', 'final', 'virt', 'derived', 'base'],
    ['int &'] * 5, ['int', 'int &', 'const int &', 'const int', 'int'], ['uptr', 'e3', 'uptr', 'uptr &', 'e3'],
    ['int'] * 12, ['e1', 'fun', 'e1', 'fptr', 'e3', 'ptr', 'nodef', 'agg'],
    ['tiny', 'e1', 'tri', 'pod', 'union', 'aligned'], ['tiny', 'tiny &', 'const pod &', 'tiny'],
    ['e1', 'e1', 'e1', 'e1', 'int', 'e1'], ['const int', 'const str', 'const spy'],
]


def random_elems(rng):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4, 5, 7, 10])):
        if rng.random() < 0.3:
            out.append(rng.choice(list(EMPTY)))
        else:
            t = rng.choice(list(OWN)) if not out or rng.random() < 0.7 else rng.choice(out).replace('const ', '').replace(' &', '')
            if t in EMPTY:
                out.append(t)
                continue
            form = rng.choice(['{}', '{}', '{}', '{} &', 'const {} &', 'const {}'])
            if OWN[t][2] and form == 'const {}':
                form = '{}'
            out.append(form.format(t))
    return out


def t10(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    jobs = []

    def small(k, elems, objs, banks, n):
        name = f'tuple-small{k}'
        cfg = config(elems, objs, banks, 2 if banks == 2 or len(elems) > 1 else 3)
        sc = rp.scripts(work, cov, 'Tuple', name, cfg, n if quick else n + 1)
        cap = 1500 if quick else 20000
        sub = random.Random(seed() * 1000 + k)
        if len(sc) > cap:
            sc = sub.sample(sc, cap)
        m = Model(dict(cfg, banks=2))
        sc += [m.script(sub, 60) for _ in range(10 if quick else 200)]
        exe = compile_cxx(work, name, program(elems))
        rp.replay(work, cov, 'Tuple', name, cfg, exe, sc)

    def large(k, elems, runs, length):
        name = f'tuple-large{k}'
        cfg = config(elems, 4, 2)
        sub = random.Random(seed() * 77 + k)
        m = Model(cfg)
        exe = compile_cxx(work, name, program(elems))
        rp.replay(work, cov, 'Tuple', name, cfg, exe, [m.script(sub, length) for _ in range(runs)])

    for k, (e, o, b, n) in enumerate(SMALL):
        jobs.append(lambda k=k, e=e, o=o, b=b, n=n: small(k, e, o, b, n))
    more = [random_elems(rng) for _ in range(6 if quick else 120)]
    for k, e in enumerate(LARGE + more):
        jobs.append(lambda k=k, e=e: large(k, e, 60 if quick else 600, 60))
    parallel(jobs)
    cov.notes.append(f'{len(SMALL)} small tuples covered, {len(LARGE) + len(more)} large ones sampled')
CHECKS = {'T10': t10}
