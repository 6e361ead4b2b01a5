"""A16: transform and any."""
import random

from pv import *
import replay as rp
from cxxtypes import OWN

POOL = [t for t in OWN if t not in ('bool',)]
ARITH = ['int', 'long', 'double', 'float', 'char', 'short', 'ull']


def words(s):
    return [[*op[:-1], *op[-1]] for op in s]


def a16(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    cs = [c['vs'] for c in rp.cases(work, cov, 'Algorithms', {}, props=['Sane'])]
    by_len = {}
    for v in cs:
        by_len.setdefault(len(v), []).append(v)
    progs = [('tup', [])]
    for n in range(1, 9):
        for _ in range(3 if quick else 20):
            progs.append(('tup', [rng.choice(POOL) for _ in range(n)]))
        progs.append(('tup', [rng.choice(ARITH) for _ in range(n)]))
        progs.append(('tup', ['spy'] * n))
        progs.append(('ar', [rng.choice(['int', 'spy', 'str'])] * n))
    progs += [('pr', ['int', 'str']), ('pr', ['spy', 'double']), ('pr', ['long', 'char']), ('tup', ['tup1']), ('tup', ['pair']), ('tup', ['tuptup'])]

    def one(k, holder, ts):
        name = f'algorithms{k}'
        copyable = not any(OWN[t][2] for t in ts)
        arith = all(t in ARITH for t in ts)
        ops = []
        for v in by_len[len(ts)]:
            for p in ['number', 'ref'] + (['same', 'pair', 'unique', 'odd', 'tuple'] if copyable else []):
                ops.append(['transform', p, v])
            for th in (1, 2):
                for a in ('any', 'anynum', 'anyptr', 'anyexp'):
                    ops.append([a, th, v])
            if arith:
                ops.append(['anyid', v])
        types = ''.join(', ' + f'std::type_identity_t<{OWN[t][0]}>' for t in ts)
        exe = compile_cxx(work, name, f'#include "algorithms_rt.h"\nint main(int, char **argv) {{ return rt::run_scripts<rt::AlgorithmsRun<rt::{holder}{types}>>(argv[1]); }}\n')
        cfg = {'len': len(ts)}
        obs = rp.perform(work, name, exe, [words(ops)])
        rp.judge(work, cov, 'Algorithms', name, [{'cfg': cfg, 'ev': [{'op': o, 'obs': b} for o, b in zip(ops, obs[0])]}],
                 {'program': exe + '.cpp', 'scripts': work.path(f'{name}.scripts')})

    parallel([lambda k=k, h=h, ts=ts: one(k, h, ts) for k, (h, ts) in enumerate(progs)])
    cov.notes.append(f'{len(progs)} tuple types, {len(cs)} value vectors')


CHECKS = {'A16': a16}
