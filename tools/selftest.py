#!/usr/bin/env python3
"""Can the machinery fail?

selftest.py model      the model checking: obligations taken out of Lazy.tla, and repairs taken out
                       of LazyImpl.tla must be noticed; calls end
selftest.py traces     trace validation: recorded runs of real lazies, with an event changed, must be rejected
selftest.py PROP...    the judge of a component: recorded runs with something changed in an observation
                       must be rejected (reports which changes were accepted)
"""
import collections
import copy
import json
import os
import random
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), V]
import pv
import replay
import lazycheck as lc
import lazyprog as lp

MC = {'Graph': '@G_chain', 'Vars': '{1, 2}', 'Vals': '{0, 1}', 'MaxObjs': 2, 'MaxNest': 0, 'StMax': 0, 'Throws': 'TRUE'}
PROPS = ['FreshResult', 'Minimal', 'CutOff', 'PolledAll', 'OnlyInCalls', 'Isolated']


def model():
    work = pv.Work('selftest-model')
    bad = 0

    def run(what, module, spec, consts, inv, prop, fails):
        nonlocal bad
        cfg = work.write(what.replace(' ', '-') + '.cfg', pv.cfg_text(spec, consts, inv, prop))
        _, out = pv.tlc(work, module, cfg, workers=4, heap='6g', timeout=1500, name=what)
        hit = [l for l in out.splitlines() if 'is violated' in l or 'was violated' in l or 'were violated' in l]
        ok = bool(hit) if fails else pv.tlc_ok(out)
        bad += not ok
        print(('ok   ' if ok else 'WRONG'), what, hit[:1] or ('no error' if pv.tlc_ok(out) else out[-300:]), flush=True)

    for drop in ['MUST', 'MAY', 'CMP']:
        # the other obligations are about arguments and results, which the model chooses right by itself
        cs = ', '.join(f'"{c}"' for c in lc.ALL_CHECKS if c != drop)
        run('without ' + drop, 'LazyMC', 'MCSpec', dict(MC, MaxObjs=1 if drop != 'MAY' else 2, Checks='{' + cs + '}'),
            ['TypeOK', 'OnceEach'] + (['ComparedOnce'] if drop != 'CMP' else []), PROPS, drop != 'CMP')
    cs = '{' + ', '.join(f'"{c}"' for c in lc.ALL_CHECKS) + '}'
    run('calls end', 'LazyMC', 'LiveSpec', dict(MC, MaxObjs=1, Throws='FALSE', Graph='@G_one', Vals='{0, 1}', Checks=cs), [], ['Terminates'], False)
    for off in [None, 'ResetOnException', 'CompareResult', 'KeepState']:
        c = dict(MC, Checks='{}', **{k: 'FALSE' if k == off else 'TRUE' for k in ['ResetOnException', 'CompareResult', 'KeepState']})
        if off == 'CompareResult':  # matters only where different arguments can give the same result
            c.update(Graph='@G_chain3', Throws='FALSE', MaxObjs=3)
        run(f'algorithm without {off}', 'LazyImpl', 'ISpec', c, ['TypeOK', 'Refines', 'OnceEach'], PROPS, off is not None)
    return bad


def variants(rng, run):
    """A recorded run with one event changed: (what, run)."""
    i = rng.randrange(len(run))
    r = copy.deepcopy(run)
    e = r[i]
    k = e['e']
    if k == 'poll':
        w = rng.choice(['drop', 'dup', 'x'])
    elif k == 'eval':
        w = rng.choice(['drop', 'dup', 'a', 'r'])
    elif k == 'cmp':
        w = 'dup'
    elif k == 'ret':
        w = 'x'
    else:
        return None
    if w == 'drop':
        del r[i]
    elif w == 'dup':
        r.insert(i, copy.deepcopy(e))
    elif w == 'a':
        if not e['a']:
            return None
        e['a'][rng.randrange(len(e['a']))] += 1
    else:
        if not isinstance(e[w], int) or e[w] < 0:
            return None
        e[w] += 1
    return f'{k}.{w}', r


def traces():
    work = pv.Work('selftest-traces')
    rng = random.Random(1)
    bad = 0
    for p in [q for q in lp.ZOO + lp.VOIDS if q['name'] in ('two', 'chain', 'diamond', 'tuples', 'void2')]:
        p = lp.retyped(p, 'spy')
        exe = pv.compile_cxx(work, p['name'], lp.program(p['name'], p['nodes'], p['nvars']))
        sc = [lp.random_script(rng, p, 3, 25, ['top', 'mid', 'copy'], maxobjs=6) for _ in range(30)]
        runs = lc.run_program(work, p['name'], exe, sc)
        muts = [m for m in (variants(rng, rng.choice(runs)) for _ in range(400)) if m]
        rej, _ = lc.validate(work, p['name'], p['nodes'], p['nvars'], lc.ALL_CHECKS, [m[1] for m in muts])
        n, acc = collections.Counter(m[0] for m in muts), collections.Counter()
        for i in set(range(len(muts))) - set(rej):
            acc[muts[i][0]] += 1
        bad += sum(acc.values())
        print(p['name'], 'changed runs:', dict(n), 'accepted:', dict(acc), flush=True)
    return bad


def leaves(o, path=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from leaves(v, path + (k,))
    elif isinstance(o, list):
        for k, v in enumerate(o):
            yield from leaves(v, path + (k,))
    else:
        yield path, o


def changed(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + 1
    if isinstance(x, float):
        return x + 1
    return {'lv': 'rv', 'rv': 'lv'}.get(x, str(x) + '!')


def components(props):
    import check
    total = 0
    for prop in props:
        n, acc, ex = collections.Counter(), collections.Counter(), {}
        orig = replay.judge
        rng = random.Random(1)

        def judge(work, cov, module, name, runs, *a, **k):
            orig(work, cov, module, name, runs, *a, **k)
            muts = []
            for _ in range(60):
                r = copy.deepcopy(rng.choice(runs))
                if not r['ev']:
                    continue
                e = rng.choice(r['ev'])
                ls = list(leaves(e['obs']))
                if not ls:
                    continue
                path, x = rng.choice(ls)
                e = next(f for f in r['ev'] if f is e)
                o = e
                key = 'obs'
                for q in path:
                    o, key = o[key], q
                o[key] = changed(x)
                op = e['op'][0] if isinstance(e['op'], list) and e['op'] else e['op'] if isinstance(e['op'], str) else 'case'
                muts.append((f'{op}:{".".join("*" if isinstance(q, int) else q for q in path)}', r, x))
            if not muts:
                return
            tf = work.write(f'{name}.mut.json', json.dumps([m[1] for m in muts]))
            c = work.write(f'{name}.mut.cfg', replay.REPLAY_CFG)
            _, out = pv.tlc(work, module + 'Replay', c, env={'TRACE_FILE': tf}, name='mut-' + name, timeout=800, heap='4g')
            import re
            ok = {int(x) - 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
            if not pv.tlc_ok(out) and not ok:
                print('   judge fails on a changed run:', module, name, out[-400:].replace('\n', ' '))
            for i, m in enumerate(muts):
                n[m[0]] += 1
                if i in ok:
                    acc[m[0]] += 1
                    ex[m[0]] = (name, m[2])

        mods = [m for m in sys.modules.values() if getattr(m, 'judge', None) is orig]
        for m in mods:
            m.judge = judge
        try:
            fn = check.registry()[prop]
            for m in [m for m in sys.modules.values() if getattr(m, 'judge', None) is orig]:
                m.judge = judge
                mods.append(m)
            fn(pv.Work('selftest-' + prop), 'quick', pv.Cover())
        finally:
            for m in mods:
                m.judge = orig
        print(prop, sum(n.values()), 'changed runs,', sum(acc.values()), 'accepted')
        for k, v in acc.most_common(40):
            print('    ', k, f'{v} of {n[k]}', ex[k])
        total += sum(acc.values())
    return total


if __name__ == '__main__':
    a = sys.argv[1:] or ['model', 'traces']
    rc = 0
    if 'model' in a:
        rc |= bool(model())
    if 'traces' in a:
        rc |= bool(traces())
    comps = [x for x in a if x not in ('model', 'traces')]
    if comps:
        components(comps)
    sys.exit(rc)
