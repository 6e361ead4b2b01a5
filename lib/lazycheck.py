"""Checks of pigro::lazy: scripts from the specification are run on real
programs, and what the programs did is validated against the specification."""
import json
import os
import random
import re

from pv import *
import lazyprog as lp


def gen_scripts(work, name, nodes, nvars, nvals, ops, maxlen, maxobjs, simulate=None, printlen=0):
    """Scripts from LazyGen.tla: one per transition of the state graph, or (with
    simulate = number of behaviours) random long ones."""
    gf = work.write(f'{name}.gen.json', json.dumps({
        'graph': lp.graph(nodes), 'nvars': nvars, 'nvals': nvals, 'maxobjs': maxobjs,
        'ops': ops, 'maxlen': maxlen, 'printlen': printlen}))
    extra = []
    if simulate:
        extra = ['-simulate', f'num={simulate}', '-depth', str(printlen * 40), '-seed', str(seed())]
    rc, out = tlc(work, 'LazyGen', 'LazyGen.cfg', env={'GEN_FILE': gf}, extra=extra, name='gen-' + name)
    if not simulate and not tlc_ok(out) or 'Error:' in out:
        raise ToolError(f'script generation failed for {name}:\n{out[-2000:]}')
    scripts = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"SCRIPT", "(.*)">>', out)]
    if not scripts:
        raise ToolError(f'no scripts for {name}:\n{out[-2000:]}')
    return maximal(scripts), tlc_stats(out)


def maximal(scripts):
    """Drop scripts that are prefixes of others."""
    keys = sorted({json.dumps(s)[:-1] for s in scripts})
    out = []
    for i, k in enumerate(keys):
        if i + 1 < len(keys) and keys[i + 1].startswith(k + ','):
            continue
        out.append(json.loads(k + ']'))
    return out


def top_objects(nodes, script):
    """Objects (1-based numbers) that a script has created."""
    return sum(1 for op in script if op[0] in ('make', 'copy', 'move'))


def run_program(work, name, exe, scripts, chunk=0):
    """Run the scripts; one list of events per script."""
    sf = work.write(f'{name}.{chunk}.scripts', ''.join(lp.script_text(s) for s in scripts))
    rc, out, err = run_exe(exe, [sf])
    lines = out.splitlines()
    if rc != 0:
        bad = len(lines)
        detail = 'does not terminate' if rc is None else f'crashes (status {rc}) {err[-500:]}'
        sp = work.write(f'{name}.crash.script', lp.script_text(scripts[bad]) if bad < len(scripts) else '')
        raise Violation(f'program {name} {detail} in script {scripts[bad] if bad < len(scripts) else "?"}',
                        {'program': exe + '.cpp', 'script': sp})
    if len(lines) != len(scripts):
        raise ToolError(f'{name}: {len(lines)} runs recorded for {len(scripts)} scripts')
    return [json.loads(l) for l in lines]


def validate(work, name, nodes, nvars, checks, runs, workers=1, timeout=800):
    """TLC accepts or rejects each run. Returns the indices of rejected ones."""
    tf = work.write(f'{name}.trace.json', json.dumps({
        'graph': lp.graph(nodes), 'nvars': nvars, 'checks': sorted(checks),
        'runs': [{'init': [0] * nvars, 'ev': r} for r in runs]}))
    rc, out = tlc(work, 'LazyTrace', 'LazyTrace.cfg', env={'TRACE_FILE': tf}, workers=workers, name='val-' + name, timeout=timeout)
    if not tlc_ok(out):
        raise ToolError(f'trace validation failed to run for {name}:\n{out[-3000:]}')
    acc = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
    return [i for i in range(len(runs)) if i + 1 not in acc], tlc_stats(out)


def explain(work, name, nodes, nvars, checks, run):
    """How far a rejected run can be explained."""
    tf = work.write(f'{name}.rejected.json', json.dumps({
        'graph': lp.graph(nodes), 'nvars': nvars, 'checks': sorted(checks),
        'runs': [{'init': [0] * nvars, 'ev': run}]}))
    with open(os.path.join(SPEC, 'LazyTrace.cfg')) as f:
        cfg = work.write('explain.cfg', f.read() + 'INVARIANT Progressed\n')
    rc, out = tlc(work, 'LazyTrace', cfg, env={'TRACE_FILE': tf}, name='explain-' + name)
    ats = [int(x) for x in re.findall(r'<<"AT", 1, (\d+)>>', out)]
    return (max(ats) if ats else 0), tf


def check_program(work, cov, prog, checks, script_sets, flags=(), together=False):
    """prog: dict name, nodes, nvars. script_sets: list of callables -> scripts."""
    name, nodes, nvars = prog['name'], prog['nodes'], prog['nvars']
    exe = compile_cxx(work, name, lp.program(name, nodes, nvars), flags)
    scripts = []
    for s in script_sets:
        scripts += s
    runs = run_program(work, name, exe, scripts)
    limit = 240 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 3600
    try:
        bad, st = validate(work, name, nodes, nvars, checks, runs, timeout=limit)
    except TimedOut:
        # too many explanations: the covering scripts only
        cov.notes.append(f'{name}: long histories left out')
        scripts, runs = [scripts[i] for i in range(len(runs)) if len(runs[i]) < 60], [r for r in runs if len(r) < 60]
        bad, st = validate(work, name, nodes, nvars, checks, runs, timeout=limit)
    if bad:
        i = bad[0]
        # once more, from scratch: is it really so?
        again = run_program(work, name, exe, scripts if together else [scripts[i]], chunk='again')
        if together:
            again = again[i:i + 1]
        bad2, _ = validate(work, name + '-again', nodes, nvars, checks, again)
        if not bad2:
            raise ToolError(f'{name}: run {i} rejected, then accepted: {scripts[i]}')
        at, tf = explain(work, name, nodes, nvars, checks, again[0])
        evs = again[0]
        raise Violation(
            f'program {name}: {len(bad)} of {len(runs)} runs are not allowed by Lazy.tla ({", ".join(sorted(checks))})\n'
            f'script: {scripts[i]}\nevents explained: {at - 1} of {len(evs)}; first inexplicable event: '
            f'{evs[at - 1] if at <= len(evs) else "end of run"}\nall events: {evs[:200]}',
            {'program': exe + '.cpp', 'trace': tf,
             'script': work.write(f'{name}.bad.script', ''.join(lp.script_text(s) for s in (scripts if together else scripts[i:i + 1])))})
    cov.model(st)
    cov.validated += len(runs)
    n = sum(len(r) for r in runs)
    cov.events += n
    if len(cov.samples) < 4:
        cov.samples.append({'program': name, 'script': scripts[0][:40], 'events': runs[0][:40]})
    return len(runs), n


# ----------------------------------------------------------------- the checks

ALL_CHECKS = ['MAY', 'MUST', 'ARGS', 'RES', 'CMP', 'STATE']
MC_PROPS = ['FreshResult', 'Minimal', 'CutOff', 'PolledAll', 'OnlyInCalls', 'Isolated', 'OwnState']


def model_check(work, cov, graph, maxobjs, throws, invariants, properties, impl=True, workers=4, nvals=2, timeout=800, stmax=0, nest=0):
    """The specification has the property, and the algorithm of lazy.h refines it."""
    consts = {'Graph': '@' + graph, 'Vars': '{1, 2}', 'Vals': '{' + ', '.join(map(str, range(nvals))) + '}',
              'MaxObjs': maxobjs, 'MaxNest': nest, 'StMax': stmax, 'Throws': 'TRUE' if throws else 'FALSE'}
    c1 = dict(consts, Checks='{' + ', '.join(f'"{c}"' for c in ALL_CHECKS) + '}')
    cfg = work.write(f'mc-{graph}-{maxobjs}-{throws}-{nest}.cfg', cfg_text('MCSpec', c1, ['TypeOK', *invariants], properties))
    st, _ = tlc_clean(work, 'LazyMC', cfg, workers=workers, timeout=timeout, heap='8g')
    cov.model(st)
    if impl:
        c2 = dict(consts, Checks='{}', ResetOnException='TRUE', CompareResult='TRUE', KeepState='TRUE')
        cfg = work.write(f'im-{graph}-{maxobjs}-{throws}-{nest}.cfg',
                         cfg_text('ISpec', c2, ['TypeOK', 'Refines', *[i for i in invariants if i != 'ComparedOnce']],
                                  [p for p in properties if p != 'OwnState']))
        st, _ = tlc_clean(work, 'LazyImpl', cfg, workers=workers, timeout=timeout, heap='8g')
        cov.model(st)


class LazyCheck:
    def __init__(self, checks, programs, cover_ops, random_ops, invariants=(), properties=(), mc=(), mc_thorough=(),
                 maxobjs=None, rand_progs=None, small_ops=None, big=False, parallel=()):
        self.checks = set(checks)
        self.programs = programs            # () -> list
        self.cover_ops = cover_ops
        self.small_ops = small_ops          # additional cover ops for small programs
        self.random_ops = random_ops
        self.invariants = list(invariants)
        self.properties = list(properties)
        self.mc = mc
        self.mc_thorough = mc_thorough
        self.extraobjs = maxobjs or 0       # objects beyond one per node
        self.rand_progs = rand_progs        # (rng, name) -> program
        self.big = big
        self.parallel = parallel            # programs of which several scripts are also run at the same time

    def __call__(self, work, tier, cov):
        quick = tier == 'quick'
        rng = random.Random(seed())
        progs = list(self.programs(rng))
        if self.rand_progs:
            for j in range(4 if quick else 60):
                progs.append(self.rand_progs(rng, f'random{j}'))
        jobs = []
        for p in progs:
            sub = random.Random(rng.random())
            jobs.append(lambda p=p, sub=sub: self.one(work, tier, cov, p, sub))
        mcs = list(self.mc) if quick else list(self.mc) + list(self.mc_thorough)
        for g, mo, thr, *nest in mcs:
            jobs.insert(0, lambda g=g, mo=mo, thr=thr, nest=sum(nest): model_check(
                work, cov, g, mo, thr, self.invariants, self.properties, workers=4 if quick else 8, timeout=800 if quick else 6000, nest=nest))
        parallel(jobs)
        cov.notes.append(f'{len(progs)} programs')

    def one(self, work, tier, cov, p, rng):
        quick = tier == 'quick'
        size = sum(len(n['deps']) for n in p['nodes'])
        nn = len(p['nodes'])
        nvals = 3 if p['nvars'] < 3 else 2
        sets = []
        cap = 250 if quick else 2500
        coverings = [(self.cover_ops, nn + self.extraobjs, nn + (6 if p['nvars'] < 3 else 5) + 2 * self.extraobjs)]
        if self.small_ops and size <= 4:
            for ops in self.small_ops if isinstance(self.small_ops[0], list) else [self.small_ops]:
                if 'nest' not in ops or nn <= 2:
                    coverings.append((ops, nn + self.extraobjs, nn + (4 if 'nest' in ops else 5)))
        for k, (ops, mo, ml) in enumerate(coverings):
            nv = nvals if not (self.extraobjs or k) else 2
            if 'remake' in ops or 'copy' in ops:
                nv, ml = 2, min(ml, nn + 6)
            if size > 9:
                continue  # too many states; random histories only
            if p['name'].startswith('random') and size > (3 if self.extraobjs and quick else 6):
                continue
            sc, st = gen_scripts(work, f'{p["name"]}{k}', p['nodes'], p['nvars'], nv, ops, ml, mo)
            cov.model(st)
            if len(sc) > cap:
                sc = rng.sample(sc, cap)
            sets.append(sc)
        nr, ln = (30, 60) if quick else (300, 150)
        if 'throw' in self.random_ops and ambiguous(p):
            # after an exception it is not known which of two equal dependencies was called: explanations multiply
            nr, ln = nr * 2, 20
        rnd = [lp.random_script(rng, p, nvals, ln, self.random_ops, maxobjs=10) for _ in range(nr)]
        if p['name'].split('_')[0] in ('one', 'chain', 'void1') or not quick:
            rnd.append(lp.random_script(rng, p, nvals, 1500 if quick else 6000, self.random_ops, maxobjs=10))
        sets.append(rnd)
        check_program(work, cov, p, self.checks, sets)
        if p['name'] in self.parallel or not quick and self.parallel:
            rnd = [lp.random_script(rng, p, nvals, 40, list(self.random_ops) if ambiguous(p) else list(self.random_ops) + ['throw'], maxobjs=8) for _ in range(60 if quick else 300)]
            check_program(work, cov, dict(p, name=p['name'] + '-par'), self.checks, [rnd], flags=('-DPARALLEL', '-pthread'), together=True)


def ambiguous(p):
    def leaves(i):
        return [i] + [x for d in p['nodes'][i - 1]['deps'] if d['k'] == 'lazy' for x in leaves(d['n'])]
    return any(len(set(ls)) < len(ls) for ls in (leaves(i + 1) for i in range(len(p['nodes']))))


def zoo(rng):
    return lp.ZOO


def by_name(*names):
    return [p for p in lp.ZOO + lp.VOIDS if p['name'] in names]


STATEFUL = ['st', 'heap', 'fat', 'ref', 'cst', 'mut', 'fn']

CHECKS = {
    'L01': LazyCheck(['ARGS', 'MUST', 'RES'], zoo, ['set', 'top'], ['top', 'mid', 'nest'], [], ['FreshResult'],
                     mc=[('G_chain', 1, False)], mc_thorough=[('G_chain', 2, True), ('G_two', 2, True), ('G_chain3', 3, False), ('G_diamond', 3, False)],
                     small_ops=['set', 'top', 'mid'], rand_progs=lambda r, n: lp.random_program(r, n)),
    'L02': LazyCheck(['MAY'], zoo, ['set', 'top'], ['top', 'mid', 'nest'], ['OnceEach'], ['Minimal', 'CutOff'],
                     mc=[('G_chain', 1, False), ('G_chain3', 3, False)], mc_thorough=[('G_two', 2, True), ('G_diamond', 3, False), ('G_chain', 2, True)],
                     small_ops=['set', 'top', 'mid'], rand_progs=lambda r, n: lp.random_program(r, n)),
    'L03': LazyCheck([], zoo, ['set', 'top'], ['copy', 'move', 'remake', 'drop', 'early', 'nest'], [], ['PolledAll', 'OnlyInCalls'],
                     mc=[('G_val', 2, False)], mc_thorough=[('G_chain', 2, True), ('G_two', 2, True)],
                     small_ops=['set', 'copy', 'remake'], rand_progs=lambda r, n: lp.random_program(r, n)),
    'L04': LazyCheck(['CMP'], lambda rng: [lp.retyped(p, 'spy') for p in lp.ZOO + by_name('void2', 'void4')],
                     ['set', 'top'], ['top', 'mid', 'copy', 'remake'], ['ComparedOnce'], [],
                     mc=[('G_chain', 1, False)], mc_thorough=[('G_chain', 2, True), ('G_two', 2, True)],
                     rand_progs=lambda r, n: lp.retyped(lp.random_program(r, n), 'spy', n)),
    'L05': LazyCheck(['ARGS', 'MUST', 'MAY', 'RES', 'STATE'],
                     lambda rng: by_name('none', 'one', 'two', 'vals', 'chain', 'tuples', 'right', 'same', 'fat', 'refs', 'void1', 'void2'),
                     ['set', 'copy'], ['copy', 'move', 'remake', 'drop', 'early', 'nest'], [], ['Isolated', 'OnlyInCalls'],
                     mc=[('G_one', 2, False), ('G_one', 2, True, 1)], mc_thorough=[('G_chain', 2, True), ('G_two', 2, False), ('G_chain', 3, True, 2)],
                     maxobjs=1, small_ops=[['set', 'remake'], ['set', 'nest', 'copy']], rand_progs=lambda r, n: lp.random_program(r, n),
                     parallel=('one', 'chain', 'tuples', 'right', 'refs', 'void2')),
    'L06': LazyCheck(['ARGS', 'MUST', 'RES'],
                     lambda rng: [lp.retyped(p, 'spy') for p in by_name('one', 'two', 'chain', 'tuples', 'diamond', 'deep', 'right')] +
                     by_name('none', 'vals', 'same', 'void1', 'void2'),
                     ['set', 'top', 'throw'], ['throw', 'top', 'mid', 'cmp', 'cpy', 'nest'], [], ['FreshResult'],
                     mc=[('G_chain', 1, True)], mc_thorough=[('G_chain', 2, True), ('G_two', 2, True)],
                     rand_progs=lambda r, n: lp.random_program(r, n)),
    'L07': LazyCheck(['ARGS', 'MUST', 'MAY', 'RES'], lambda rng: lp.VOIDS, ['set', 'top'], ['top', 'mid', 'copy', 'remake'], [],
                     ['FreshResult', 'Minimal'], mc=[('G_void', 1, False)], mc_thorough=[('G_void', 2, False)],
                     small_ops=['set', 'top', 'mid'], rand_progs=lambda r, n: lp.random_program(r, n, voids=True)),
    'L08': LazyCheck(['STATE'], lambda rng: [lp.rekinded(p, rng, STATEFUL) for p in lp.ZOO + by_name('void1', 'void2')],
                     ['set', 'top'], ['copy', 'move', 'remake', 'throw', 'early', 'nest'], [], ['OwnState'],
                     mc=[('G_chain', 1, True)], mc_thorough=[('G_chain', 2, True)],
                     small_ops=['set', 'throw'], rand_progs=lambda r, n: lp.random_program(r, n, kinds=STATEFUL)),
}
