"""Component specifications (Start/Ops/Ok/After): scripts and cases from TLC,
judgement of recorded runs by TLC (spec/Replay.tla, spec/Scripts.tla)."""
import json
import re
import threading

from pv import *

REPLAY_CFG = 'SPECIFICATION RSpec\nCHECK_DEADLOCK FALSE\n'


def unquote(m):
    return json.loads(json.loads('"' + m + '"'))


def maximal(scripts):
    keys = sorted({json.dumps(s)[:-1] for s in scripts})
    out = []
    for i, k in enumerate(keys):
        if i + 1 < len(keys) and keys[i + 1].startswith(k + ','):
            continue
        out.append(json.loads(k + ']'))
    return out


def scripts(work, cov, module, name, cfg, maxlen, props=('Sound',), timeout=800, workers=1):
    """A script for every transition of the component's state graph (within
    maxlen operations); the properties are checked on that graph."""
    gf = work.write(f'{name}.gen.json', json.dumps({'cfg': cfg, 'maxlen': maxlen}))
    c = work.write(f'{name}.gen.cfg', 'SPECIFICATION GSpec\nVIEW GView\nCHECK_DEADLOCK FALSE\n'
                   + (f'PROPERTIES {" ".join(props)}\n' if props else ''))
    rc, out = tlc(work, module + 'Scripts', c, env={'GEN_FILE': gf}, name='gen-' + name, timeout=timeout, workers=workers)
    if not tlc_ok(out):
        raise ToolError(f'script generation failed for {name}:\n{out[-2500:]}')
    sc = [unquote(m) for m in re.findall(r'<<"SCRIPT", "(.*)">>', out)]
    if not sc:
        raise ToolError(f'no scripts for {name}:\n{out[-2000:]}')
    cov.model(tlc_stats(out))
    return maximal(sc)


def cases(work, cov, module, params, name='', props=()):
    """The cases (JSON values) a component specification enumerates: printed by
    TLC, one state each."""
    gf = work.write(f'{module}{name}.cases.json', json.dumps(params))
    c = work.write(f'{module}{name}.cases.cfg', 'SPECIFICATION CSpec\nCHECK_DEADLOCK FALSE\n'
                   + (f'INVARIANTS {" ".join(props)}\n' if props else ''))
    rc, out = tlc(work, module + 'Cases', c, env={'GEN_FILE': gf}, name='cases-' + module + name, timeout=800)
    if not tlc_ok(out):
        raise ToolError(f'case generation failed for {module}:\n{out[-2500:]}')
    cov.model(tlc_stats(out))
    return [unquote(m) for m in re.findall(r'<<"CASE", "(.*)">>', out)]


def judge(work, cov, module, name, runs, files=None, timeout=800):
    """runs: [{'cfg':..., 'ev': [{'op':..., 'obs':...}]}]. Raises Violation for
    the first run the specification does not allow."""
    tf = work.write(f'{name}.trace.json', json.dumps(runs))
    c = work.write(f'{name}.replay.cfg', REPLAY_CFG)
    rc, out = tlc(work, module + 'Replay', c, env={'TRACE_FILE': tf}, name='judge-' + name, timeout=timeout, heap='4g')
    if not tlc_ok(out) or '"BADOP"' in out:
        raise ToolError(f'judging failed to run for {name}:\n{out[-3000:]}')
    acc = {int(x) for x in re.findall(r'<<"ACCEPT", (\d+)>>', out)}
    bad = [i for i in range(len(runs)) if i + 1 not in acc]
    if bad:
        m = re.search(r'<<"REJECT", (\d+), (\d+), "(.*)">>', out)
        if not m:
            raise ToolError(f'{name}: runs neither accepted nor rejected:\n{out[-3000:]}')
        r, p, want = int(m[1]) - 1, int(m[2]) - 1, unquote(m[3])
        run = runs[r]
        rej = work.write(f'{name}.rejected.json', json.dumps(run, indent=1))
        raise Violation(
            f'{name}: {len(bad)} of {len(runs)} runs are not allowed by {module}.tla\n'
            f'configuration: {json.dumps(run["cfg"])}\noperations: {json.dumps([e["op"] for e in run["ev"][:p + 1]])}\n'
            f'expected of the last one: {json.dumps(want)}\nobserved: {json.dumps(run["ev"][p]["obs"])}',
            dict(files or {}, run=rej))
    cov.model(tlc_stats(out))
    cov.validated += len(runs)
    cov.events += sum(len(r['ev']) for r in runs)
    if len(cov.samples) < 4 and runs:
        cov.samples.append({'program': name, 'cfg': runs[0]['cfg'], 'events': runs[0]['ev'][:8]})


def script_lines(scripts):
    return ''.join(';'.join(' '.join(map(str, op)) for op in s) + '\n' for s in scripts)


def perform(work, name, exe, scripts):
    """Run scripts on a program that understands them."""
    sf = work.write(f'{name}.scripts', script_lines(scripts))
    rc, out, err = run_exe(exe, [sf])
    lines = out.splitlines()
    if rc != 0:
        bad = len(lines)
        what = 'does not terminate' if rc is None else f'crashes (status {rc}): {err[-500:]}'
        raise Violation(f'program {name} {what} in script {scripts[bad] if bad < len(scripts) else "?"}',
                        {'program': exe + '.cpp', 'scripts': sf})
    if len(lines) != len(scripts):
        raise ToolError(f'{name}: {len(lines)} runs recorded for {len(scripts)} scripts')
    return [json.loads(l) for l in lines]


def replay(work, cov, module, name, cfg, exe, scripts):
    obs = perform(work, name, exe, scripts)
    runs = [{'cfg': cfg, 'ev': [{'op': o, 'obs': b} for o, b in zip(s, os_)]} for s, os_ in zip(scripts, obs)]
    for s, os_ in zip(scripts, obs):
        if len(s) != len(os_):
            raise ToolError(f'{name}: {len(os_)} observations for {len(s)} operations')
    judge(work, cov, module, name, runs, {'program': exe + '.cpp', 'scripts': work.path(f'{name}.scripts')})
