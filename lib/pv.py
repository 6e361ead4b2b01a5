"""Common machinery of the checks: building programs against /repo's headers,
running TLC, evidence, verdicts."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PIGRO_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
CXX = 'g++-13'
JOBS = 8
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    """The check could not be carried out (neither verdict)."""


class TimedOut(ToolError):
    pass


class Violation(Exception):
    def __init__(self, what, files=None):
        super().__init__(what)
        self.what = what
        self.files = files or {}


def seed():
    return int(os.environ.get('VERIF_SEED', '1'))


class Work:
    """Scratch folder of one check."""

    def __init__(self, prop):
        self.dir = os.path.join(VERIF, '.work', prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, *names):
        return os.path.join(self.dir, *names)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
        return p


def parallel(jobs, n=JOBS):
    """Run thunks, return their results in order; the first exception wins."""
    with cf.ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(j) for j in jobs]
        try:
            return [f.result() for f in futs]
        except BaseException:
            for f in futs:
                f.cancel()
            raise


# ----------------------------------------------------------------- compiling

PRELUDE = ['cstddef', 'functional', 'memory', 'type_traits', 'utility', 'concepts']


def compile_cxx(work, name, text, flags=(), timeout=400):
    """Compile a program that uses the headers of /repo.  Returns the path of
    the executable.  The programs compile on the unchanged tree, so one that
    does not compile any more is a violation: the library no longer offers what
    the property promises (or was it the machine? then try again)."""
    src = work.write(name + '.cpp', text)
    exe = work.path(name)
    pre = work.path('prelude.h')
    if not os.path.exists(pre):
        work.write('prelude.h', ''.join(f'#include <{h}>\n' for h in PRELUDE))
    cmd = [CXX, '-std=gnu++20', '-O0', '-w', '-fmax-errors=5', '-fno-diagnostics-color',
           '-include', pre, '-I', REPO + '/src', '-I', HARNESS, *flags, *os.environ.get('PIGRO_CXXFLAGS', '').split(), src, '-o', exe]
    err = ''
    for attempt in range(2):
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            err = 'timeout'
            continue
        if r.returncode == 0:
            return exe
        err = r.stderr
        if re.search(r'\berror:', err) and 'internal compiler error' not in err and 'out of memory' not in err:
            break
    if err == 'timeout' or 'internal compiler error' in err or not re.search(r'\berror:', err):
        raise ToolError(f'{name}: compiler failed: {err[-2000:]}')
    log = work.write(name + '.compile.log', ' '.join(cmd) + '\n' + err)
    msgs = [l[:400] for l in err.splitlines() if 'error:' in l][:3]
    raise Violation(f'program {name} no longer compiles: ' + ' | '.join(msgs), {'program': src, 'log': log})


def run_exe(exe, args=(), stdin=None, timeout=120, env=None):
    try:
        r = subprocess.run([exe, *args], input=stdin, capture_output=True, text=True,
                           timeout=timeout, errors='replace', env=env)
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or ''), 'timeout'
    return r.returncode, r.stdout, r.stderr


# ----------------------------------------------------------------- TLC

def tlc(work, module, cfg, env=None, workers=1, extra=(), timeout=800, heap='3g', name=None):
    """Run TLC; returns its output. Raises ToolError if TLC itself failed."""
    name = name or module
    md = work.path('tlc-' + re.sub(r'\W', '_', name) + '-' + hashlib.md5(repr((cfg, env, extra)).encode()).hexdigest()[:8])
    os.makedirs(md, exist_ok=True)                # TLC leaves directories in java.io.tmpdir
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Djava.io.tmpdir=' + md, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2' if workers == 1 else '-XX:ParallelGCThreads=8',
           '-Xmx' + heap, '-Xss64m', '-cp', TLA_JARS, 'tlc2.TLC', '-noGenerateSpecTE',
           '-workers', str(workers), '-metadir', md, '-config', os.path.join(SPEC, cfg) if not os.path.isabs(cfg) else cfg,
           *extra, os.path.join(SPEC, module + '.tla')]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=SPEC, errors='replace')
    except subprocess.TimeoutExpired:
        raise TimedOut(f'TLC timed out on {name}')
    finally:
        shutil.rmtree(md, ignore_errors=True)
        if os.environ.get('PV_TIMES'):
            print(f'TLC {name} {time.time() - t0:.1f}s', flush=True)
    return r.returncode, r.stdout + r.stderr


def tlc_stats(out):
    m = re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found', out)
    if m:
        return int(m[-1][1].replace(',', '')), int(m[-1][0].replace(',', ''))
    m = re.findall(r'states checked so far: (\d+)|The number of states generated: (\d+)', out)
    if m:
        n = int(''.join(m[-1]) or 0)
        return n, n
    return 0, 0


def tlc_ok(out):
    return 'Model checking completed. No error has been found.' in out


def tlc_clean(work, module, cfg, **kw):
    """TLC must find no error: used for the specification itself, so that
    anything else is a failure of the check, not of the code."""
    rc, out = tlc(work, module, cfg, **kw)
    if not tlc_ok(out):
        raise ToolError(f'TLC failed on {module} {cfg}:\n' + out[-3000:])
    return tlc_stats(out), out


def cfg_text(spec, constants, invariants=(), properties=(), view=None, extra=''):
    s = f'SPECIFICATION {spec}\nCONSTANTS\n'
    for k, v in constants.items():
        s += f'  {k} {"<-" if str(v).startswith("@") else "="} {str(v).lstrip("@")}\n'
    if invariants:
        s += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    if properties:
        s += 'PROPERTIES ' + ' '.join(properties) + '\n'
    if view:
        s += f'VIEW {view}\n'
    return s + extra + 'CHECK_DEADLOCK FALSE\n'


# ----------------------------------------------------------------- verdicts

class Cover:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.samples = []
        self.notes = []

    def model(self, st):
        self.states += st[0]
        self.transitions += st[1]


def main(prop, tier, fn):
    t0 = time.time()
    cov = Cover()
    work = Work(prop)
    violations = []
    rc = 0
    try:
        fn(work, tier, cov)
    except Violation as v:
        d = os.path.join(VERIF, 'out', prop)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for k, p in v.files.items():
            if os.path.exists(p):
                shutil.copy(p, os.path.join(d, k + '-' + os.path.basename(p)))
        rep = os.path.join(d, 'violation.txt')
        with open(rep, 'w') as f:
            f.write(f'property {prop}\n{v.what}\n\nfiles: {sorted(os.listdir(d))}\n'
                    f'replay: python3 {VERIF}/check.py {prop} {tier} (VERIF_SEED={seed()})\n')
        print(v.what[:3000])
        print(f'VIOLATION property={prop} replay={rep}')
        violations.append(v.what[:2000])
        rc = 1
    except ToolError as e:
        print(f'ERROR: {e}', file=sys.stderr)
        rc = 2
    ev = {
        'property': prop, 'tier': tier, 'seed': seed(), 'level': 'model_checking',
        'coverage': {
            'states': cov.states, 'transitions': cov.transitions,
            'traces_validated_against_impl': cov.validated,
            'events_validated': cov.events,
            'samples': cov.samples[:8] or ['none'],
            'notes': cov.notes,
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not os.environ.get('PV_KEEP'):
        shutil.rmtree(work.dir, ignore_errors=True)
    print(f'{prop} {tier}: exit {rc}, {time.time() - t0:.1f}s, states {cov.states}, '
          f'traces {cov.validated}, events {cov.events}; ' + '; '.join(cov.notes))
    return rc
