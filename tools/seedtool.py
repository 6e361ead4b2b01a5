#!/usr/bin/env python3
"""Makes and confirms planted bugs: seedtool.py DEFS.py [id...]
DEFS.py defines BUGS = {id: dict(property, needs, what, edits=[(file, old, new)], demo=C++)}.
Works in a scratch copy of /repo; writes /verif/seeded/<id>/."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedwork'
DEMO_SH = '''#!/bin/bash
# Exit 0: the property holds in this program. Run in the repository.
dir=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf -- "$out"' EXIT
timeout 250 g++-13 -std=gnu++20 -O0 -w -I"$PWD/src" "$dir/demo.cpp" -o "$out/demo" 2>"$out/log" || { grep -m3 error "$out/log" | cut -c1-300; exit 3; }
cd "$out" && timeout 40 ./demo
'''
PRE = '''#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <concepts>
#include <cstdio>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("line %d: %s\\n", __LINE__, #__VA_ARGS__); return 1; } } while (0)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    spec = importlib.util.spec_from_file_location('defs', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    ids = sys.argv[2:] or list(m.BUGS)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        b = m.BUGS[i]
        shutil.rmtree(S, ignore_errors=True)
        sh(['cp', '-a', '/repo', S])
        sh(['git', 'checkout', '-q', '--', '.'], cwd=S)
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.cpp'), 'w').write(PRE + b['demo'].lstrip())
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=S)
        ok0 = r.returncode == 0
        if not ok0:
            print(i, 'demo fails on the unchanged tree:', r.returncode, r.stdout[-500:])
        blame_bad = []
        for f, old, new in b['edits']:
            p = os.path.join(S, f)
            s = open(p).read()
            assert s.count(old) == 1, (i, f, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=S).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        # lines removed must be original ones
        base = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=S).stdout.strip()[:7]
        for f in {e[0] for e in b['edits']}:
            orig = {l.strip() for l in sh(['git', 'show', f'{base}:{f}'], cwd=S).stdout.splitlines()}
            for l in sh(['git', 'diff', '--', f], cwd=S).stdout.splitlines():
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() not in orig:
                    blame_bad.append(l)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=S)
        ok1 = r.returncode not in (0,)
        compiled = r.returncode != 3
        # the repository's build and stable tests, on the scratch copy: same compiler flags, core suites
        tests = run_stable(stable)
        print(i, 'OK' if ok0 and ok1 and tests and not blame_bad else 'NOT OK', '| clean', ok0, '| demo with patch', r.returncode, r.stdout.strip()[-150:],
              '' if compiled else '(does not compile)', '| tests', tests, '| non-original lines:', blame_bad, flush=True)
    shutil.rmtree(S, ignore_errors=True)


def run_stable(stable):
    """The stable suites, compiled from the scratch copy."""
    core = sorted({t.split('::')[0] for t in stable})
    env = dict(os.environ)
    ok = True
    procs = []
    for c in core:
        exe = f'{S}/_t_{c}'
        procs.append((c, exe, subprocess.Popen(
            ['bash', '-c', f'. /opt/vp/harness/common.sh >/dev/null 2>&1; g++-13 -std=gnu++20 -w -include /opt/vp/harness/std_prelude.h '
             f'-include /opt/vp/harness/ut_runner.h -I {S}/extlib {S}/tests/{c}.test.cpp {S}/tests/tests.cpp -o {exe}'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    main = ''
    for c, exe, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            print('build of', c, 'fails', [l[:200] for l in out.splitlines() if 'rror' in l or 'undefined' in l][:3])
            ok = False
            continue
        rep = exe + '.lines'
        r = subprocess.run([exe], capture_output=True, text=True, env=dict(env, UT_SUITE=c, UT_REPORT=rep))
        lines = open(rep).read() if os.path.exists(rep) else ''
        for t in stable:
            if t.startswith(c + '::') and f'PASS {t}' not in lines:
                print('stable test fails:', t)
                ok = False
    return ok


main()
