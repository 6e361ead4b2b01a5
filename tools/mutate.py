#!/usr/bin/env python3
"""Small changes of the headers, one at a time: which of those that pass the
stable tests do the checks not notice?
  mutate.py survive OUT.json         mutants that build and pass the stable tests
  mutate.py check OUT.json [from]    runs the checks on them (stops at the first alarm)
The rest is to be looked at: is the behaviour the same?"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAZY = ['L01', 'L02', 'L08', 'L05', 'L06', 'L07', 'L03', 'L04', 'L09']
CHECKS = {
    'apply.h': ['A17', 'B12', 'B13', 'C23', 'L01', 'K24'],
    'bind_tuple.h': ['B12', 'B13', 'C23', 'T11', 'V20', 'L08', 'L01', 'K24'],
    'compressed_tuple.h': ['T10', 'C23', 'T11', 'B13', 'B12', 'A17', 'L08', 'L01', 'L09', 'K24'],
    'concepts.h': ['C23', 'T10', 'T11', 'B13', 'U21', 'L01', 'L07', 'L09'],
    'empty_object.h': ['T10', 'U21', 'T11', 'C23', 'L01'],
    'forward_like.h': ['F22', 'T10', 'B13', 'C23', 'A17'],
    'fwd_capture.h': ['F22', 'B13', 'B12', 'T10', 'C23', 'L08', 'K24'],
    'lazy.h': LAZY,
    'overload.h': ['O14', 'T11', 'C23', 'T10', 'L01', 'K24'],
    'pack_algorithms.h': ['P18', 'T10', 'C23', 'B13'],
    'partition.h': ['P19'],
    'recursive.h': ['O15', 'C23', 'T10', 'B13', 'L08', 'L01', 'K24'],
    'regular_void.h': ['V20', 'L07', 'C23', 'T11', 'L02', 'L01', 'K24'],
    'to_tuple.h': ['A17', 'C23'],
    'tuple_algorithms.h': ['A16', 'C23', 'L01', 'L04', 'L02'],
    'uncapture.h': ['U21', 'T11', 'C23', 'K24'],
    'utils.h': ['F22', 'T10', 'C23', 'B13', 'U21'],
}
RULES = [
    (r'std::move\(([\w*]+)\)', r'(\1)'), (r'FWD\((\w+)\)', r'(\1)'), (r'FWD_CAPTURE\((\w+)\)', r'std::tuple{ \1 }'),
    (r'std::forward<(?:[^<>()]|<[^<>]*>|\([^()]*\))*>\(', '('), (r'decltype\(auto\)', 'auto'), (r'auto &&', 'auto '), (r'auto &&', 'const auto &'),
    (r'auto &(?!&)', 'auto '), (r'const auto &', 'auto '), (r'const auto ', 'auto '), (r'const auto &', 'auto &'), (r'\bauto (\w+)\b(?=[,)])', r'auto &&\1'), (r'\bauto (\w+)\b(?=[,)])', r'const auto &\1'),
    (r'\) const\b', ')'), (r'==', '!='), (r'!=', '=='), (r'\|\|', '&&'), (r' && ', ' || '), (r'!(?=[\w(])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'true_type', 'false_type'), (r'false_type', 'true_type'), (r' mutable', ''), (r'remove_cvref_t', 'remove_reference_t'), (r'remove_cvref_t', 'remove_cv_t'), (r'remove_reference_t', 'remove_cvref_t'),
    (r'decay_t', 'type_identity_t'), (r'\[=\]', '[&]'), (r'\[&\]', '[=]'), (r'explicit ', ''), (r'constexpr auto (?=\w+ =)', 'auto '), (r'requires\([^\n]*\)(?=\n)', ''),
    (r'\+ 1', '+ 0'), (r'\+ 1', '+ 2'), (r'value_type', 'type'), (r'lvalue', 'rvalue'), (r'rvalue', 'lvalue'), (r'\bidx<0>', 'idx<1>'), (r'\bidx<1>', 'idx<0>'), (r'> uncaught', '>= uncaught'),
    (r'noexcept', ''), (r'private ', ''), (r'template<concepts::empty T', 'template<typename T'), (r'concepts::(?:tuple_like|compressed_tuple|lazy_function_unwrapped|lazy_function|lazy_result) ', ''),
    (r'concepts::lazy_function_unwrapped', 'concepts::lazy_function'), (r'::std::invocable auto', 'auto'), (r'std::get<0>', 'std::get<0>'), (r'T &&x', 'T &x'), (r'T &&x', 'const T &x'), (r'\(Args &&\.\.\.', '(Args...'), (r'Ts &&\.\.\.', 'const Ts &...'),
    (r' &&(?= ->)', ' &'), (r' const &(?= ->)', ' &'), (r'static_cast<F &>', 'static_cast<F &&>'), (r'std::invoke\(', '(std::invoke)('), (r'bind_front\(', 'bind_back('), (r'bind_back\(', 'bind_front('), (r'bind_(front|back)_tuple\(FWD', r'bind_\1_tuple((', ),
    (r'cache = std::move\(result\);', 'if (changed) cache = std::move(result);'), (r'std::tuple\{', 'std::make_tuple('), (r'std::forward_as_tuple', 'std::make_tuple'), (r'std::forward_as_tuple', 'std::tie'), (r'sizeof\.\.\.\(Us\) == 1 && ', ''),
    (r'std::default_initializable<Ts> &&', 'true || std::default_initializable<Ts> &&'), (r'tag', '0'), (r'static_cast<Ts>', ''), (r'as_nonconst', ''), (r'Trait<T>', 'Trait<T &>'), (r'predicate\)\.\.\.,', '!predicate)...,'),
    (r'\(predicate\(args\) \|\| \.\.\.\)', '(... || predicate(args))'), (r'\(predicate\(args\) \|\| \.\.\.\)', '(predicate(args) | ... | false)'), (r'\(typelists \+ \.\.\. \+ typelist<>\{\}\)', '(typelist<>{} + ... + typelists)'),
    (r'\(typelists \+', '(typelist<>{} +'), (r'typelist<Ts\.\.\., Us\.\.\.>', 'typelist<Us..., Ts...>'), (r'values >> \.\.\. >> f', 'values >> f, ...'),
    (r'lazy_f\b(?=\))', 'lazy_f'), (r'U\{ u \}, F\{ f \}', 'U{ u }, F{}'), (r'\*cache,', 'result_t(*cache),'), (r'!cache \|\| ', ''), (r'auto cache = ', 'static auto cache = '), (r'auto cache = ', 'static thread_local auto cache = '),
]


def mutants():
    seen = set()
    for p in sorted(glob.glob('/repo/src/pigro/*.h')):
        f = os.path.basename(p)
        if os.environ.get('ONLY', f) != f:
            continue
        s = open(p).read()
        for r, to in RULES:
            for m in re.finditer(r, s):
                t = s[:m.start()] + m.expand(to) + s[m.end():]
                if t != s and (f, t) not in seen and not s[:m.start()].rsplit('\n', 1)[-1].lstrip().startswith(('//', '#include')):
                    seen.add((f, t))
                    line = s[:m.start()].count('\n') + 1
                    yield {'file': f, 'line': line, 'from': m.start(), 'to': m.end(), 'text': m.expand(to), 'old': m.group(0)}
        # statements
        off = 0
        for i, l in enumerate(s.splitlines(True), 1):
            t = l.strip()
            if t.endswith(';') and not t.startswith(('return', 'using', 'template', 'typename', '}', '#', 'struct', 'static constexpr')):
                yield {'file': f, 'line': i, 'from': off, 'to': off + len(l), 'text': '\n', 'old': t}
            off += len(l)


def tree(m):
    d = tempfile.mkdtemp(prefix='mutant.')
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}', shell=True, check=True)
    p = f'{d}/src/pigro/{m["file"]}'
    s = open(p).read()
    open(p, 'w').write(s[:m['from']] + m['text'] + s[m['to']:])
    return d


STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']


def passes(m):
    d = tree(m)
    try:
        for c in sorted({t.split('::')[0] for t in STABLE}):
            exe = f'{d}/_t_{c}'
            r = subprocess.run(['g++-13', '-std=gnu++20', '-w', '-include', '/opt/vp/harness/std_prelude.h', '-include', '/opt/vp/harness/ut_runner.h', '-I', f'{d}/extlib',
                                f'{d}/tests/{c}.test.cpp', f'{d}/tests/tests.cpp', '-o', exe], capture_output=True)
            if r.returncode:
                return False
            rep = exe + '.lines'
            try:
                subprocess.run([exe], capture_output=True, env=dict(os.environ, UT_SUITE=c, UT_REPORT=rep), timeout=60)
            except subprocess.TimeoutExpired:
                return False
            lines = open(rep).read() if os.path.exists(rep) else ''
            if any(t.startswith(c + '::') and f'PASS {t}' not in lines for t in STABLE):
                return False
        return True
    finally:
        shutil.rmtree(d)


def compiles_alone(m):
    """Cheap filter: the header can be included at all."""
    d = tree(m)
    try:
        r = subprocess.run(['g++-13', '-std=gnu++20', '-w', '-fsyntax-only', '-include', '/opt/vp/harness/std_prelude.h', '-x', 'c++', f'{d}/src/pigro/{m["file"]}'], capture_output=True)
        return r.returncode == 0
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == 'survive':
        ms = list(mutants())
        with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", 6))) as ex:
            ms = [m for m, ok in zip(ms, ex.map(compiles_alone, ms)) if ok]
            print(len(ms), 'can be included', flush=True)
            ms = [m for m, ok in zip(ms, ex.map(passes, ms)) if ok]
        print(len(ms), 'survive the tests')
        json.dump(ms, open(sys.argv[2], 'w'), indent=1)
        return
    ms = json.load(open(sys.argv[2]))
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    for k, m in enumerate(ms):
        if only and str(k) not in only and m['file'] not in only:
            continue
        d = tree(m)
        verdict = 'MISSED'
        try:
            for c in CHECKS[m['file']]:
                r = subprocess.run([sys.executable, os.path.join(V, 'check.py'), c, 'quick'], capture_output=True, text=True, env=dict(os.environ, PIGRO_REPO=d))
                if r.returncode:
                    verdict = f'{c} ' + ('' if 'VIOLATION' in r.stdout else f'STATUS {r.returncode} ') + r.stdout.strip().splitlines()[0][:120]
                    break
        finally:
            shutil.rmtree(d)
        print(k, m['file'], m['line'], repr(m['old'][:60]), '->', repr(m['text'][:60]), '|', verdict, flush=True)


main()
