"""K24: constructs inside constructs."""
import random

from pv import *
import replay as rp

VALS = {'int': 'int', 'str': 'std::string', 'spy': 'rt::Spy', 'e1': 'rt::Empty<1>', 'e2': 'rt::EmptyManaged<2>', 'pair': 'std::pair<int, std::string>', 'tup': 'std::tuple<int>'}
LEAVES = {'plain': 'rt::Plain<{0}, {1}>{{}}', 'heap': 'rt::Heap<{0}, {1}>{{}}', 'free': 'rt::Free<{0}, {1}>{{}}', 'void': 'rt::Nothing<{0}, {1}>{{}}', 'lambda': 'rt::lambda<{0}, {1}>()'}
FRONT = ['ct', 'tup', 'bind']
BACK = ['ct', 'tup', 'bind', 'unc']
UNARY = ['front-ct', 'front-tup', 'front-bind', 'back-ct', 'back-tup', 'back-bind', 'back-unc', 'rec', 'ovl', 'reg', 'unreg', 'same-apply', 'same-elem', 'same-cap', 'lazy']


NOT_ASKED = {'reg', 'unreg', 'lazy'}   # it is an error to ask whether they can be called


class Draw:
    """Draws trees; numbers the leaves and lazies."""

    def __init__(self, rng):
        self.rng, self.leaves, self.lazies, self.silent = rng, 0, 0, False

    def values(self, n):
        out = []
        for _ in range(n):
            t = self.rng.choice(list(VALS))
            out.append((t, {'e1': 1, 'e2': 2}.get(t) or self.rng.randint(1, 4)))
        return out

    def leaf(self, ar, void=True):
        self.leaves += 1
        kinds = [k for k in LEAVES if void or k != 'void']
        return {'k': 'leaf', 'id': self.leaves, 'ar': ar, 'kind': self.rng.choice(kinds)}

    def tree(self, ar, depth, first=None, rest=None, ask=False, void=True):
        """A tree that can be called with ar arguments. first: the outermost
        construct; rest: those below; ask: must answer whether it can be called."""
        rng = self.rng
        if depth == 0:
            return self.leaf(ar, void)
        kinds = [k for k in UNARY if (k != 'lazy' or ar == 0) and not (ask and k in NOT_ASKED)]
        kind = first or rng.choice(kinds + ['leaf'])
        f, r = (rest[0], rest[1:]) if rest else (None, None)

        def below(n, **kw):
            return self.tree(n, depth - 1, f, r, **dict(dict(ask=ask, void=void), **kw))

        if kind == 'leaf':
            return self.leaf(ar, void)
        if '-' in kind:
            k, how = kind.split('-')
            if k == 'same':
                return {'k': k, 'how': how, 'f': below(ar)}
            n = rng.randint(1 if how == 'unc' else 0, 3 if ar < 2 else 2)
            vs = self.values(n)
            return {'k': k, 'how': how, 'vals': vs, 'f': below(ar + n)}
        if kind == 'ovl':
            used, fs = {ar}, []
            fs.append(below(ar, ask=True))
            used |= arities(fs[0])
            for a in rng.sample(range(0, 4), 2):
                if a not in used:
                    g = self.tree(a, rng.choice([0, 0, 1]), ask=True, void=void)
                    if not arities(g) & used:
                        fs.append(g)
                        used |= arities(g)
            rng.shuffle(fs)
            return {'k': 'ovl', 'fs': fs}
        if kind in ('rec', 'reg', 'unreg'):
            return {'k': kind, 'f': below(ar)}
        assert kind == 'lazy' and ar == 0
        self.lazies += 1
        me = self.lazies
        deps = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < 0.35:
                t = rng.choice(['int', 'str', 'pair', 'tup'])
                deps.append({'k': 'val', 't': t, 'x': rng.randint(1, 4)})
            else:
                d = self.tree(0, 1, 'lazy') if rng.random() < 0.3 else self.tree(0, rng.choice([0, 1, 2]), ask=True, void=False)
                deps.append(d)
        t = {'k': 'lazy', 'id': me, 'deps': deps, 'f': below(len(deps))}
        return t


def arities(t):
    if t['k'] == 'leaf':
        return {t['ar']}
    if t['k'] in ('front', 'back'):
        return {a - len(t['vals']) for a in arities(t['f']) if a >= len(t['vals'])}
    if t['k'] == 'ovl':
        return set().union(*map(arities, t['fs']))
    return {0} if t['k'] == 'lazy' else arities(t['f'])


def kinds(t):
    out = {t['k']}
    for s in [t.get('f')] + t.get('fs', []) + t.get('deps', []):
        if s:
            out |= kinds(s)
    return out


def spec(t):
    if t['k'] == 'leaf':
        return {'k': 'leaf', 'id': t['id'], 'ar': t['ar'], 'kind': t['kind']}
    if t['k'] == 'val':
        return {'k': 'val', 'x': t['x']}
    o = {'k': t['k']}
    if 'vals' in t:
        o['vals'] = [x for _, x in t['vals']]
    if 'f' in t:
        o['f'] = spec(t['f'])
    if 'fs' in t:
        o['fs'] = [spec(f) for f in t['fs']]
    if 'deps' in t:
        o['deps'] = [spec(d) for d in t['deps']]
        o['id'] = t['id']
    return o


def val(t, x):
    return f'rt::v<{VALS[t]}>({x})'


def cxx(t):
    k = t['k']
    if k == 'leaf':
        return LEAVES[t['kind']].format(t['id'], t['ar'])
    if k == 'val':
        return val(t['t'], t['x'])
    if k in ('front', 'back'):
        f, vs, how = cxx(t['f']), ', '.join(val(*v) for v in t['vals']), t['how']
        ts = ', '.join(VALS[v] for v, _ in t['vals'])
        if how == 'unc':
            return f'(pigro::uncaptured({vs}) >> {f})'
        if how == 'bind':
            return f'pigro::bind_{k}({f}{", " if vs else ""}{vs})'
        holder = f'pigro::compressed_tuple<{ts}>{{ {vs} }}' if how == 'ct' else f'std::tuple<{ts}>{{ {vs} }}'
        op = '>>' if k == 'front' else '<<'
        # operators of another namespace
        return f'pigro::operator{op}({holder}, {f})'
    if k == 'rec':
        return f'pigro::recursive{{ rt::Again{{ {cxx(t["f"])} }} }}'
    if k == 'ovl':
        return f'pigro::overload{{ {", ".join(cxx(f) for f in t["fs"])} }}'
    if k == 'same':
        return f'rt::through_{t["how"]}({cxx(t["f"])})'
    if k in ('reg', 'unreg'):
        return f'pigro::{k}ularized_void({cxx(t["f"])})'
    return f'pigro::lazy({", ".join(map(cxx, [t["f"]] + t["deps"]))})'


def program(trees):
    s = '#include "compose_rt.h"\n\n'
    for i, t in enumerate(trees):
        ask = 'false' if kinds(t) & NOT_ASKED else 'true'
        s += f'static auto tree{i}() {{\n    return rt::any<{ask}, {", ".join(map(str, sorted(arities(t))))}>({cxx(t)});\n}}\n'
    s += 'std::unique_ptr<rt::Any> rt::make_tree(int k) {\n    switch (k) {\n'
    for i in range(len(trees)):
        s += f'    case {i}: return tree{i}();\n'
    return s + '    }\n    std::abort();\n}\nint main(int, char **argv) { return rt::run_scripts<rt::ComposeRun>(argv[1]); }\n'


def config(t, d, objs=2, maxn=3):
    return {'tree': spec(t), 'leaves': d.leaves, 'lazies': d.lazies, 'ask': not kinds(t) & NOT_ASKED, 'objs': objs, 'maxn': maxn}


def random_script(rng, t, d, length):
    ars = sorted(arities(t))
    s, live, n = [], [1], 1
    while len(s) < length:
        x = rng.random()
        if x < 0.7:
            s.append(['call', rng.choice(live), [rng.randint(1, 4) for _ in range(rng.choice(ars))]])
        elif x < 0.8 and n < 6:
            n += 1
            s.append(['copy', rng.choice(live)])
            live.append(n)
        elif x < 0.86 and n < 6:
            n += 1
            o = rng.choice(live)
            s.append(['move', o])
            live = [p for p in live if p != o] + [n]
        elif x < 0.88 and len(live) > 1:
            o = rng.choice(live)
            s.append(['drop', o])
            live.remove(o)
        elif x < 0.97 and not d.lazies:
            s.append(['arm', rng.randint(1, d.leaves)])
    return s


def k24(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    trees = []
    for rep in range(1 if quick else 3):
        for outer in UNARY:
            for inner in UNARY:
                for _ in range(50):
                    d = Draw(rng)
                    ar = 0 if 'lazy' in (outer, inner) else rng.choice([0, 1, 1, 2])
                    if outer == 'ovl' and inner in NOT_ASKED:
                        break
                    try:
                        t = d.tree(ar, 2, outer, [inner])
                    except AssertionError:
                        continue
                    if valid(t):
                        trees.append((t, d))
                        break
    for _ in range(80 if quick else 500):
        while True:
            d = Draw(rng)
            try:
                t = d.tree(rng.choice([0, 0, 1, 2]), rng.choice([3, 3, 4, 5]))
            except AssertionError:
                continue
            if valid(t) and d.leaves <= 8:
                break
        trees.append((t, d))
    rng.shuffle(trees)
    size = 9
    parts = [trees[i:i + size] for i in range(0, len(trees), size)]

    def one(k, part):
        name = f'compose{k}'
        r = random.Random(f'{seed()}{k}')
        exe = compile_cxx(work, name, program([t for t, _ in part]))
        scripts, flat, cfgs = [], [], []
        for i, (t, d) in enumerate(part):
            sc = []
            if i == 0 and max(arities(t)) <= 3:
                g = rp.scripts(work, cov, 'Compose', f'{name}-{i}', config(t, d, maxn=2 if quick else 3), 4 if quick else 6)
                sc += r.sample(g, min(len(g), 150 if quick else 2000))
            sc += [random_script(r, t, d, 25) for _ in range(8 if quick else 60)]
            for s in sc:
                scripts.append([['tree', i]] + s)
                cfgs.append(config(t, d))
                flat.append([['tree', i]] + [['call', op[1], r.randrange(128), *op[2]] if op[0] == 'call' else op for op in s])
        obs = rp.perform(work, name, exe, flat)
        runs = [{'cfg': c, 'ev': [{'op': o, 'obs': b} for o, b in zip(s, ob)]} for c, s, ob in zip(cfgs, scripts, obs)]
        rp.judge(work, cov, 'Compose', name, runs, {'program': exe + '.cpp', 'scripts': work.path(f'{name}.scripts')})

    parallel([lambda k=k, p=p: one(k, p) for k, p in enumerate(parts)])
    cov.notes.append(f'{len(trees)} trees of constructs')


def valid(t):
    """What the library offers."""
    if t['k'] == 'leaf' or t['k'] == 'val':
        return True
    if t['k'] == 'ovl' and any(kinds(f) & NOT_ASKED for f in t['fs']):
        return False
    if not arities(t) or min(arities(t)) < 0 or max(arities(t)) > 5:
        return False
    return all(valid(s) for s in [t.get('f')] + t.get('fs', []) + t.get('deps', []) if s)


CHECKS = {'K24': k24}
