"""Programs that use pigro::lazy: described as data (which is also the Graph of
the specification), turned into C++."""
import zlib

TYPES = {
    'int': 'int', 'long': 'long', 'char': 'char', 'bool': 'bool', 'double': 'double',
    'string': 'std::string', 'pair': 'std::pair<int, int>', 'tuple2': 'std::tuple<int, int>',
    'tuple1': 'std::tuple<int>', 'optional': 'std::optional<int>', 'vector': 'std::vector<int>',
    'array': 'std::array<int, 2>', 'big': 'rt::Big', 'enum': 'rt::Color', 'ptr': 'int *',
    'noisy': 'rt::Noisy', 'zero': 'rt::Zero', 'float': 'float', 'short': 'short', 'size': 'std::size_t',
    'shared': 'std::shared_ptr<int>', 'void': 'void', 'aligned': 'rt::Aligned', 'final': 'rt::Final', 'virt': 'rt::Virt',
    'unit': 'rt::Unit', 'nested': 'rt::Nested', 'variant': 'rt::Variant', 'ldouble': 'long double', 'unary': 'rt::Unary', 'text': 'const char *',
}


def src(v, t='int', sk='st'):
    return {'k': 'src', 'v': v, 't': t, 'sk': sk}


def val(v, t='int'):
    return {'k': 'val', 'v': v, 't': t}


def dep(n):
    return {'k': 'lazy', 'n': n}


def node(f, m, deps, t='int', fk='st'):
    return {'f': f, 'm': m, 'deps': deps, 't': t, 'fk': fk}


def graph(nodes):
    """What the specification has to know."""
    out = []
    for n in nodes:
        ds = []
        for d in n['deps']:
            ds.append({k: d[k] for k in ('k', 'v', 'n') if k in d})
        out.append({'f': n['f'], 'm': n['m'], 'deps': ds})
    return out


def ctype(t, n, i):
    return f'rt::Spy<{n}, {i}>' if t == 'spy' else TYPES[t]


def program(name, nodes, nvars):
    fnames = {'const': 'const_', 'void': 'void_'}
    s = '#include "lazy_rt.h"\n\n'
    for n, nd in enumerate(nodes, 1):
        rt = ctype(nd['t'], n, 0)
        f = f'rt::F::{fnames.get(nd["f"], nd["f"])}'
        targs = f'{n}, {rt}, {f}, {nd["m"]}'
        args, atypes, params = [], [], []
        for i, d in enumerate(nd['deps'], 1):
            if d['k'] == 'lazy':
                # passed as lvalue, rvalue, const lvalue: they are taken by value
                args.append([f'd{i}', f'O{d["n"]}(d{i})', f'std::as_const(d{i})'][(n + i) % 3])
                params.append(f'O{d["n"]} &d{i}')
                dt = nodes[d['n'] - 1]['t']
                atypes.append('pigro::regular_void' if dt == 'void' else ctype(dt, d['n'], 0))
                continue
            t = ctype(d['t'], n, i)
            atypes.append(t)
            if d['k'] == 'val':
                args.append(f'rt::codec<{t}>::make(rt::var[{d["v"]}])')
            else:
                st = f'{n}, {i}, {t}, {d["v"]}'
                args.append({
                    'st': f'rt::StatefulS<{st}>{{}}', 'heap': f'rt::HeapS<{st}>{{}}', 'fat': f'rt::FatS<{st}>{{}}', 'ref': f'rt::RefS<{st}>{{}}', 'cst': f'rt::ConstS<{st}>{{}}',
                    'empty': f'rt::EmptyS<{st}>{{}}', 'emptymut': f'rt::EmptyMutS<{st}>{{}}',
                    'lam': f'rt::lambda_s<{st}>()', 'mut': f'rt::mutable_s<{st}>()',
                    'ptr': f'&rt::function_s<{st}>',
                    'fn': f'std::function<{t}()>{{ rt::StatefulS<{st}>{{}} }}',
                }[d['sk']])
        fun = {
            'st': f'rt::StatefulF<{targs}>{{}}', 'heap': f'rt::HeapF<{targs}>{{}}', 'fat': f'rt::FatF<{targs}>{{}}', 'ref': f'rt::RefF<{targs}>{{}}', 'cst': f'rt::ConstF<{targs}>{{}}',
            'empty': f'rt::EmptyF<{targs}>{{}}', 'emptymut': f'rt::EmptyMutF<{targs}>{{}}',
            'lam': f'rt::lambda_f<{targs}>()', 'mut': f'rt::mutable_f<{targs}>()',
            'ptr': f'&rt::function_f<{", ".join([targs] + atypes)}>',
            'fn': f'std::function<{rt}({", ".join(atypes)})>{{ rt::StatefulF<{targs}>{{}} }}',
        }[nd['fk']]
        s += f'auto make{n}({", ".join(params)}) {{\n    return pigro::lazy({", ".join([fun] + args)});\n}}\n'
        pargs = ', '.join(f'std::declval<O{d["n"]} &>()' for d in nd['deps'] if d['k'] == 'lazy')
        s += f'using O{n} = decltype(make{n}({pargs}));\nRT_OWN rt::Store<O{n}> s{n};\n\n'
    # calls and copies made by functions
    s += 'bool there(int a) {\n    if (a > int(rt::objs.size())) return false;\n    const auto [n, i] = rt::objs[a - 1];\n'
    for n in range(1, len(nodes) + 1):
        s += f'    if (n == {n}) return s{n}[i] != nullptr;\n'
    s += '    return false;\n}\n'
    s += 'void nested(int a, bool call) {\n    if (!there(a) || rt::is_busy(a)) return;\n'
    s += '    const auto [n, i] = rt::objs[a - 1];\n'
    for n in range(1, len(nodes) + 1):
        s += f'    if (n == {n}) {{\n        if (call) rt::call(a, *s{n}[i]);\n'
        s += f'        else {{ s{n}.emplace_back(new O{n}(*s{n}[i])); rt::copied(a, n, int(s{n}.size()) - 1, "copy"); }}\n    }}\n'
    s += '}\n\n'
    # the interpreter
    s += 'void run(std::istream &in) {\n    std::string op;\n    while (in >> op) {\n        int a = 0;\n'
    s += '        if (op == "end") return;\n        in >> a;\n'
    s += '        if (op == "set") { int x; in >> x; rt::set(a, x); continue; }\n'
    s += '        if (op == "arm") { int i; std::string w; in >> i >> w; auto &r = rt::armed[a][i];\n'
    s += '            if (w == "throw") r = { rt::throw_ };\n            if (w == "cmp") r = { rt::cmp_ };\n'
    s += '            if (w == "copy") r = { rt::copy_ };\n'
    s += '            if (w == "call" || w == "clone") { r.w = w == "call" ? rt::call_ : rt::clone_; in >> r.x; }\n'
    s += '            if (w == "set") { r.w = rt::set_; in >> r.v >> r.x; }\n            continue; }\n'
    s += '        if (op == "make") {\n            int ds[16];\n'
    for n, nd in enumerate(nodes, 1):
        k = len(nd['deps'])
        s += f'            if (a == {n}) {{\n'
        s += f'                for (int i = 1; i <= {k}; ++i) in >> ds[i];\n'
        s += f'                if (!({" && ".join(["true"] + [f"there(ds[{i}])" for i, d in enumerate(nd["deps"], 1) if d["k"] == "lazy"])})) continue;\n'
        s += f'                rt::ev("{{\\"e\\":\\"make\\",\\"n\\":{n},\\"ds\\":" + rt::seq(std::vector<int>(ds + 1, ds + {k + 1})) + "}}");\n'
        call = ', '.join(f'*s{d["n"]}[rt::objs[ds[{i}] - 1].second]' for i, d in enumerate(nd['deps'], 1) if d['k'] == 'lazy')
        s += f'                s{n}.emplace_back(new O{n}(make{n}({call})));\n'
        s += f'                rt::objs.emplace_back({n}, int(s{n}.size()) - 1);\n            }}\n'
    s += '            continue;\n        }\n        if (!there(a)) continue;\n        const auto [n, i] = rt::objs[a - 1];\n'
    for n in range(1, len(nodes) + 1):
        s += f'        if (n == {n}) {{\n            auto &st = s{n};\n'
        s += '            if (op == "call") rt::call(a, *st[i]);\n'
        s += f'            if (op == "copy") {{ st.emplace_back(new O{n}(*st[i])); rt::copied(a, n, int(st.size()) - 1, "copy"); }}\n'
        s += f'            if (op == "move") {{ st.emplace_back(new O{n}(std::move(*st[i]))); st[i].reset(); rt::copied(a, n, int(st.size()) - 1, "move"); }}\n'
        s += '            if (op == "drop") { st[i].reset(); rt::ev("{\\"e\\":\\"drop\\"" + rt::kv("o", a) + "}"); }\n        }\n'
    s += '    }\n}\n\n'
    s += 'int main(int, char **argv) {\n    rt::do_call = [](int o) { nested(o, true); };\n    rt::do_copy = [](int o) { nested(o, false); };\n'
    s += '    const auto reset = [] {\n'
    for n in range(1, len(nodes) + 1):
        s += f'        s{n}.clear();\n'
    s += '    };\n    return rt::main_(argv[1], reset, run);\n}\n'
    return s


def script_text(ops):
    out = []
    for op in ops:
        flat = []
        for x in op:
            flat += x if isinstance(x, list) else [x]
        out.append(' '.join(map(str, flat)))
    return f'run {zlib.crc32(repr(out).encode())}\n' + '\n'.join(out) + '\nend\n'


# ----------------------------------------------------------------- the programs
# Together they use every kind of value as a result, as what a plain function
# returns and as a value dependency; every kind of function; no dependency to
# eight of them; chains, shared parts and trees.

def P(name, nvars, nodes):
    return {'name': name, 'nvars': nvars, 'nodes': nodes}


ZOO = [
    P('none', 1, [node('const', 2, [], 'int', 'st')]),
    P('one', 1, [node('sum', 2, [src(1, 'spy', 'mut')], 'spy', 'mut')]),
    P('two', 2, [node('pos', 9, [src(1, 'string', 'lam'), src(2, 'double', 'st')], 'string', 'empty')]),
    P('vals', 2, [node('pos', 27, [val(1, 'string'), src(2, 'zero', 'empty'), val(2, 'pair')], 'double', 'fn')]),
    P('chain', 2, [node('max', 2, [src(1, 'pair', 'st')], 'optional', 'st'),
                   node('pos', 9, [dep(1), src(2, 'optional', 'mut')], 'pair', 'st')]),
    P('tuples', 2, [node('sum', 3, [src(1, 'tuple1', 'heap')], 'tuple2', 'heap'),
                    node('pos', 9, [dep(1), val(2, 'tuple2')], 'tuple1', 'heap'),
                    node('sum', 4, [dep(2)], 'tuple2', 'empty')]),
    P('diamond', 2, [node('sum', 2, [src(1, 'spy', 'st')], 'spy', 'st'),
                     node('max', 2, [dep(1), src(2, 'noisy', 'emptymut')], 'noisy', 'emptymut'),
                     node('pos', 27, [dep(1), dep(2), dep(1)], 'spy', 'lam')]),
    P('deep', 1, [node('sum', 3, [src(1, 'float', 'ptr')], 'float', 'ptr'),
                  node('max', 2, [dep(1)], 'bool', 'emptymut'),
                  node('sum', 2, [dep(2)], 'vector', 'mut'),
                  node('first', 3, [dep(3), dep(1)], 'shared', 'st')]),
    P('wide', 3, [node('pos', 60, [src(1, 'int', 'empty'), src(2, 'char', 'lam'), val(3, 'enum'), src(3, 'big', 'st'),
                                   src(1, 'ptr', 'mut'), val(1, 'vector'), src(3, 'long', 'heap'), src(2, 'array', 'fn')],
                       'long', 'heap')]),
    P('same', 1, [node('const', 3, [src(1, 'spy', 'empty'), src(1, 'spy', 'empty')], 'spy', 'empty'),
                  node('sum', 5, [dep(1), src(1, 'spy', 'empty')], 'spy', 'empty')]),
    P('right', 2, [node('sum', 3, [src(1, 'enum', 'emptymut')], 'array', 'fn'),
                   node('pos', 27, [src(2, 'shared', 'fn'), val(1, 'spy'), dep(1)], 'big', 'mut')]),
    P('allvals', 2, [node('pos', 9, [val(1, 'int'), val(2, 'double')], 'noisy', 'mut'),
                     node('first', 9, [dep(1)], 'zero', 'emptymut')]),
    P('units', 2, [node('sum', 1, [src(1, 'nested', 'st'), val(0, 'unit')], 'unit', 'st'),
                   node('pos', 27, [dep(1), src(0, 'unit', 'mut'), src(2, 'variant', 'lam'), val(0, 'unit')], 'aligned', 'lam'),
                   node('sum', 9, [dep(2), val(1, 'final')], 'nested', 'empty')]),
    P('dozen', 3, [node('pos', 60, [src(1), val(2, 'virt'), src(2), val(1, 'aligned'), src(3), src(1, 'final'), src(2), src(3, 'virt'), src(1),
                                    src(2, 'ldouble'), src(3, 'aligned'), src(1), src(2, 'spy')], 'virt', 'st')]),
    P('fat', 2, [node('sum', 3, [src(1, 'int', 'fat')], 'big', 'fat'),
                 node('pos', 9, [dep(1), src(2, 'big', 'fat'), src(1, 'int', 'fat')], 'int', 'fat')]),
    P('refs', 2, [node('sum', 3, [src(1, 'string', 'ref'), val(2, 'unary')], 'vector', 'ref'),
                  node('pos', 9, [dep(1), src(2, 'unary', 'cst'), src(1, 'text', 'ref')], 'string', 'cst')]),
    P('deeper', 2, [node('sum', 8, [src(1)]), node('sum', 8, [dep(1)], 'final'), node('sum', 8, [dep(2)], 'variant'),
                    node('sum', 8, [src(2), dep(3)], 'ldouble'), node('sum', 8, [dep(4)]), node('max', 2, [dep(5)])]),
]

VOIDS = [
    P('void0', 1, [node('void', 1, [], 'void', 'st')]),
    P('void1', 2, [node('void', 1, [src(1, 'int', 'lam'), src(2, 'string', 'mut')], 'void', 'mut')]),
    P('void2', 2, [node('max', 2, [src(1, 'spy', 'st')], 'spy', 'st'),
                   node('void', 1, [dep(1), src(2, 'int', 'empty'), val(1, 'pair')], 'void', 'empty')]),
    P('void3', 1, [node('void', 1, [src(1, 'optional', 'ptr')], 'void', 'ptr')]),
    P('void4', 2, [node('void', 1, [src(1, 'int', 'lam')], 'void', 'lam'),
                   node('sum', 3, [dep(1), src(2, 'int', 'st')], 'int', 'emptymut')]),
    P('void5', 1, [node('sum', 2, [src(1, 'short', 'fn')], 'tuple2', 'fn'),
                   node('void', 1, [dep(1)], 'void', 'fn')]),
]


def explanations(nodes):
    """In how many orders (roughly) the parts of the last object can be called
    such that a recorded run does not tell them apart."""
    leaves = []     # per node: the nodes below whose functions may come first
    ways = []
    for n, nd in enumerate(nodes, 1):
        ds = [d['n'] - 1 for d in nd['deps'] if d['k'] == 'lazy']
        w = 1
        for d in ds:
            w *= ways[d]
        for k, d in enumerate(ds):
            w *= 1 + sum(1 for e in ds[:k] if leaves[e] & leaves[d])
        ways.append(w)
        leaves.append({n}.union(*(leaves[d] for d in ds)) if ds else {n})
    return ways[-1]


def random_program(rng, name, types=None, voids=False, kinds=None):
    """A program of 1 to 4 nodes, drawn at random."""
    while True:
        p = any_program(rng, name, types, voids, kinds)
        if explanations(p['nodes']) <= 3:
            return p


def any_program(rng, name, types=None, voids=False, kinds=None):
    types = types or ['int', 'long', 'char', 'double', 'string', 'pair', 'tuple2', 'tuple1', 'optional', 'vector',
                      'array', 'big', 'enum', 'ptr', 'shared', 'noisy', 'zero', 'float', 'short', 'size', 'spy', 'spy', 'aligned', 'final', 'virt', 'nested', 'variant', 'ldouble', 'unary', 'text']
    kinds = kinds or ['st', 'heap', 'fat', 'ref', 'cst', 'empty', 'emptymut', 'lam', 'mut', 'ptr', 'fn']
    nvars = rng.choice([1, 2, 2, 3])
    nodes = []
    total = rng.choice([1, 2, 2, 3, 3, 4])
    for n in range(1, total + 1):
        k = rng.choice([1, 1, 2, 2, 3, 4]) if n > 1 else rng.choice([0, 1, 1, 2, 3, 5])
        deps = []
        for i in range(k):
            r = rng.random()
            if n > 1 and (r < 0.5 or i == 0):
                deps.append(dep(rng.randrange(max(1, n - 2), n)))
            elif r < 0.85:
                deps.append(src(rng.randrange(1, nvars + 1), rng.choice(types), rng.choice(kinds)))
            else:
                deps.append(val(rng.randrange(1, nvars + 1), rng.choice(types)))
        if n > 1:
            rng.shuffle(deps)
        f = rng.choice(['sum', 'max', 'pos', 'pos', 'first', 'const'])
        m = rng.choice([2, 3, 9, 27])
        t = rng.choice(types)
        if voids and n == total:
            f, t, m = 'void', 'void', 1
        nodes.append(node(f, m, deps, t, rng.choice(kinds)))
    return P(name, nvars, nodes)


def retyped(prog, t, name=None):
    """The same program with one type everywhere (where there is a value)."""
    import copy
    q = copy.deepcopy(prog)
    q['name'] = name or prog['name'] + '_' + t
    for n in q['nodes']:
        if n['t'] != 'void':
            n['t'] = t
        for d in n['deps']:
            if 't' in d:
                d['t'] = t
    return q


def rekinded(prog, rng, kinds, name=None):
    import copy
    q = copy.deepcopy(prog)
    q['name'] = name or prog['name'] + '_k'
    for n in q['nodes']:
        n['fk'] = rng.choice(kinds)
        for d in n['deps']:
            if 'sk' in d:
                d['sk'] = rng.choice(kinds)
    return q


def random_script(rng, prog, nvals, length, ops, maxobjs=1):
    """A script of the given length: everything is made (in between, variables
    change), then calls alternate with changes and with whatever `ops' names."""
    nodes, nvars = prog['nodes'], prog['nvars']
    objs = []  # node or None (dropped)
    s = []

    def set_():
        s.append(['set', rng.randrange(1, nvars + 1), rng.randrange(nvals)])

    def make(n):
        ds = []
        for d in nodes[n - 1]['deps']:
            if d['k'] == 'lazy':
                c = [o for o, m in enumerate(objs, 1) if m == d['n']]
                if not c:
                    return
                ds.append(rng.choice(c))
            else:
                ds.append(0)
        s.append(['make', n, ds])
        objs.append(n)

    def live():
        return [o for o, m in enumerate(objs, 1) if m]

    for n in range(1, len(nodes) + 1):
        for _ in range(rng.randrange(3)):
            set_()
        make(n)
        if 'early' in ops and rng.random() < 0.5:
            s.append(['call', rng.choice(live())])
    top = len(objs)
    weights = {'call': 45, 'set': 35, 'copy': 5, 'move': 3, 'drop': 2, 'remake': 5, 'throw': 12, 'mid': 8, 'nest': 12, 'cmp': 6, 'cpy': 6}
    names = [o for o in weights if o in ops or o in ('call', 'set')]
    ws = [weights[o] for o in names]
    places = [(n, i) for n, nd in enumerate(nodes, 1) for i in range(len(nd['deps']) + 1)
              if i == 0 or nd['deps'][i - 1]['k'] == 'src']
    while len(s) < length:
        op = rng.choices(names, ws)[0]
        lv = live()
        if op == 'set':
            set_()
        elif op == 'call':
            tops = [o for o in lv if objs[o - 1] == len(nodes)] if 'top' in ops else lv
            if tops:
                s.append(['call', rng.choice(tops)])
        elif op == 'remake':
            if len(objs) < maxobjs:
                make(rng.randrange(1, len(nodes) + 1))
        elif op == 'nest':
            n, i = rng.choice(places)
            s.append(['arm', n, i, 'call', rng.choice(lv)])
        elif op in ('copy', 'move'):
            if len(objs) < maxobjs:
                o = rng.choice(lv)
                s.append([op, o])
                objs.append(objs[o - 1])
                if op == 'move':
                    objs[o - 1] = None
        elif op == 'drop':
            o = rng.choice(lv)
            if sum(1 for x in lv if objs[x - 1] == objs[o - 1]) > 1:
                s.append(['drop', o])
                objs[o - 1] = None
        else:
            n, i = rng.choice(places)
            if op == 'throw':
                s.append(['arm', n, i, 'throw'])
            elif op == 'mid':
                s.append(['arm', n, i, 'set', rng.randrange(1, nvars + 1), rng.randrange(nvals)])
            elif op == 'cmp':
                s.append(['arm', n, i, 'cmp'])
            elif op == 'cpy':
                s.append(['arm', n, i, 'copy'])
    return s
