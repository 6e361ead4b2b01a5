"""C23: questions about calls and types have answers."""
import random

from pv import *
import replay as rp
from applies import run_programs

TYPES = {'int': 'int', 'str': 'std::string', 'dbl': 'double', 'any': 'rt::Any', 'empty': 'rt::Empty<1>'}
VALUES = {'int': '1', 'str': 'std::string{"x"}', 'dbl': '1.5', 'empty': 'rt::Empty<1>{}'}
HOW = {'v': '{}', 'c': 'const {} &', 'l': '{} &', 'r': '{} &&', 'lv': '{} &', 'clv': 'const {} &', 'rv': '{} &&', 'crv': 'const {} &&'}
FN = {'': 'Plain', 'c': 'Const', 'l': 'Lvalue', 'r': 'Rvalue', 'cl': 'ConstLvalue'}
KINDS = {'int': 'int', 'str': 'std::string', 'fun': 'decltype(rt::fun)', 'cap': 'decltype(rt::cap)', 'empty': 'rt::Empty<1>', 'ct0': 'pigro::compressed_tuple<>',
         'ct1': 'pigro::compressed_tuple<int>', 'ct2': 'pigro::compressed_tuple<int, rt::Empty<1>>',
         'cte': 'pigro::compressed_tuple<rt::Empty<1>, rt::Empty<1>>', 'st0': 'std::tuple<>', 'st2': 'std::tuple<int, rt::Empty<1>>',
         'pair': 'std::pair<int, std::string>', 'arr': 'std::array<int, 3>'}


def cxx(p):
    return 'rt::Any' if p[0] == 'any' else HOW[p[1]].format(TYPES[p[0]])


def code(rng, c):
    f = c['form']
    if f == 'type':
        t = KINDS[c['type']]
        return f'    rt::ask_type<{t if c["q"] == "v" else "const " + t if c["q"] == "c" else HOW[c["q"]].format(t)}>();'
    if f == 'shape':
        ts = [('const ' + TYPES[t]) if h == 'k' else HOW[h].format(TYPES[t]) for t, h in c['own']]
        vs = [VALUES[t] if h in 'vk' else {'int': 'rt::an_int', 'str': 'rt::a_str'}[t] for t, h in c['own']]
        return f'    rt::ask_shape(pigro::compressed_tuple<{", ".join(ts)}>{{ {", ".join(vs)} }}, std::make_index_sequence<{len(ts)}>{{}});'
    fn = f'rt::{FN[c["fn"]["q"]]}<{", ".join(map(cxx, c["fn"]["ps"]))}>'
    if rng.random() < 0.5 and c['fn']['q'] not in ('r',):
        fn = f'rt::Stateful<{fn}>'
    ts = [TYPES[t] for t in c['own']]
    vs = [VALUES[t] for t in c['own']]
    tup = ('pigro::compressed_tuple' if c['holder'] == 'ct' else 'std::tuple') + f'<{", ".join(ts)}>{{ {", ".join(vs)} }}'
    args = ''.join(', ' + HOW[a[1]].format(TYPES[a[0]]) for a in c['args'])
    make = {'front': f'pigro::operator>>({tup}, {fn}{{}})', 'back': f'pigro::operator<<({tup}, {fn}{{}})',
            'bback': f'pigro::bind_back({", ".join([fn + "{}"] + vs)})',
            'uncap': f'pigro::uncaptured({", ".join(vs)}) >> {fn}{{}}', 'recursive': f'pigro::recursive{{ {fn}{{}} }}',
            'apply': tup, 'get': tup}[f]
    q = HOW[c['obj']].format('decltype(o)')
    ask = {'apply': f'rt::ask_apply<{q}>({fn}{{}}, o)', 'get': f'rt::ask_get<{c.get("i")}, {q}>(o)'}.get(f, f'rt::ask<{q}{args}>(o)')
    return f'    {{ auto o = {make}; {ask}; }}'


def sensible(c):
    """A single value is not a case of uncaptured(values...)."""
    return c['form'] != 'uncap' or bool(c['own'])


def random_case(rng):
    f = rng.choice(['front', 'back', 'bback', 'uncap', 'apply', 'recursive'])
    obj = rng.choice({'uncap': ['lv', 'clv', 'rv'], 'apply': ['lv', 'clv', 'rv'], 'recursive': ['lv', 'clv', 'rv', 'crv']}.get(f, ['lv', 'rv']))
    own = [rng.choice(['int', 'str', 'dbl']) for _ in range(0 if f == 'recursive' else rng.choice([0, 1, 2, 3, 4, 5, 5, 9, 12]))]
    args = [[rng.choice(['int', 'str', 'dbl']), rng.choice('lcr')] for _ in range(0 if f == 'apply' else rng.randint(0, 4))]
    k = obj in ('clv', 'crv')
    o = [[t, 'c' if k else 'r' if f == 'apply' and obj == 'rv' else 'l'] for t in own]
    alls = o + args if f == 'front' else args + o
    ps = []
    for t, h in alls:
        forms = ['v', 'c'] + ({'l': ['l'], 'r': ['r'], 'c': []}[h])
        ps.append(rng.choice([[t, rng.choice(forms)], [t, rng.choice(forms)], ['any', 'v'], ['dbl' if t == 'int' else t, 'v']]))
    if f == 'recursive':
        ps.insert(0, ['any', 'v'])
    # break it half of the time
    if rng.random() < 0.5:
        b = rng.randrange(4)
        if b == 0:
            ps.append(['any', 'v'])
        elif b == 1 and ps:
            ps.pop(rng.randrange(len(ps)))
            if f == 'recursive' and (not ps or ps[0] != ['any', 'v']):
                ps.insert(0, ['any', 'v'])
        elif ps:
            i = rng.randrange(1 if f == 'recursive' else 0, len(ps)) if len(ps) > (f == 'recursive') else None
            if i is not None:
                ps[i] = [rng.choice(['int', 'str', 'dbl']), rng.choice('vclr')]
    q = rng.choice(['', 'c', 'l', 'r', 'cl'] if f == 'recursive' else ['', 'c'])
    return {'form': f, 'holder': rng.choice(['ct', 'tup']), 'obj': obj, 'fn': {'ps': ps, 'q': q}, 'own': own, 'args': args}


def c23(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    cs = rp.cases(work, cov, 'Ask', {}, props=['Sane'])
    by = {}
    for c in cs:
        if sensible(c):
            by.setdefault((c['form'], c.get('obj', '')), []).append(c)
    items = []
    for k, part in sorted(by.items()):
        rng.shuffle(part)
        # those with the right number of arguments are the interesting ones
        part.sort(key=lambda c: 'fn' in c and abs(len(c['fn']['ps']) - len(c['own']) - len(c['args']) - (c['form'] == 'recursive')))
        n = len(part) if k[0] == 'type' else 60 if quick else 700
        items += part[:n - n // 4] + rng.sample(part[n - n // 4:], min(n // 4, max(0, len(part) - (n - n // 4))))
    n = 0
    while n < (250 if quick else 4000):
        c = random_case(rng)
        if sensible(c):
            items.append(c)
            n += 1
    for _ in range(40 if quick else 400):
        n = rng.randint(4, 14)
        items.append({'form': 'get', 'holder': 'ct', 'obj': rng.choice(['lv', 'clv', 'rv', 'crv']), 'fn': {'ps': [], 'q': 'c'}, 'own': [rng.choice(['int', 'str', 'empty']) for _ in range(n)],
                      'args': [], 'i': rng.choice([rng.randrange(n), n - 1, n, n + 1])})
    for _ in range(20 if quick else 300):
        items.append({'form': 'shape', 'own': [[rng.choice(['int', 'str']), rng.choice('vklc')] if rng.random() < 0.8 else ['empty', 'v'] for _ in range(rng.randint(4, 12))]})
    rng.shuffle(items)
    run_programs(work, cov, 'Ask', 'ask_rt.h', 'ask', [(c, code(rng, c)) for c in items], per=60)
    cov.notes.append(f'{len(items)} questions')


CHECKS = {'C23': c23}
