"""P19: lists of types."""
import random

from pv import *
import replay as rp
from applies import run_programs

CXX = {1: 'int', 2: 'void', 3: 'const char &', 4: 'rt::Empty<1>', 5: 'std::string', 6: 'int[]', 7: 'int()', 8: 'pigro::typelist<int>', 9: 'const int'}


def build(lst, more, sel):
    def tl(ts):
        return 'pigro::typelist<' + ', '.join(CXX[t] for t in ts) + '>{}'
    mask = sum(1 << t for t in sel)
    return {'list': lst, 'more': more, 'sel': sorted(sel)}, f'    rt::partition<{mask}>({tl(lst)}, {tl(more)});'


def p19(work, tier, cov):
    quick = tier == 'quick'
    rng = random.Random(seed())
    cs = rp.cases(work, cov, 'Partition', {}, props=['Sane'])
    rng.shuffle(cs)
    small = [c for c in cs if len(c['list']) < 3]
    cs = small + [c for c in cs if len(c['list']) >= 3][:300 if quick else 3000]
    lists = [c['list'] for c in cs]
    items = [build(c['list'], rng.choice(lists), c['sel']) for c in cs]
    for _ in range(100 if quick else 1500):
        items.append(build([rng.randint(1, 9) for _ in range(rng.randint(3, 16))], [rng.randint(1, 9) for _ in range(rng.randint(0, 9))],
                           [t for t in CXX if rng.random() < 0.5]))
    run_programs(work, cov, 'Partition', 'partition_rt.h', 'partition', items, per=120)
    cov.notes.append(f'{len(items)} lists')


CHECKS = {'P19': p19}
