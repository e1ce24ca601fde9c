"""What each property generates, compares and counts as non-trivial."""
import itertools, os, random
from core import *
from gen import *
from emit import Program
from run import Unit, Session, CONFIGS

CONF = ['g1', 'c1', 'gs', 'g2', 'c0', 'cs', 'g0a', 'c1']
ALLV = ['char', 'char', 'int', 'char', 'wchar_t', 'char', 'St', 'char16_t', 'char8_t', 'unsigned char', 'En', 'char32_t', 'short', 'long', 'unsigned', 'signed char']
FEW = ['char', 'char', 'char', 'int', 'char', 'wchar_t', 'char', 'St']


class Maker:
    """collects the programs of one unit"""

    def __init__(self, rng, vt, rules=None, config='g1', ut=None, prefix='p', **pk):
        self.rng, self.vt, self.rules, self.config, self.pk, self.ut = rng, vt, rules if rules is not None else {}, config, pk, ut
        self.programs, self.seen, self.dropped, self.prefix = [], set(), 0, prefix

    def g(self, **k):
        k.setdefault('weights', {})
        if self.rules and 'cust' not in k['weights']:
            k['weights'] = dict(k['weights'], cust=2)
        return G(self.rng, self.vt, self.rules, **k)

    def add(self, tree, env=None, label='', **k):
        if tree is None:
            return False
        env = env or Env(self.vt, self.rules)
        kw = dict(self.pk)
        kw.update(k)
        try:
            core = to_core(tree, env)
            check(core, env)
            # (a sanitizing g++ rejects constant expressions it otherwise accepts: comparisons of addresses with null)
            if kw.get('consts') and (self.config == 'gs' or os.environ.get('VH_STD') or not const_ok(core, env, CONFIGS[self.config][0])):
                if kw.pop('consts_only', False):
                    return False
                kw['consts'] = 0
            kw.pop('consts_only', None)
            p = Program('%s%d' % (self.prefix, len(self.programs)), tree, env, label=label, ut=self.ut, seed=self.rng.randrange(1 << 30), **kw)
        except Invalid:
            self.dropped += 1
            return False
        if (p.ast, p.cxx) in self.seen:
            return False
        self.seen.add((p.ast, p.cxx))
        self.programs.append(p)
        return True

    def fill(self, n, f, tries=400):
        """add programs made by f until there are n"""
        for _ in range(tries):
            if len(self.programs) >= n:
                break
            try:
                self.add(f())
            except Invalid:
                pass

    def unit(self, name, cases=1200, opts=()):
        return Unit(name, self.programs, self.rules, self.config, cases, opts)


def retell(t, old, new):
    """the expression with the elements of one alphabet replaced by those of another"""
    table = dict(zip(old, list(new) + list(old)))

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == 'lit':
                return x[:3] + (tuple(table.get(c, c) for c in x[3]),) + x[4:]
            return tuple(walk(y) for y in x)
        return x
    return walk(t)


def combos(m, rng, outer, i, n, parts=8, inner=G.SHAPES, rnd=0, reps=1, **kw):
    """n programs: every (operation, kind of operand, with or without a value) in turn, dealt over the units of one round and the rounds"""
    everything = [x for x in itertools.product(outer, inner, (True, False)) for _ in range(reps)]
    random.Random(4711 + len(everything)).shuffle(everything)
    mine = spread(everything, parts)[i]
    start = (rnd * n) % len(mine)
    added = 0
    for how, op, valued in (mine + mine)[start:start + n]:
        for _ in range(8):
            g = m.g(maxsize=40)
            try:
                t = g.over(how, g.shape(op, valued), valued)
                g.ok(t)
            except (Invalid, KeyError):
                continue
            if m.add(t, **kw):
                added += 1
                break
    return added


def actives(m, rng, i, n, rnd=0, parts=8, places=G.PLACES, **kw):
    """n programs: valueless expressions in which the user's functions decide or leave a trace, every shape in every place in turn"""
    everything = list(itertools.product(places, G.ACTIVE))
    random.Random(815 + len(everything)).shuffle(everything)
    mine = spread(everything, parts)[i]
    start = (rnd * n) % len(mine)
    for where, how in (mine + mine + mine)[start:start + n]:
        for _ in range(8):
            g = m.g(maxsize=40)
            g.new_alphabet(2)
            try:
                t = g.among(where, g.active(how))
                if rng.random() < 0.3:
                    t = g.among(rng.choice(('>>', '|', '+', '*', 'delimit_keep')), t) if g.type(t) == 'v' else g.embed(t, 1)
                g.ok(t)
            except (Invalid, KeyError):
                continue
            if m.add(t, **kw):
                break


LARGE = (('lit', (33, 65, 130, 257, 300, 600)), ('seq', (17, 33, 40, 64, 65, 66, 80)), ('cho', (17, 33, 40, 64, 65, 66, 80)), ('exactly', (33, 64, 65, 130, 256, 257, 300)), ('set', (17, 33, 65, 100)),
         ('row', (9, 17, 33, 36)), ('cho2', (17, 33, 65, 70)), ('seqv', (17, 33, 65)))


def large(m, rng, i, n, rnd=0, kinds=None, wraps=('', '', '', 'ignore', 'complete', 'name', '>>', '|', '~'), **kw):
    """n programs: large literals, sets, counts, sequences and choices, every kind in turn"""
    mine = [x for x in LARGE if kinds is None or x[0] in kinds]
    for j in range(n):
        turn = i * n + j + rnd * 3
        kind, sizes = mine[turn % len(mine)]
        n1 = sizes[(turn // len(mine) + rnd) % len(sizes)] if rng.random() < 0.5 else rng.choice(sizes)
        for _ in range(6):
            g = m.g(maxsize=600, maxtype=150)
            g.new_alphabet(rng.choice([3, 5]))
            simple = lambda: g.of_type(rng.choice([0, 0, 1, 2, 3, 6, rng.randrange(g.KINDS)]), [g.c()], rng.choice(['any', 'all']))
            tags = [x for x in g.tags if x in ('ob', 'mo', 'co', 'int')] or ['ob']
            obj = lambda: g.mod(('map', ('dig', rng.choice(tags), g.K(), 0, False)), g.lit(rng.choice(['any', 'all']), [g.c()]))
            try:
                if kind == 'lit':
                    t = g.lit(rng.choice(['all', 'all', 'ign']), [g.c() for _ in range(n1)])
                elif kind == 'set':
                    lo, hi = DOM[m.vt]
                    t = g.lit(rng.choice(['any', 'none']), rng.sample(range(max(lo, -3000), min(hi, 3000) + 1), n1) if hi - lo > 120 else [g.c()])
                elif kind == 'exactly':
                    t = g.mod(('exactly', n1), rng.choice([g.leaf('any'), g.lit('ign', [g.alpha[0]]), g.lit('all', [g.alpha[0]])]))
                elif kind == 'seq':
                    some = set(rng.sample(range(n1), rng.choice([1, 2, 5, 8])) + [n1 - 1])
                    t = g.group('>>', [simple() if x in some else g.lit('ign', [g.c()]) for x in range(n1)])
                elif kind == 'seqv':
                    t = g.group('>>', [g.lit('ign', [g.c()]) for _ in range(n1)])
                elif kind == 'row':
                    t = g.group('>>', [obj() if rng.random() < 0.5 else g.lit('any', [g.c()]) for _ in range(n1)])
                else:
                    words = sorted({tuple(g.c() for _ in range(4)) for _ in range(6 * n1)})
                    rng.shuffle(words)
                    one = rng.randrange(g.KINDS)
                    t = g.group('|', [g.of_type(one, list(words[x % len(words)]), 'all') if kind == 'cho' else rng.choice([obj, lambda: g.lit('ign', list(words[x % len(words)]))])() if x % 9 == 4 else
                                      g.lit('all', list(words[x % len(words)])) for x in range(n1)])
                how = rng.choice(wraps)
                t = {'': lambda: t, '>>': lambda: ('>>', t, g.leaf('any')), '|': lambda: ('|', t, g.leaf('any')), '~': lambda: (rng.choice('~~+'), t), 'name': lambda: g.mod(('name', 'n0'), t)}.get(how, lambda: g.mod((how,), t))()
                g.ok(t)
            except (Invalid, KeyError):
                continue
            if m.add(t, label='large', consts=0, **kw):
                break


def seeds(prop, seed, tag):
    return random.Random('%s/%s/%s' % (prop, seed, tag))


def spread(items, n):
    """items dealt over n lists"""
    return [items[i::n] for i in range(n)]


# ------------------------------------------------------------------ C01
def c01(seed, tier, rnd):
    units = []
    vts = ['char', 'int', 'wchar_t', 'St', 'char8_t', 'char16_t', 'En', 'char32_t', 'unsigned char', 'short', 'long', 'unsigned', 'signed char', 'double', 'bool', 'char']
    for i in range(8):
        rng = seeds('C01', seed, '%d/%d' % (rnd, i))
        vt = 'char' if i in (0, 4) else vts[(i + rnd * 5 + seed) % len(vts)]
        m = Maker(rng, vt, config=CONF[(i + rnd) % 8], raw=True, consts=2)
        g = m.g()
        lo, hi = DOM[vt]
        step = lambda n: sorted(rng.sample(range(max(lo, -20000), min(hi, 20000) + 1), n))
        # long literals, up to and past the usual small sizes
        for n in [rng.choice([7, 8, 9]), rng.choice([15, 16, 17]), rng.choice([31, 32, 33, 40]), rng.choice([63, 64, 65, 100, 129, 200]), [255, 256, 257, 300, 320, 512, 384, 260][(i + rnd + seed) % 8], 256 * (1 + (i + rnd) % 3)]:
            g.new_alphabet(rng.choice([1, 2, 4]))
            m.add(g.lit(rng.choice(['all', 'all', 'ign']), [g.c() for _ in range(n)]), label='long')
        # sets: many elements, spelled out of order with repetitions
        for n in [rng.choice([4, 5, 6]), rng.choice([15, 16, 17, 20]), rng.choice([33, 64, 70]), rng.choice([127, 128, 130, 200]), [255, 256, 257, 300][(i + rnd + seed) % 4]]:
            codes = step(max(1, min(n, (hi - lo) // 2)))
            rng.shuffle(codes)
            codes += [rng.choice(codes) for _ in range(rng.randrange(4))]
            m.add(g.lit(rng.choice(['any', 'none']), codes), label='large set')
        # a very long literal, a very large set
        if (i + rnd) % 4 == 1:
            g.new_alphabet(rng.choice([2, 4]))
            m.add(g.lit(rng.choice(['all', 'all', 'ign']), [g.c() for _ in range([1023, 1024, 1025, 1500, 2048, 2049, 4096, 4097][(i // 4 + rnd + seed) % 8])]), label='very long', consts=0)
        if (i + rnd) % 4 == 3 and hi - lo > 5000:
            codes = step([511, 513, 1000, 1025, 600, 700][(i // 4 + rnd + seed) % 6])
            rng.shuffle(codes)
            m.add(g.lit(rng.choice(['any', 'none']), codes), label='very large set', consts=0)
        # the whole domain but one element, where that is small
        if hi - lo <= 255:
            x = rng.randrange(lo, hi + 1)
            m.add(g.lit('any', [c for c in range(lo, hi + 1) if c != x]))
            m.add(('!', g.lit('none', [c for c in range(lo, hi + 1) if c != x])))
        # special elements in each role and style
        specials = [c for c in {0, 1, 9, 10, 34, 39, 63, 92, 127, 128, 255, 256, 65535, lo, hi, -1, -128, lo + 1, hi - 1} if lo <= c <= hi]
        for c in rng.sample(sorted(specials), min(6, len(specials))):
            kind = rng.choice(['any', 'none', 'all', 'ign'])
            others = [rng.choice(sorted(specials)) for _ in range(rng.randrange(3))]
            codes = [c] + others
            rng.shuffle(codes)
            m.add(('lit', kind, vt, tuple(codes), rng.choice([0, 1, 2, 3, 4])))
        for kind in ('any', 'none', 'all', 'ign'):
            m.add(('lit', kind, vt, (), rng.choice([0, 1, 2, 4])))
        m.add(('anything', vt))
        m.add(('epsof', vt))
        m.add(('!', ('!', g.lit('any', [g.c(), g.c()]))))
        m.add(('!', g.lit(rng.choice(['any', 'none']), [g.c(), g.c(), g.c()])))
        while len(m.programs) < 34:
            g.new_alphabet()
            t = g.leaf(rng.choice(['any', 'none', 'all', 'ign', 'any', 'none']))
            if rng.random() < 0.3:
                t = g.embed(t, 1)
            m.add(t)
        units.append(m.unit('u%d-%d' % (rnd, i), 900 if vt != 'char' else 1400, ['--singles', 1]))
    return units


# ------------------------------------------------------------------ C02
def c02(seed, tier, rnd):
    units = []
    patterns = [p for n in (2, 3, 4, 5) for p in itertools.product([0, 1], repeat=n)]
    for i in range(8):
        rng = seeds('C02', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], raw=True, consts=2)
        for pat in spread(patterns, 8)[i]:
            g = m.g(maxsize=60, maxtype=40)
            parts = []
            for j, v in enumerate(pat):
                if v:
                    parts.append(g.of_type(rng.randrange(g.KINDS), [g.c()]) if rng.random() < 0.7 else g.valued(1))
                else:
                    parts.append(g.void(1))
            m.add(g.group('>>', parts))
        # wide ones
        for n in [rng.choice([6, 7, 8]), rng.choice([9, 10, 11, 12]), rng.choice([16, 17, 20]), rng.choice([24, 33])]:
            g = m.g(maxsize=200, maxtype=90)
            parts = [g.of_type(rng.randrange(g.KINDS), [g.c()], rng.choice(['any', 'all'])) if rng.random() < 0.75 else g.void(0) for _ in range(n)]
            m.add(g.group('>>', parts))
        # a very wide one
        if (i + rnd) % 2:
            g = m.g(maxsize=400, maxtype=150)
            n = [64, 65, 66, 80, 100, 129][(i // 2 + rnd + seed) % 6]
            some = set(rng.sample(range(n), rng.choice([1, 2, 5, 12])) + rng.sample([0, n - 1, 63, n // 2], 1))
            m.add(g.group('>>', [g.of_type(rng.choice([0, 0, 1, 2, 3, 6]), [g.c()], rng.choice(['any', 'all'])) if j in some else g.lit('ign', [g.c()]) for j in range(n)]), consts=0)
        # rows of equal or alternating parts
        for n in [rng.choice([2, 3]), rng.choice([4, 5]), rng.choice([6, 7, 8]), rng.choice([9, 12, 17])]:
            g = m.g(maxsize=90, maxtype=60)
            m.add(g.group('>>', g.row(rng.choice([0, 0, 1]) if n < 9 else 0, n)))
        m.fill(30, lambda: (lambda g: g.embed(g.tree(3, 'seq')))(m.g(maxsize=40)))
        combos(m, rng, ['seq'], i, 24, rnd=rnd + seed, reps=6, consts=0)
        actives(m, rng, i, 8, rnd=rnd + seed, places=['>>'] * 4, consts=0)
        units.append(m.unit('u%d-%d' % (rnd, i)))
    return units


# ------------------------------------------------------------------ C03
# numbers of the same size, or that differ only in sign (see G.of_type)
LOOKALIKE = [[7, 12, 21], [2, 18, 9], [4, 8, 20], [8, 20, 19], [12, 7], [18, 2], [20, 8], [12, 21], [3, 15], [0, 13]]


def growth(n):
    """restricted growth strings with gaps: every pattern of equal/different/absent value types"""
    def rec(prefix, m):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for x in range(-1, m + 1):
            yield from rec(prefix + [x], max(m, x + 1))
    return list(rec([], 0))


def c03(seed, tier, rnd):
    units = []
    patterns = growth(2) + growth(3) + growth(4)
    for i in range(8):
        rng = seeds('C03', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], raw=True, consts=2)
        mine = spread(patterns, 8)[i]
        if len(mine) > 20 and tier == 'quick':
            mine = rng.sample(mine, 20)
        for pat in mine:
            g = m.g(maxsize=60, maxtype=40)
            g.new_alphabet(5)
            perm = rng.sample(range(g.KINDS), 8)
            if rng.random() < 0.5:
                # value types that are easily taken for one another first: numbers, objects, pieces of input
                fam = rng.choice([[2, 4, 7, 8, 12, 9, 18, 19, 20, 21], [3, 6, 10, 15, 13, 14], [0, 1, 5, 11, 17], *rng.sample(LOOKALIKE, 3)])
                perm = list(dict.fromkeys(rng.sample(fam, len(fam)) + perm))
            parts = []
            for x in pat:
                codes = [g.c()] + ([g.c()] if rng.random() < 0.3 else [])
                if x < 0:
                    parts.append(g.void(0) if rng.random() < 0.7 else g.mod(('ignore',), g.of_type(rng.randrange(g.KINDS), codes)))
                else:
                    parts.append(g.of_type(perm[x], codes, 'all' if len(codes) > 1 else rng.choice(['any', 'all'])))
            t = g.group('|', parts)
            if rng.random() < 0.35:
                t = ('|eps', t)
            m.add(t)
        for n in [rng.choice([5, 6, 7]), rng.choice([8, 9, 10]), rng.choice([12, 16]), rng.choice([17, 20, 24])]:
            g = m.g(maxsize=200, maxtype=90)
            g.new_alphabet(5)
            pool = rng.sample(range(g.KINDS), rng.choice([2, 3, 6, 12]))
            parts = [g.of_type(rng.choice(pool), [g.c(), g.c()], 'all') if rng.random() < 0.85 else g.void(0) for _ in range(n)]
            m.add(g.group('|', parts))
        # a very wide one: few kinds of value, many alternatives
        if (i + rnd) % 2:
            g = m.g(maxsize=600, maxtype=150)
            n = [33, 40, 64, 65, 66, 100, 130][(i // 2 + rnd + seed) % 7]
            g.new_alphabet(6)
            pool = rng.sample(range(g.KINDS), rng.choice([1, 1, 2]))
            odd = set(rng.sample(range(n), rng.choice([0, 1, 2])))
            # (each one a word of its own, so that each can be the first that fits)
            words = sorted({tuple(g.c() for _ in range(5)) for _ in range(4 * n)})
            rng.shuffle(words)
            m.add(g.group('|', [g.lit('ign', words[j % len(words)]) if j in odd else g.of_type(pool[j % len(pool)], list(words[j % len(words)]), 'all') for j in range(n)]), consts=0)
        # choices of one kind of matcher only, one of which may match nothing
        for kind in ('all', 'ign', 'any', 'mixed', 'exactly', 'plus'):
            g = m.g()
            n = rng.choice([2, 3, 4, 5])
            parts = []
            for j in range(n):
                k = rng.choice(['all', 'ign']) if kind == 'mixed' else 'all' if kind in ('exactly', 'plus') else kind
                t = g.lit(k, [g.c() for _ in range(rng.choice([1, 1, 2, 3]))])
                parts.append(g.mod(('exactly', rng.choice([1, 2])), t) if kind == 'exactly' else ('+', t) if kind == 'plus' else t)
            if rng.random() < 0.7 and kind in ('all', 'ign', 'mixed'):
                parts[rng.choice([0, n - 1, n - 1])] = g.lit(rng.choice(['all', 'ign']) if kind == 'mixed' else kind, [])
            m.add(g.group('|', parts))
        m.fill(30, lambda: (lambda g: g.embed(g.tree(3, rng.choice(['cho', 'cho', 'choeps']))))(m.g(maxsize=40)))
        combos(m, rng, ['cho', 'cho', 'choeps'], i, 24, rnd=rnd + seed, reps=3, consts=0)
        actives(m, rng, i, 8, rnd=rnd + seed, places=['|', '|', '|', '|eps'], consts=0)
        units.append(m.unit('u%d-%d' % (rnd, i)))
    return units


# ------------------------------------------------------------------ C04
def c04(seed, tier, rnd):
    units = []
    for i in range(8):
        rng = seeds('C04', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], raw=True, consts=3)
        for op in ('~', '+', '*', 'x'):
            for kind in range(4):
                g = m.g(maxsize=60, maxtype=40)
                inner = [lambda: g.leaf(rng.choice(['any', 'none', 'all', 'anything'])), lambda: g.of_type(rng.randrange(g.KINDS), [g.c()]), lambda: g.void(1), lambda: g.tree(2)][kind]()
                if op == 'x':
                    n = rng.choice([1, 2, 3, 4, 5, 8, 12, 16, 17, 33, 64])
                    t = g.mod(('exactly', n), inner)
                else:
                    t = (op, inner)
                if rng.random() < 0.3:
                    t = g.mod(('join',), t)
                m.add(t)
                m.add(g.embed(t, 1))
        for n in (130, 260, 300, [1000, 1023, 1024, 1025][(i + rnd + seed) % 4]):
            m.add(m.g().mod(('exactly', n), m.g().leaf('any')), consts=0)
        m.fill(38, lambda: (lambda g: g.embed(g.tree(3, rng.choice(['maybe', 'plus', 'star', 'exact']))))(m.g()))
        combos(m, rng, ['~', '+', '*', 'exactly'], i, 19, rnd=rnd + seed, consts=0)
        actives(m, rng, i, 7, rnd=rnd + seed, places=['~', '+', '*', 'exactly'], consts=0)
        units.append(m.unit('u%d-%d' % (rnd, i), 1200, ['--longest', 66000 if i % 2 else 5000]))
    return units


# ------------------------------------------------------------------ C05
def c05(seed, tier, rnd):
    units = []
    for i in range(8):
        rng = seeds('C05', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], raw=True, consts=3)
        for form in ('delimit', 'delimit_keep'):
            for pv in (0, 1, 2):
                for dv in (0, 1, 2):
                    g = m.g(maxsize=60, maxtype=40)
                    g.new_alphabet(rng.choice([2, 3]))
                    pick = lambda v, k: g.void(1) if v == 0 else g.of_type(rng.randrange(g.KINDS), [g.c() for _ in range(rng.choice([1, 1, 2]))], rng.choice(['any', 'all'])) if v == 1 else g.valued(2)
                    for _ in range(6):
                        p, d = pick(pv, 0), pick(dv, 1)
                        try:
                            t = g.mod((form, d), p)
                            check(to_core(t, g.env), g.env)
                            break
                        except Invalid:
                            continue
                    m.add(t)
                    if rng.random() < 0.5:
                        m.add(g.embed(t, 1))
        m.fill(34, lambda: (lambda g: g.embed(g.tree(3, rng.choice(['delimit', 'delimit_keep']))))(m.g()))
        combos(m, rng, ['delimit', 'delimit_keep', 'as delimiter'], i, 24, rnd=rnd + seed, reps=2, consts=0)
        actives(m, rng, i, 14, rnd=rnd + seed, places=['delimit', 'delimit_keep', 'as delimit', 'as delimit_keep', 'delimit_keep', 'as delimit_keep'], consts=0)
        units.append(m.unit('u%d-%d' % (rnd, i), 1200, ['--longest', 66000 if i % 2 else 5000]))
    return units


# ------------------------------------------------------------------ C06
def joinable_tree(g, d):
    """an expression whose value is built of pieces only"""
    rng = g.rng
    for _ in range(60):
        t = jt(g, d)
        try:
            g.ok(t)
            if joinable(g.type(t)):
                return t
        except Invalid:
            pass
    return g.leaf('any')


def jt(g, d):
    rng = g.rng
    if d <= 0:
        r = rng.random()
        if r < 0.18:
            return g.mod(('map', (rng.choice(['dropf', 'dropl', 'empt']), g.K())), g.leaf(rng.choice(['all', 'any'])))
        if r < 0.24:
            return ('~', g.leaf('any'))
        if r < 0.28:
            return g.lit('all', [])
        return g.leaf(rng.choice(['any', 'none', 'all', 'anything']))
    op = rng.choice(['seq', 'seq', 'seq', 'cho', 'maybe', 'plus', 'star', 'exact', 'join', 'leaf', 'ignseq', 'name', 'complete', 'filter', 'delimit', 'drop', 'shuffle', 'shuffle', 'shuffle'])
    s = lambda: jt(g, d - 1)
    if op in ('seq', 'ignseq'):
        n = rng.choice([2, 2, 3, 4])
        parts = [s() for _ in range(n)]
        if op == 'ignseq':
            parts.insert(rng.randrange(n + 1), g.void(0))
        return g.group('>>', parts)
    if op == 'cho':
        a = s()
        b = s()
        return ('|', a, b) if rng.random() < 0.8 else ('|eps', a)
    if op in ('maybe', 'plus', 'star'):
        return ({'maybe': '~', 'plus': '+', 'star': '*'}[op], s())
    if op == 'exact':
        return g.mod(('exactly', rng.choice([1, 2, 3, 4])), s())
    if op in ('join', 'complete'):
        return g.mod((op,), s())
    if op == 'name':
        return g.mod(('name', 'n0'), s())
    if op == 'filter':
        return g.mod(('filter', g.K(), g.P()), s())
    if op == 'shuffle':  # pieces out of order, overlapping, repeated, or split
        k = rng.randrange(4)
        if k == 0:
            return g.mod(('map', (rng.choice(['dup', 'overlap', 'halves', 'halves', 'chips', 'chips']), g.K())), g.leaf(rng.choice(['all', 'any', 'all'])) if rng.random() < 0.5 else g.mod(('join',), s()))
        if k == 1:
            return g.mod(('map', ('swap2', g.K())), ('>>', s(), s()))
        return g.mod(('map', ('rev', g.K())), rng.choice([lambda: ('+', s()), lambda: ('*', s()), lambda: g.mod(('exactly', rng.choice([1, 2, 3])), s()), lambda: g.mod(('delimit', g.leaf(rng.choice(['any', 'ign']))), s())])())
    if op == 'delimit':
        return g.mod(('delimit', g.leaf(rng.choice(['any', 'ign']))), s())
    if op == 'drop':
        return g.mod(('map', (rng.choice(['dropf', 'dropl', 'empt']), g.K())), g.mod(('join',), s()))
    return g.leaf()


def c06(seed, tier, rnd):
    units = []
    for i in range(8):
        rng = seeds('C06', seed, '%d/%d' % (rnd, i))
        vt = ['char', 'int', 'char', 'St', 'char', 'wchar_t', 'En', 'long'][(i + rnd) % 8]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], consts=4)
        # the parsers the library has shortcuts for, against every basic parser
        for kind in ('any', 'none', 'all', 'allx'):
            for op in ('~', '+', '*', 'x'):
                g = m.g()
                inner = g.lit('all', [g.c() for _ in range(rng.choice([2, 3]))]) if kind == 'allx' else g.leaf(kind)
                t = g.mod(('exactly', rng.choice([1, 2, 3, 5])), inner) if op == 'x' else (op, inner)
                t = g.mod(('join',), t)
                if rng.random() < 0.4:
                    t = g.embed(t, 1)
                m.add(t)
        # gaps that may be very wide
        for gap in (lambda g: g.mod(('ignore',), (rng.choice('+*'), g.lit('any', [g.alpha[0]]))), lambda g: g.mod(('ignore',), g.mod(('exactly', rng.choice([1, 254, 255, 256, 257, 258, 511, 512])), ('anything', vt))), lambda g: g.mod(('map', (rng.choice(['dropf', 'dropl']), g.K())), g.mod(('join',), ('+', g.lit('any', [g.alpha[0]]))))):
            g = m.g(maxsize=60)
            while len(g.alpha) < 2:
                g.new_alphabet(3)
            x = lambda: g.lit(rng.choice(['any', 'all']), [g.alpha[1]])
            parts = rng.choice([lambda: [x(), gap(g), x()], lambda: [x(), gap(g), x(), x()], lambda: [('*', g.lit('any', [g.alpha[1]])), gap(g), ('~', x())]])()
            m.add(g.mod(('join',), g.group('>>', parts)), consts=0)
        m.fill(44, lambda: (lambda g: g.embed(g.mod(('join',), joinable_tree(g, rng.choice([1, 2, 2, 3]))), rng.choice([0, 0, 0, 1])))(m.g(maxsize=40)))
        combos(m, rng, ['join'], i, 14, rnd=rnd + seed, reps=3, consts=0)
        large(m, rng, i, 1, rnd + seed, kinds=('lit', 'seq', 'exactly', 'set'), wraps=('join',))
        units.append(m.unit('u%d-%d' % (rnd, i), 1200, ['--longest', 66000]))
    return units


# ------------------------------------------------------------------ C07
def c07(seed, tier, rnd):
    units = []
    for i in range(8):
        rng = seeds('C07', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 3)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], consts=2)

        def f():
            g = m.g(weights=dict(map=8, filter=5, join=6, apply=3, cust=4))
            t = g.tree(3)
            how = rng.randrange(6)
            if how < 2:
                t = g.mod(('ignore',), t)
            elif how < 4:
                t = g.mod(('complete',), t)
            else:
                t = g.mod(*[(rng.choice(['ignore', 'complete']),) for _ in range(rng.choice([2, 2, 3]))], t)
            return g.embed(t, rng.choice([0, 0, 1, 1, 2]))
        # each modifier over each kind of parser, with and without a value
        for op, valued, how in spread(list(itertools.product(G.SHAPES, (True, False), ('ignore', 'complete', 'complete'))), 8)[i]:
            g = m.g()
            try:
                t = g.mod((how,), g.shape(op, valued))
                m.add(g.embed(t, 1) if rng.random() < 0.3 else t, consts=0)
            except Invalid:
                pass
        actives(m, rng, i, 6, rnd=rnd + seed, places=['ignore', 'complete'], consts=0)
        large(m, rng, i, 2, rnd + seed, wraps=('ignore', 'complete'))
        m.fill(42, f)
        units.append(m.unit('u%d-%d' % (rnd, i), 1000))
    return units


# ------------------------------------------------------------------ C08
def c08(seed, tier, rnd):
    units = []
    for i in range(8):
        rng = seeds('C08', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 3)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], consts=2)

        def f():
            g = m.g(weights=dict(map=14, filter=8, apply=7, apply_filter=4, cust=3, delimit=4, plus=5), maxsize=34)
            t = g.tree(3, rng.choice(['map', 'map', 'apply', 'filter', 'apply_filter', 'map', None, None]))
            return g.embed(t, rng.choice([0, 1, 1, 2]))
        # each modifier over each class of value
        for op in ('map', 'apply', 'filter', 'apply_filter'):
            for shape in range(6):
                g = m.g(maxsize=40)
                inner = [lambda: g.void(1), lambda: g.leaf('any'), lambda: g.group('>>', [g.valued(1), g.valued(1)]), lambda: g.mod(('exactly', rng.choice([1, 2, 3])), g.valued(1)),
                         lambda: g.mod(('delimit_keep', g.leaf('any')), g.leaf('any')), lambda: g.of_type(rng.randrange(g.KINDS), [g.c()])][shape]()
                try:
                    ty = g.type(inner)
                    if op in ('map', 'apply'):
                        t = g.mod((op, g.fn(ty, op == 'apply')), inner)
                    else:
                        t = g.mod((op, g.K(), g.P()), inner)
                    m.add(g.embed(t, rng.choice([0, 1])))
                except Invalid:
                    pass
        # many parts, each handed over
        for op in ('apply', 'apply into', 'apply void', 'apply_filter'):
            g = m.g(maxsize=200, maxtype=120, tags=('ob', 'mo', 'int', 'u64'))
            n = rng.choice([[13, 16, 17], [20, 24, 25], [31, 32, 33, 64, 65, 66], [36, 40]][(i + rnd) % 4])
            inner = g.mod(('exactly', n), g.leaf('any')) if rng.random() < 0.3 else g.group('>>', [g.of_type(rng.choice([0, 0, 1, 2, 3, 6, 12]), [g.c()], rng.choice(['any', 'all'])) for _ in range(n)])
            f1 = {'apply': lambda: ('apply', ('dig', rng.choice(['ob', 'int']), g.K(), 1, rng.random() < 0.4)), 'apply into': lambda: ('apply', ('into', g.K(), 1)), 'apply void': lambda: ('apply', ('void', g.K(), 1)), 'apply_filter': lambda: ('apply_filter', g.K(), g.P())}[op]()
            m.add(g.mod(f1, inner), consts=0)
        # each kind of predicate over each class of value
        for op, k, shape in spread(list(itertools.product(('filter', 'apply_filter'), range(8), ('all', 'void', 'seq', 'maybe', 'ob', 'exactly'))), 8)[i]:
            g = m.g(maxsize=40)
            g.new_alphabet(3)
            x = lambda: g.lit(rng.choice(['all', 'any']), [g.c() for _ in range(rng.choice([1, 2]))])
            inner = {'all': x, 'void': lambda: g.void(0), 'seq': lambda: ('>>', x(), x()), 'maybe': lambda: ('~', x()), 'ob': lambda: g.mod(('map', ('dig', rng.choice(['ob', 'mo', 'int']), g.K(), 0, False)), x()),
                     'exactly': lambda: g.mod(('exactly', 2), x())}[shape]()
            try:
                m.add(g.embed(g.mod((op, g.K(), k), inner), rng.choice([0, 0, 1])))
            except Invalid:
                pass
        m.fill(40, f)
        combos(m, rng, ['map', 'mapvoid', 'into', 'const', 'dflt', 'apply', 'filter', 'apply_filter'], i, 28, rnd=rnd + seed, consts=0)
        actives(m, rng, i, 26, rnd=rnd + seed, consts=0)
        units.append(m.unit('u%d-%d' % (rnd, i)))
    return units


# ------------------------------------------------------------------ C09
def c09(seed, tier, rnd):
    units = []
    for i in range(8):
        rng = seeds('C09', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], consts=2)
        names = ['n0', 'n1', 'n2', 'n', 'n', 'n00', 'name one', '', 'L:n', 'L:n0', 'u:n0', '#110', '#5', 'n\0', 'n\0x', 'n\0y']

        def f():
            g = m.g(weights=dict(name=14, sub=3, seq=12), maxsize=46)
            # names that are easily taken for one another, or any
            pool = rng.choice([['n0', 'n00', 'n0 '], ['n', 'n0', 'L:n'], ['n\0', 'n\0x', 'n\0y'], ['name one', 'name two', 'name'], ['#5', '#6', ''], ['n0', 'L:n0', 'u:n0'], ['ab', 'ba', 'a']]
                              + [rng.sample(names, rng.choice([1, 2, 3]))] * 4)

            def rename(t):
                if t[0] == 'mod':
                    ms = tuple(('name', rng.choice(pool)) if x[0] == 'name' else (x[0], rename(x[1])) if x[0] in ('delimit', 'delimit_keep') else x for x in t[1])
                    return ('mod', ms, rename(t[2]), t[3])
                if t[0] in ('>>', '|'):
                    return (t[0], rename(t[1]), rename(t[2]))
                if t[0] in ('|eps', '~', '+', '*', '!'):
                    return (t[0], rename(t[1]))
                return t
            t = rename(g.tree(4))
            if rng.random() < 0.15:
                return t
            for _ in range(rng.choice([1, 1, 1, 2])):
                subs = tuple((rng.choice(pool + ['n9']), tuple(g.any_mod(1) for _ in range(rng.choice([1, 1, 2]))), rng.randrange(1 << 30)) for _ in range(rng.choice([1, 1, 2, 3])))
                t = g.mod(('sub', subs), t)
            return t
        # a named part under every combinator
        for wrap in range(14):
            g = m.g(maxsize=50)
            inner = g.mod(('name', 'n0'), g.leaf(rng.choice(['any', 'all'])))
            o = lambda: g.leaf(rng.choice(['any', 'all', 'ign']))
            t = [lambda: ('>>', o(), inner), lambda: ('>>', inner, o()), lambda: ('|', o(), inner), lambda: ('|', inner, o()), lambda: ('~', inner), lambda: ('+', inner), lambda: ('*', inner),
                 lambda: g.mod(('exactly', 2), inner), lambda: g.mod(('delimit', o()), inner), lambda: g.mod(('delimit_keep', inner), o()), lambda: g.mod(('ignore',), inner),
                 lambda: g.mod(('complete',), inner), lambda: g.mod(('join',), inner), lambda: g.mod(rng.choice([('map', ('dig', 'ob', g.K(), 0, False)), ('filter', g.K(), g.P()), ('name', 'n1'), ('name', 'L:n0'), ('name', 'u:n0'), ('name', '#7')]), inner)][wrap]()
            if rng.random() < 0.4:
                t = g.embed(t, 1)
            t = g.mod(('sub', (('n0', tuple(g.any_mod(1) for _ in range(rng.choice([1, 2]))), rng.randrange(1 << 30)),)), t)
            m.add(t)
        # both operands bear names, the same or not, in turn
        for op, a, b in spread([x for x in itertools.product(('>>', '|', 'delimit', 'delimit_keep', '>>>', '||', 'delimit ign', 'nested'), (0, 1), (0, 1)) for _ in range(3 if x[1] == x[2] else 1)], 8)[i]:
            g = m.g(maxsize=60)
            g.new_alphabet(3)
            x = lambda n: g.mod(('name', 'n%d' % n), g.lit(rng.choice(['any', 'all', 'all', 'ign']), [g.c() for _ in range(rng.choice([1, 1, 2]))]))
            p, q, r = x(a), x(b), x(rng.choice([a, b]))
            t = {'>>': lambda: ('>>', p, q), '|': lambda: ('|', p, q), '>>>': lambda: g.group('>>', [p, q, r]), '||': lambda: g.group('|', [p, q, r]),
                 'delimit ign': lambda: g.mod(('delimit', g.mod(('ignore',), q)), p), 'nested': lambda: g.mod(('name', 'n%d' % a), ('>>', q, p))}.get(op, lambda: g.mod((op, q), p))()
            # what takes the place of a name consumes something else, so that a
            # place left out shows
            def shown():
                x = rng.choice([('exactly', rng.choice([2, 2, 3])), ('delimit', g.lit('all', [g.c()])), None])
                return (x or g.any_mod(0),) + ((g.any_mod(0),) if rng.random() < 0.3 else ())
            subs = (('n%d' % b, shown(), rng.randrange(1 << 30)),)
            if rng.random() < 0.3:
                subs += (('n%d' % (1 - b), shown(), rng.randrange(1 << 30)),)
            try:
                m.add(g.mod(('sub', subs), t))
            except Invalid:
                pass
        # a substitution that brings in a name, and others for that name: before it, after it, in the same list or in a later one
        for where in range(6):
            g = m.g(maxsize=60)
            g.new_alphabet(3)
            x = lambda *ns: g.mod(*([('name', n) for n in ns] or [('name', 'n9')]), g.lit(rng.choice(['any', 'all', 'all']), [g.c()]))
            t = rng.choice([lambda: x('n0'), lambda: ('>>', x('n0'), x('n1')), lambda: ('|', x('n1'), x('n0')), lambda: x('n0', 'n1'), lambda: x('n1', 'n0'), lambda: g.mod((rng.choice(['delimit', 'delimit_keep']), x('n1')), x('n0')), lambda: g.mod(('name', 'n0'), ('>>', x('n1'), x('n0')))])()
            ex = lambda: (('exactly', rng.choice([2, 3])),)
            a = ('n0', rng.choice([(('name', 'n1'),), ex() + (('name', 'n1'),), (('name', 'n1'),) + ex(), (('delimit', x('n1')),), (('delimit_keep', x('n1')),)]), rng.randrange(1 << 30))
            b = ('n1', ex(), rng.randrange(1 << 30))
            d = ('n1', (('name', 'n0'),), rng.randrange(1 << 30))
            subs = [[(a, b)], [(b, a)], [(a,), (b,)], [(b,), (a,)], [(a, b, a)], [(rng.choice([a, d]), d, a, b)]][where]
            try:
                for s in subs:
                    t = g.mod(('sub', s), t)
                m.add(t)
            except Invalid:
                pass
        m.fill(38, f)
        combos(m, rng, ['name', 'sub', 'sub'], i, 16, rnd=rnd + seed, consts=0)
        units.append(m.unit('u%d-%d' % (rnd, i)))
    return units


# ------------------------------------------------------------------ C10
def c10(seed, tier, rnd):
    units = []
    for i in range(8):
        rng = seeds('C10', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], defs=True)

        def f():
            g = m.g(maxsize=40)
            t = g.tree(2)
            ms = []
            for _ in range(rng.choice([2, 3, 3, 4, 5, 6])):
                for _ in range(12):
                    x = g.any_mod(1, t if not ms else rng.choice([t, ('mod', tuple(ms), t, rng.randrange(1 << 30))]))
                    if ms and rng.random() < 0.12:
                        x = ms[-1]
                    try:
                        g.ok(('mod', tuple(ms) + (x,), t, 1))
                        ms.append(x)
                        break
                    except Invalid:
                        pass
            if not ms:
                raise Invalid('')
            # the same chain in several groupings and notations
            base = ('mod', tuple(ms), t, rng.randrange(1 << 30))
            if rng.random() < 0.3:
                base = g.group(rng.choice(['>>', '|']), [base, ('mod', tuple(ms), g.leaf(), rng.randrange(1 << 30))])
            group.append((ms, t))
            return base
        group = []
        m.fill(14, f)
        for ms, t in group[:9]:
            for _ in range(3):
                m.add(('mod', tuple(ms), t, rng.randrange(1 << 30)))
        # each pair of neighbouring modifiers in a chain, combined before it is applied
        kinds = ['ignore', 'complete', 'join', 'exactly', 'into', 'const', 'dflt', 'map', 'mapvoid', 'apply', 'filter', 'apply_filter', 'delimit', 'delimit_keep', 'name', 'sub']
        for n, (a, b) in enumerate(spread(list(itertools.product(kinds, kinds)), 8)[i]):
            for _ in range(12):
                g = m.g(maxsize=30)
                try:
                    ms = (g.mod_of(a), g.mod_of(b)) if n % 4 == 0 else (g.any_mod(0), g.mod_of(a), g.mod_of(b)) if n % 2 else (g.mod_of(a), g.mod_of(b), g.any_mod(0))
                    t = ('mod', ms, g.shape(rng.choice(['all', 'any', 'seq', 'cho', 'plus', 'maybe', 'seq', 'name', 'exact', 'delimit_keep']), rng.random() < 0.9), -1 - (n // 4 + rnd) % 3)
                    g.ok(t)
                except Invalid:
                    continue
                if m.add(t):
                    break
        # delimiters related to the elements, in every notation
        g = m.g(maxsize=40)
        for op in ('delimit', 'delimit_keep'):
            t = g.tree(rng.choice([0, 1, 2]))
            u = t if i % 2 else g.mod(('ignore',), t)
            for d in (t, u) if i % 2 == 0 else (t, g.mod(('join',), t)):
                for form in rng.sample(range(1 << 30), 6):
                    m.add(('mod', ((op, d),), t, form))
        for x in (g.any_mod(1), g.any_mod(1), ('exactly', 2)):
            # the same modifier twice or three times
            for form in rng.sample(range(1 << 30), 3):
                m.add(('mod', (x,) * rng.choice([2, 2, 3]), g.leaf(), form))
        units.append(m.unit('u%d-%d' % (rnd, i), 900))
    return units


# ------------------------------------------------------------------ C11
def c11(seed, tier, rnd):
    units = []
    sets = [c for n in range(4) for c in itertools.combinations([0, 1, 2], n)]
    setpairs = [(ka, a, kb, b) for ka in ('any', 'none') for a in sets for kb in ('any', 'none') for b in sets]
    reps = [''.join(x) for n in (2, 3) for x in itertools.product('~+*', repeat=n)]
    for i in range(8):
        rng = seeds('C11', seed, '%d/%d' % (rnd, i))
        vt = ['char', 'int', 'char', 'char', 'wchar_t', 'char', 'St', 'char'][(i + rnd) % 8]
        rules = make_rules(rng, vt, 1)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], raw=True, consts=1)
        g = m.g()
        for ka, a, kb, b in spread(setpairs, 8)[i]:
            g.new_alphabet(4)
            while len(g.alpha) < 3:
                g.new_alphabet(4)
            x = g.lit(ka, [g.alpha[k] for k in a])
            y = g.lit(kb, [g.alpha[k] for k in b])
            if rng.random() < 0.3:
                x = ('!', ('lit', 'none' if ka == 'any' else 'any') + x[2:])
            m.add(('|', x, y), consts=0)
        for r in spread(reps, 8)[i]:
            g = m.g(maxsize=40)
            inner = rng.choice([lambda: g.leaf('any'), lambda: g.leaf('all'), lambda: g.void(0), lambda: g.of_type(rng.randrange(g.KINDS), [g.c()]), lambda: g.group('|', [g.leaf('any'), g.leaf('all')])])()
            t = inner
            for c in r:
                t = (c, t)
            m.add(t)
            m.add(('>>', t, g.leaf()))

        def f():
            g = m.g(weights=dict(seq=14, cho=14, choeps=5, all=9, any=9, none=6, maybe=7, plus=7, star=7, invert=6, map=0, apply=0, filter=0, apply_filter=0, join=0, sub=0, name=2), maxsize=44)
            t = g.tree(4, rng.choice(['seq', 'cho', 'choeps', 'maybe', 'plus', 'star', 'invert']))
            if rng.random() < 0.25:
                t = ('|', t, rng.choice([t, g.leaf('any')]))
            if rng.random() < 0.2:
                t = ('>>', t, rng.choice([t, g.leaf('all')]))
            return t
        # longer chains of literals and sets under every grouping
        for _ in range(4):
            g = m.g(maxsize=60)
            m.add(g.group('>>', [g.leaf('all') for _ in range(rng.choice([3, 4, 6]))]))
            m.add(g.group('|', [g.leaf(rng.choice(['any', 'none', 'any'])) for _ in range(rng.choice([3, 4, 6]))]))
            m.add(g.group('|', [g.leaf(rng.choice(['any', 'none', 'all', 'any'])) for _ in range(rng.choice([3, 4, 6]))]))
        # large sets
        lo, hi = DOM[vt]
        for _ in range(2):
            base = sorted(rng.sample(range(max(lo, -1000), min(hi, 1000)), 60 if hi - lo > 300 else 50))
            s1, s2 = rng.sample(base, 40), rng.sample(base, 40)
            m.add(('|', g.lit(rng.choice(['any', 'none']), s1), g.lit(rng.choice(['any', 'none']), s2)), consts=0)
        # each kind of expression beside each other kind
        kinds = G.SHAPES + ('anything', 'eps', 'all2')
        basic = ('all', 'any', 'none', 'anything', 'eps', 'all2')
        for op, ka, kb in spread([x for x in itertools.product('|>', kinds, kinds) for _ in range(3 if x[1] in basic and x[2] in basic else 1)], 8)[i]:
            g = m.g(maxsize=44)
            valued = rng.random() < 0.8
            try:
                def one(k):
                    if k in ('anything', 'eps'):
                        return ('anything', vt) if k == 'anything' else ('epsof', vt)
                    return g.shape('all' if k == 'all2' else k, valued if rng.random() < 0.9 else not valued)
                a = one(ka)
                alpha = g.alpha
                b = one(kb) if rng.random() < 0.5 else retell(one(kb), g.alpha, alpha)
                m.add(('|' if op == '|' else '>>', a, b), consts=0)
            except Invalid:
                pass
        # every short literal, by the pattern of its elements, beside every small set, anything, nothing, and other literals
        lits = [('all', x) for x in ((), (0,), (0, 0), (0, 1), (1, 0), (0, 1, 0), (0, 0, 1), (0, 0, 0))]
        others = lits + [(k, x) for k in ('any', 'none') for x in ((), (0,), (1,), (0, 1), (2,))] + [('ign', ()), ('ign', (0,)), ('ign', (0, 1)), ('ign', (0, 0)), ('anything',), ('eps',)]
        for op, x, y, turn in spread([(op, x, y, t) for op in ('|', '>>') for x in lits for y in others for t in (0, 1) if not (t and y in lits)], 8)[i]:
            g = m.g()
            while len(g.alpha) < 3:
                g.new_alphabet(4)

            def made(z):
                return ('anything', vt) if z[0] == 'anything' else ('epsof', vt) if z[0] == 'eps' else g.lit(z[0], [g.alpha[k] for k in z[1]])
            x, y = (y, x) if turn else (x, y)
            m.add((op, made(x), made(y)), consts=0)
        # many parts
        for op in ('|', '>>'):
            g = m.g(maxsize=600, maxtype=150)
            g.new_alphabet(4)
            n = rng.choice([17, 33, 40] if i % 2 else [64, 65, 70])
            k = rng.choice([2, 3, 5])
            few = [g.lit(rng.choice(['all', 'all', 'any', 'ign'] if op == '>>' else ['all', 'any', 'ign', 'all']), [g.c() for _ in range(rng.choice([1, 1, 2, 3]))]) for _ in range(n if op == '|' else 60)]
            try:
                t = g.group(op, [rng.choice(few[:k]) if rng.random() < 0.3 else few[x % len(few)] for x in range(n)])
                g.ok(t)
                m.add(t, consts=0)
            except Invalid:
                pass
        m.fill(190, f)
        units.append(m.unit('u%d-%d' % (rnd, i), 700, ['--singles', 1]))
    return units


# ------------------------------------------------------------------ C12
def c12(seed, tier, rnd):
    units = []
    roots = ['any', 'none', 'all', 'anything', 'eps', 'seq', 'cho', 'choeps', 'maybe', 'plus', 'star', 'exact', 'delimit', 'delimit_keep', 'ignore', 'complete', 'join', 'map', 'filter', 'name', 'cust']
    for i in range(8):
        rng = seeds('C12', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 3)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], consts=2)
        for r in roots:
            g = m.g()
            m.add(g.tree(3, r) if r not in ('any', 'none', 'all', 'anything', 'eps') else g.embed(g.leaf(r), 1))
        for kind in ('any', 'none', 'all'):
            g = m.g()
            t = g.leaf(kind)
            m.add(g.mod(('join',), rng.choice([('~', t), ('+', t), ('*', t), g.mod(('exactly', rng.choice([2, 3])), t)])))
        m.fill(34, lambda: (lambda g: g.embed(g.tree(3)))(m.g(maxsize=34)))
        combos(m, rng, G.OUTER, i, 40, rnd=rnd + seed, consts=0)
        actives(m, rng, i, 14, rnd=rnd + seed, places=G.PLACES + ('ignore',), consts=0)
        large(m, rng, i, 2, rnd + seed)
        units.append(m.unit('u%d-%d' % (rnd, i), 1200, ['--longest', 5000]))
    return units


# ------------------------------------------------------------------ C13
def c13(seed, tier, rnd):
    units = []
    conf = ['gs', 'cs', 'g1', 'gs', 'c1', 'cs', 'g0a', 'g2']
    for i in range(8):
        rng = seeds('C13', seed, '%d/%d' % (rnd, i))
        vt = ['char', 'int', 'char', 'St', 'char', 'char16_t', 'char', 'long'][(i + rnd) % 8]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=conf[(i + rnd) % 8])

        def f():
            g = m.g(weights=dict(seq=16, exact=6, delimit=5, delimit_keep=5, plus=6, complete=4, join=6, filter=4, map=2, all=8), maxsize=36)
            return g.embed(g.tree(4, rng.choice(['seq', 'exact', 'delimit', 'delimit_keep', 'join', 'complete', 'filter', 'plus', 'cho', 'star', None, None])))
        g = m.g()
        for k in ('any', 'none', 'all', 'ign', 'all', 'anything'):
            g.new_alphabet()
            m.add(g.leaf(k) if k != 'all' else g.lit('all', [g.c() for _ in range(rng.choice([2, 5, 9, 17]))]))
        for kind in ('any', 'none', 'all'):
            for op in ('~', '+', '*', 'x'):
                if rng.random() < 0.5:
                    t = g.leaf(kind)
                    m.add(g.mod(('join',), (op, t) if op != 'x' else g.mod(('exactly', rng.choice([2, 3, 7])), t)))
        m.fill(24 if i in (0, 1, 3, 5) else 34, f)
        combos(m, rng, ['exactly', 'seq', 'cho', 'complete', 'join', 'filter', 'apply_filter', 'delimit', 'delimit_keep', 'as delimiter', '+', '*', '~'], i, 20 if i in (0, 1, 3, 5) else 30, rnd=rnd + seed)
        large(m, rng, i, 2, rnd + seed)
        units.append(m.unit('u%d-%d' % (rnd, i), 1200, []))
    return units


# ------------------------------------------------------------------ C14
def c14(seed, tier, rnd):
    units = []
    conf = ['g1', 'c1', 'g2', 'c0', 'g0', 'c2', 'g1', 'c1', 'g2', 'c1', 'g1', 'c2', 'g0', 'c0', 'g1', 'c1']
    vts = ['char', 'int', 'char8_t', 'char16_t', 'char', 'wchar_t', 'char', 'St', 'char', 'char32_t', 'unsigned char', 'long', 'char', 'En', 'short', 'double']
    for i in range(16):
        rng = seeds('C14', seed, '%d/%d' % (rnd, i // 2))  # pairs of units: the same programs with g++ and clang++
        vt = vts[i // 2 + 8 * (rnd % 2)]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=conf[i], consts=10, long=80)
        trees = []

        def keep(g, t):
            try:
                c = to_core(t, g.env)
                check(c, g.env)
                if any(const_ok(c, g.env, x) for x in ('g++', 'clang++')):
                    trees.append(t)
            except Invalid:
                pass

        def big(f):
            g = m.g(maxsize=90, maxtype=60)
            try:
                keep(g, f(g))
            except (Invalid, IndexError):
                pass
        # sizes at which a compile-time evaluation could take another route
        for n in rng.sample([15, 16, 17, 24, 25, 31, 32, 33, 40, 64, 65, 70], 2):
            big(lambda g: g.embed(g.lit(rng.choice(['all', 'all', 'ign']), [g.c() for _ in range(n)]), rng.choice([0, 1])))
        for n in rng.sample([4, 5, 8, 9, 16, 17, 24], 1):
            lo, hi = DOM[vt]
            big(lambda g: g.embed(g.lit(rng.choice(['any', 'none']), rng.sample([c for c in range(33, 127)], n)), 1))
        simple = lambda g: g.leaf(rng.choice(['any', 'any', 'none', 'all'])) if rng.random() < 0.6 else g.of_type(rng.randrange(g.KINDS), [g.c()])
        sep = lambda g: g.leaf(rng.choice(['any', 'all', 'ign']))
        big(lambda g: ('*', simple(g)))
        big(lambda g: ('+', simple(g)))
        big(lambda g: g.mod((rng.choice(['delimit', 'delimit_keep']), sep(g)), simple(g)))
        big(lambda g: g.mod(('exactly', rng.choice([12, 16, 17, 20, 32, 33])), simple(g)))
        big(lambda g: g.mod(('exactly', [63, 64, 65, 66, 70, 100, 128, 130][(i // 2 + rnd + seed) % 8]), g.leaf(rng.choice(['any', 'ign', 'any']))))
        big(lambda g: g.mod(('join',), ('+', simple(g))))
        big(lambda g: g.group('>>', [g.leaf(rng.choice(['any', 'all'])) for _ in range(rng.choice([6, 9, 12]))]))
        big(lambda g: g.group('|', [g.of_type(rng.choice([0, 2, 3, 8]), [g.c(), g.c()], 'all') for _ in range(rng.choice([6, 9, 12]))]))
        # joins over pieces out of order, at every depth
        for inner, wrap in spread(list(itertools.product(('dup', 'overlap', 'swap2', 'rev', 'halves', 'dropl', 'gap'), ('', '~', '+', 'exactly', '>>', '<<', '~ exactly', '+ ~'))), 8)[i // 2]:
            g = m.g(maxsize=60)
            g.new_alphabet(2)
            x = lambda: g.lit(rng.choice(['any', 'all']), [rng.choice(g.alpha) for _ in range(rng.choice([1, 2]))])
            ab = lambda: g.lit('all', [g.alpha[0], g.alpha[-1]])
            t = {'gap': lambda: g.group('>>', [x(), g.lit('ign', [g.c()]), x()]), 'swap2': lambda: g.mod(('map', ('swap2', g.K())), ('>>', x(), x())), 'rev': lambda: g.mod(('map', ('rev', g.K())), g.mod(('exactly', 2), x())),
                 'dropl': lambda: ('>>', g.mod(('map', (rng.choice(['dropf', 'dropl']), g.K())), ab()), x())}.get(inner, lambda: g.mod(('map', (inner, g.K())), ab()))()
            w = lambda t, o: {'': lambda: t, '~': lambda: ('~', t), '+': lambda: ('+', t), 'exactly': lambda: g.mod(('exactly', rng.choice([1, 2])), t), '>>': lambda: ('>>', t, x()), '<<': lambda: ('>>', x(), t)}[o]()
            for o in reversed(wrap.split(' ')):
                t = w(t, o)
            if rng.random() < 0.5:
                t = ('>>', t, rng.choice([x(), ('~', x())]))
            m.add(g.mod(('join',), t), consts_only=True)
        for _ in range(400):
            if len(trees) >= 20:
                break
            g = m.g(maxsize=28)
            k = rng.random()
            t = g.mod(('join',), joinable_tree(g, 2)) if k < 0.25 else g.embed(g.tree(3))
            keep(g, t)
        for t in trees:
            m.add(t, consts_only=True)
        combos(m, rng, G.OUTER, i // 2, 8, rnd=rnd + seed, consts_only=True)
        units.append(m.unit('u%d-%d' % (rnd, i), 500))
    # inputs of another element type, where a running program could compare in another way than the compiler
    rng0 = seeds('C14', seed, 'x%d' % rnd)
    pairs = [x for x in CROSS if x[1] != 'Box'] + SAMESIZE
    rng0.shuffle(pairs)
    same = spread(rng0.sample(SAMESIZE, len(SAMESIZE)), 4)
    for i in range(4):
        u = None
        for j, (vt, ut) in enumerate(dict.fromkeys(same[i][:3] + pairs[3 * i:3 * i + 2])):
            rng = seeds('C14', seed, '%d/x%d-%d' % (rnd, i, j))
            m = Maker(rng, vt, {}, config=['g2', 'c2', 'g1', 'c1'][i], ut=ut, consts=8, long=40, prefix='p%s_' % 'abcdefghij'[j])

            def lit(kind, n):
                g = m.g()
                cross_alphabet(g, vt, ut)
                return g.lit(kind, [g.c() for _ in range(n)])

            def f():
                g = m.g(maxsize=26, tags=('ob', 'mo', 'int', 'u64', 'in'))
                cross_alphabet(g, vt, ut)
                return crossable(g.embed(g.tree(2)))
            for kind, n in (('all', 2), ('all', rng.choice([3, 4, 5])), ('ign', rng.choice([2, 8, 17])), ('any', 2), ('none', rng.choice([2, 5]))):
                m.add(lit(kind, n), consts_only=True)
            for _ in range(60):
                if len(m.programs) >= 8:
                    break
                try:
                    m.add(f(), consts_only=True)
                except Invalid:
                    pass
            if u:
                u.programs += m.programs
            else:
                u = m
        units.append(u.unit('x%d-%d' % (rnd, i), 500))
    return units


# ------------------------------------------------------------------ C15
SAMESIZE = [('char', 'unsigned char'), ('unsigned char', 'char'), ('char', 'char8_t'), ('signed char', 'char8_t'), ('char', 'signed char'), ('short', 'char16_t'), ('char16_t', 'short'),
            ('short', 'unsigned short'), ('int', 'wchar_t'), ('unsigned', 'int'), ('wchar_t', 'char32_t'), ('long', 'unsigned long')]
CROSS = [('char', 'int'), ('int', 'char'), ('char', 'Box'), ('char', 'wchar_t'), ('wchar_t', 'char'), ('int', 'long'), ('long', 'short'), ('char', 'unsigned char'), ('int', 'Box'),
         ('char32_t', 'char'), ('char', 'signed char'), ('unsigned char', 'char'), ('char', 'char8_t'), ('short', 'char16_t'), ('char8_t', 'char16_t'), ('short', 'int'), ('unsigned', 'int'), ('char16_t', 'unsigned'), ('unsigned char', 'int'), ('double', 'int'), ('char', 'double'), ('int', 'double')]


UNSIGNED = ('unsigned', 'char32_t', 'unsigned long')  # those that integral promotion leaves unsigned


def cross_alphabet(g, vt, ut):
    """elements of vt whose comparison with elements of ut is that of the numbers"""
    lo, hi = DOM[vt]
    wide = lambda x: x == 'long'
    if (vt in UNSIGNED) != (ut in UNSIGNED) and not (wide(vt) or wide(ut)):
        lo, hi = 0, min(hi, 1 << 30)
    r = g.rng.random()
    if r < 0.4:
        hi, lo = min(hi, DOM[ut][1], 1 << 30), max(lo, 0)
    ends = [c for c in (-1, -2, 128, 127, 129, 200, 255, 254, 256, 32768, 65535, 40000, -32768, -128, -56, 97, 98, 0, 1) if lo <= c <= hi]
    g.alpha = [c for c in g.alpha if lo <= c <= hi] or [97, 98]
    if r > 0.6:
        g.alpha += g.rng.sample(ends, 2)
    g.alpha = list(dict.fromkeys(g.alpha))


def c15(seed, tier, rnd):
    units = []
    vts = ['char', 'int', 'char16_t', 'St', 'double', 'char8_t', 'wchar_t', 'char32_t', 'En']
    for i in range(4):
        rng = seeds('C15', seed, '%d/f%d' % (rnd, i))
        vt = 'char' if i == 0 else vts[(i + 3 * rnd + seed) % len(vts)]
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], forms=True)
        kinds = ['all', 'any', 'seq', 'cho', 'maybe', 'plus', 'star', 'exact', 'ignore', 'complete', 'join', 'map', 'filter', 'delimit', 'name', 'cust', 'anything', 'eps', 'none', 'delimit_keep']
        rng.shuffle(kinds)
        for k in kinds[:7]:
            g = m.g(maxsize=16)
            if rng.random() < 0.5:
                g.alpha[0] = 0
            m.add(g.tree(2, k))
        g = m.g()
        for t in (lambda: g.mod(('join',), (rng.choice('*+'), ('anything', vt))), lambda: (rng.choice('*+'), g.lit('any', [g.c(), g.c()]))):
            m.add(t())
        units.append(m.unit('f%d-%d' % (rnd, i), 700, ['--longest', 66000]))
    rng0 = seeds('C15', seed, 'x%d' % rnd)
    pairs = CROSS[:]
    rng0.shuffle(pairs)
    pairs = pairs + [('char', 'Box')] * 2
    units2 = {}
    for i, (vt, ut) in enumerate(pairs):
        rng = seeds('C15', seed, '%d/x%d' % (rnd, i))
        m = Maker(rng, vt, {}, config=CONF[(i % 4 + 4 + rnd) % 8], ut=ut, consts=2 if ut != 'Box' else 0, prefix='p%s_' % 'abcdefghijklmnopqrstuvwxyz'[i])

        def f():
            g = m.g(maxsize=26, tags=('ob', 'mo', 'int', 'u64', 'in'))
            cross_alphabet(g, vt, ut)
            return crossable(g.embed(g.tree(3)))
        for kind in ('any', 'none', 'all'):
            g = m.g()
            cross_alphabet(g, vt, ut)
            m.add(g.lit(kind, [g.c() for _ in range(rng.choice([1, 2, 3]))]))
        # what a function returns may depend on whose elements it is given
        for n in range(2):
            g = m.g(maxsize=30)
            cross_alphabet(g, vt, ut)
            x = lambda: g.lit(rng.choice(['any', 'all']), [g.c()])
            other = lambda: g.mod(('map', ('const', rng.choice(['int', 'u64', 'long', 'uns', 'dbl']), rng.randrange(1, 90), 0)), x())
            dep = g.mod(('map', ('dep', 'u64', g.K(), vt)), x())
            parts = rng.choice([[dep, other()], [other(), dep], [other(), dep, other()], [g.mod(('map', ('const', 'int', 5, 0)), x()), dep, g.mod(('map', ('const', 'u64', 6, 0)), x())]])
            m.add(rng.choice([lambda t: t, lambda t: ('+', t), lambda t: ('~', t), lambda t: ('>>', t, x()), lambda t: g.mod(('map', ('dig', 'ob', g.K(), 0, False)), t)])(g.group('|', parts)))
        m.fill(10, f)
        units2.setdefault(i % 4, []).append(m)
    for i, ms in units2.items():
        m = ms[0]
        for x in ms[1:]:
            m.programs += x.programs
        units.append(m.unit('x%d-%d' % (rnd, i), 1000, ['--singles', 1]))
    return units


def crossable(t):
    if any(x in ('sv', 'str') or x == ('dflt', 'S') for x in tokens(t)) or 'S' in dflts(t):
        raise Invalid('written for the parser\'s own element type')
    return t


def tokens(t):
    if isinstance(t, tuple):
        for x in t:
            yield from tokens(x)
    else:
        yield t


def dflts(t):
    """names of the types used in defaulted<>"""
    if isinstance(t, tuple):
        if t and t[0] == 'dflt':
            yield from tokens(t[1])
        for x in t:
            yield from dflts(x)


# ------------------------------------------------------------------ C16
def c16(seed, tier, rnd):
    units = []
    for i in range(8):
        rng = seeds('C16', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 7, kinds=[['conv', 'convn', 'alias', 'conv'], ['bracket', 'list', 'right', 'mutual', 'sumlike'], ['alias', 'conv', 'bracket', 'list', 'mutual', 'right', 'void', 'deepalias', 'sumlike']][i % 3])
        m = Maker(rng, vt, rules, config=CONF[(i + rnd) % 8], consts=3)
        for r in rules:
            m.add(('cust', r))
            g = m.g()
            m.add(g.embed(('cust', r), 1))
            m.add(g.mod(('ignore',), ('cust', r)))
        m.fill(26, lambda: (lambda g: g.embed(g.tree(3, rng.choice(['seq', 'cho', 'plus', 'maybe', 'delimit', 'map', 'filter']))))(m.g(weights=dict(cust=20))))
        combos(m, rng, G.OUTER, i, 14, rnd=rnd + seed, inner=('cust',), reps=3, consts=0)
        units.append(m.unit('u%d-%d' % (rnd, i), 1500, ['--deepest', 60000 if m.config not in ('gs', 'cs', 'g0a') else 12000]))
    return units


# ------------------------------------------------------------------ C17
def c17(seed, tier, rnd):
    units = []
    conf = ['gs', 'cs', 'g1', 'gs', 'c1', 'cs', 'g0a', 'g2']
    for i in range(8):
        rng = seeds('C17', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        tags = [('ob', 'mo', 'co', 'in'), ('mo', 'mo', 'ob'), ('co', 'co', 'in'), ('ob', 'in', 'mo', 'co')][i % 4]
        rules = make_rules(rng, vt, 3, g=G(rng, vt, {}, tags=tags, weights=dict(map=10)))
        m = Maker(rng, vt, rules, config=conf[(i + rnd) % 8])

        def f():
            g = m.g(weights=dict(map=16, apply=7, filter=5, apply_filter=3, cust=4, delimit=4, delimit_keep=4, plus=5, star=4, exact=5, maybe=5, cho=10, seq=10), tags=tags, ho=True, maxsize=34)
            t = g.tree(4, rng.choice(['map', 'apply', 'filter', 'seq', 'cho', 'plus', 'star', 'exact', 'maybe', 'delimit', 'delimit_keep', 'cust', 'name']))
            t = g.embed(t)
            if not any(isinstance(x, tuple) and x[0] in ('ob', 'mo', 'co', 'ho', 'in', 'vec') for ty in types_in(to_core(t, g.env), g.env) for x in parts_of(ty)):
                raise Invalid('no interesting values')
            return t
        # each combinator directly around an object of each class
        for tag in sorted(set(tags)) + ['ho']:
            g = m.g(maxsize=40)
            ob = lambda: g.mod(('map', ('dig', tag, g.K(), 0, False)) if tag != 'in' else ('map', ('into', g.K(), 0)), g.leaf(rng.choice(['any', 'all'])))
            shapes = [lambda: ('>>', ob(), ob()), lambda: ('|', ob(), ob()), lambda: ('~', ob()), lambda: ('+', ob()), lambda: g.mod(('exactly', 3), ob()), lambda: g.mod(('delimit', g.leaf('any')), ob()),
                      lambda: g.mod(('delimit_keep', ob()), ob()), lambda: g.mod(('complete',), ob()), lambda: g.mod(('name', 'n0'), ob()), lambda: g.mod(('filter', g.K(), g.P()), ob()),
                      lambda: g.mod(('apply_filter', g.K(), g.P()), ('>>', ob(), ob())), lambda: g.mod(('apply', ('dig', 'ob', g.K(), 1, True)), ('>>', ob(), ob())),
                      lambda: g.mod(('apply', ('into', g.K(), 1)), ('>>', ob(), ob())), lambda: ('|eps', ob()), lambda: g.mod(('map', ('id', g.K())), ob())]
            for s in rng.sample(shapes, 5):
                m.add(g.embed(s(), rng.choice([0, 1])))
        m.fill(26 if m.config in ('gs', 'cs') else 36, f)
        combos(m, rng, G.OUTER, i, 10 if m.config in ('gs', 'cs') else 20, rnd=rnd + seed)
        large(m, rng, i, 1, rnd + seed, kinds=('row', 'cho2'))
        units.append(m.unit('u%d-%d' % (rnd, i), 500))
    return units


# ------------------------------------------------------------------ C20 (acceptance half)
def c20(seed, tier, rnd):
    units = []
    for i in range(8):
        rng = seeds('C20', seed, '%d/%d' % (rnd, i))
        vt = ALLV[(i * 2 + rnd) % 16] if i % 2 else 'char'
        rules = make_rules(rng, vt, 2)
        m = Maker(rng, vt, rules, config=['g1', 'c1', 'g0', 'c0'][(i + rnd) % 4])
        m.fill(34, lambda: (lambda g: g.embed(g.tree(4)))(m.g(maxsize=50, maxtype=50, ho=True)))
        combos(m, rng, G.OUTER, i, 30, rnd=rnd + seed)
        units.append(m.unit('u%d-%d' % (rnd, i), 60))
    return units


# ------------------------------------------------------------------ C21
def c21(seed, tier, rnd):
    units = []
    conf = ['g1', 'c1', 'ct', 'g2', 'ct', 'g0a', 'gs', 'c2']
    for i in range(8):
        rng = seeds('C21', seed, '%d/%d' % (rnd, i))
        vt = FEW[(i + rnd) % 8]
        rules = make_rules(rng, vt, 3)
        m = Maker(rng, vt, rules, config=conf[(i + rnd) % 8])
        roots = ['any', 'none', 'all', 'seq', 'cho', 'maybe', 'plus', 'star', 'exact', 'delimit', 'delimit_keep', 'ignore', 'complete', 'join', 'map', 'apply', 'filter', 'name', 'cust']
        for r in roots:
            g = m.g()
            m.add(g.embed(g.tree(2, r), rng.choice([0, 1])))
        m.fill(26, lambda: (lambda g: g.embed(g.tree(3)))(m.g()))
        combos(m, rng, G.OUTER, i, 12, rnd=rnd + seed)
        large(m, rng, i, 2, rnd + seed)
        units.append(m.unit('u%d-%d' % (rnd, i), 300 if m.config == 'ct' else 900))
    return units


# property: (generator, what is compared, which events make a case non-trivial, words for the rule)
PROFILES = {
    'C01': (c01, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'RAW'], ['CONSUMED', 'BACKTRACK', 'FAIL'], 'an input (distinct per matcher) on which a matcher was tried: matched and consumed something, or was refused'),
    'C02': (c02, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'RAW'], ['CONSUMED', 'BACKTRACK'], 'the grammar consumed input, or a sequence failed after some of its parts had consumed input'),
    'C03': (c03, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'RAW'], ['ALT', 'VOIDALT', 'ALTVAR'], 'a choice took an alternative after an earlier one had failed, or a valueless alternative'),
    'C04': (c04, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'RAW'], ['REP2', 'LONG', 'BACKTRACK'], 'a repetition matched at least twice, or a fixed count failed after partial matches'),
    'C05': (c05, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'RAW'], ['DEL2', 'TRAIL'], 'a delimited list had at least two elements, or a delimiter had to be given back'),
    'C06': (c06, ['PARSE', 'LOOK', 'TYPE', 'CONST'], ['JOIN2', 'GAP', 'EMPTYJOIN'], 'a join put together at least two pieces, found a gap, or had no piece at all'),
    'C07': (c07, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'TRACE', 'LTRACE'], ['IGN', 'LEFT'], 'an ignored part consumed input, or a completed part left input over'),
    'C08': (c08, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'TRACE'], ['CALL'], 'at least one user function was called (the complete history of calls and arguments is compared)'),
    'C09': (c09, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'TRACE'], ['CONSUMED', 'BACKTRACK', 'PRED_F', 'GAP', 'LEFT'], 'the grammar with names or substitutions consumed input, or failed after partial progress'),
    'C10': (c10, ['PARSE', 'LOOK', 'TYPE', 'TRACE'], ['CONSUMED', 'BACKTRACK', 'PRED_F', 'GAP', 'LEFT'], 'a chain of two or more modifiers consumed input, or failed after partial progress'),
    'C11': (c11, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'RAW'], ['CONSUMED', 'BACKTRACK'], 'the simplified expression consumed input, or failed after partial progress'),
    'C12': (c12, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'LTRACE', 'AGREE'], ['CONSUMED', 'BACKTRACK', 'PRED_F', 'GAP'], 'parse or lookahead consumed input, or a value-dependent check made them differ'),
    'C13': (c13, ['PARSE', 'LOOK', 'AGREE'], ['BACKTRACK', 'TRAIL', 'GAP', 'LEFT', 'PRED_F', 'CONSUMED'], 'something was consumed, or given back after partial progress; inputs lie against inaccessible pages, in exact heap blocks under ASan, or between misleading neighbours'),
    'C14': (c14, ['PARSE', 'LOOK', 'CONST'], ['CONSUMED', 'BACKTRACK', 'GAP', 'PRED_F'], 'a compile-time evaluation (parse, lookahead and digest of the value), each compared with the model and with the same evaluation at run time'),
    'C15': (c15, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'FORMS'], ['CONSUMED', 'BACKTRACK'], 'elements that made the parser consume input or fail after partial progress, passed in up to 19 forms, or of another comparable element type'),
    'C16': (c16, ['PARSE', 'LOOK', 'TYPE', 'CONST', 'TRACE'], ['CUST', 'REC', 'CONV'], 'a user-defined parser was entered (possibly recursively)'),
    'C17': (c17, ['PARSE', 'TRACE', 'LIVE', 'THROW', 'TYPE'], ['USER', 'CALL'], 'a user function produced an instrumented object; every call of the history was also made to throw in turn'),
    'C20': (c20, ['TYPE', 'PARSE'], ['OK', 'FAIL'], 'a composition that had to compile with a given value type, and was run'),
    'C21': (c21, ['PARSE', 'LOOK', 'TRACE', 'LTRACE', 'LIVE', 'PURE'], ['CONSUMED', 'BACKTRACK'], 'a parse repeated in random histories and from six threads at once, compared with its first outcome'),
}
