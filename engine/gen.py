"""Random and systematic generation of grammar expressions (surface trees, see core.py)."""
import itertools
from core import *

DOM = {'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'char8_t': (0, 255), 'char16_t': (0, 65535), 'unsigned short': (0, 65535),
       'short': (-32768, 32767), 'En': (-32768, 32767), 'char32_t': (0, 1114111), 'unsigned': (0, 4294967295), 'St': (0, 1 << 20), 'long': (-(1 << 60), 1 << 60),
       'unsigned long': (0, 1 << 62), 'int': (-2147483648, 2147483647), 'wchar_t': (-2147483648, 2147483647), 'Box': (-2147483648, 2147483647), 'double': (-(1 << 40), 1 << 40), 'bool': (0, 1)}
VTS = ['char', 'wchar_t', 'char8_t', 'char16_t', 'char32_t', 'int', 'unsigned', 'short', 'unsigned char', 'long', 'En', 'St']
LETTERS = [ord(c) for c in 'abcdexyz01,;()[]+-*/ ']

BASE = dict(any=6, none=3, all=5, ign=3, anything=2, eps=1, seq=9, cho=9, choeps=2, maybe=4, plus=4, star=4, exact=3, ignore=3, complete=1, join=4,
            map=4, apply=2, filter=2, apply_filter=1, delimit=3, delimit_keep=3, name=2, sub=1, cust=0, invert=1)
LEAVES = ('any', 'none', 'all', 'ign', 'anything', 'eps', 'cust')


class G:
    KINDS = 22  # value types of_type knows

    def __init__(self, rng, vt='char', rules=None, weights=None, tags=('ob', 'ob', 'mo', 'co', 'int', 'u64', 'in'), maxsize=26, maxtype=22, ho=False, styles=(0, 0, 0, 1, 2, 3, 4)):
        self.rng, self.vt = rng, vt
        self.env = Env(vt, rules)
        self.w = dict(BASE)
        if weights:
            self.w.update(weights)
        if not self.env.rules:
            self.w['cust'] = 0
        self.tags = list(tags) + (['ho', 'ho'] if ho else [])
        self.maxsize, self.maxtype, self.styles = maxsize, maxtype, styles
        self.k = rng.randrange(1, 90)
        self.made = []
        self.new_alphabet()

    # ---- elements
    def new_alphabet(self, n=None):
        rng = self.rng
        n = n or rng.choice([2, 3, 3, 4, 4, 5])
        lo, hi = DOM[self.vt]
        if self.vt == 'char' or rng.random() < 0.5:
            base = [c for c in LETTERS if lo <= c <= hi]
        else:
            base = [lo, hi, 0, 1, 2, 255, 256, 127, 128, 65535, 65536, 97, 353, hi // 2, hi - 1] + ([-1, -2, -128] if lo < 0 else [])
            base = [c for c in set(base) if lo <= c <= hi]
        base = base or [lo, hi]
        self.alpha = rng.sample(base, min(n, len(base)))
        if rng.random() < 0.25:
            odd = [c for c in (0, 1, 127, 128, 255, -1, -128, 10, 34, 92, 63, 65535) if lo <= c <= hi]
            self.alpha[0] = rng.choice(odd)
        self.alpha = list(dict.fromkeys(self.alpha))

    def c(self):
        return self.rng.choice(self.alpha)

    def K(self):
        self.k += 1
        return self.k

    def P(self):
        """a kind of predicate: by what it takes, and by what it answers with"""
        return self.rng.choice([0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 7])

    # ---- literals
    def style(self, codes=()):
        s = self.rng.choice(self.styles)
        return s

    def lit(self, kind, codes):
        return ('lit', kind, self.vt, tuple(codes), self.style(codes))

    def leaf(self, op=None):
        rng = self.rng
        op = op or self.pick([o for o in LEAVES])
        if op in ('any', 'none'):
            n = rng.choice([1, 1, 2, 2, 3] if op == 'any' else [1, 1, 2, 0])
            if op == 'any' and rng.random() < 0.02:
                n = 0
            if rng.random() < 0.06:
                n = rng.choice([4, 5, 7, 9, 17])
            codes = [self.c() for _ in range(n)]
            if n > 3:
                lo, hi = DOM[self.vt]
                codes = [rng.choice(LETTERS) if rng.random() < 0.7 and lo <= 32 and hi >= 127 else c for c in codes]
            return self.lit(op, codes)
        if op in ('all', 'ign'):
            n = rng.choice([1, 1, 1, 2, 2, 3])
            if rng.random() < 0.03:
                n = 0
            elif rng.random() < 0.04:
                n = rng.choice([4, 5, 8, 9, 16, 17, 26, 33])
            return self.lit(op, [self.c() for _ in range(n)])
        if op == 'anything':
            return ('anything', self.vt)
        if op == 'eps':
            return ('epsof', self.vt)
        if op == 'cust':
            return ('cust', rng.choice(list(self.env.rules)))
        raise AssertionError(op)

    def pick(self, ops=None):
        ops = ops or list(self.w)
        ws = [self.w[o] for o in ops]
        return self.rng.choices(ops, ws)[0]

    # ---- checks
    def type(self, t):
        return rtype(to_core(t, self.env), self.env)

    def ok(self, t):
        c = to_core(t, self.env)
        check(c, self.env)
        if size(c) > self.maxsize or tsize(rtype(c, self.env)) > self.maxtype:
            raise Invalid('size')
        return t

    def attempt(self, f, tries=40):
        for _ in range(tries):
            try:
                return self.ok(f())
            except Invalid:
                pass
        return None

    def tree(self, d, op=None):
        """random expression with the given outermost operation (or any)"""
        r = self.attempt(lambda: self.build(op or self.pick(), d))
        if r is None:
            r = self.attempt(lambda: self.leaf())
        if r is not None and "'cust'" not in repr(r):
            self.made.append(r)
        return r

    def sub(self, d):
        if self.made and self.rng.random() < 0.08:
            return self.rng.choice(self.made[-6:])  # the same part once more
        if d <= 0 or self.rng.random() < 0.15:
            r = self.attempt(lambda: self.leaf())
            return r
        return self.tree(d)

    def row(self, d, n):
        """n parts, of which few are different: equal neighbours, alternating parts or a repeated tail"""
        rng = self.rng
        a, b = self.sub(d), self.sub(d)
        k = rng.randrange(4)
        if k == 0:
            return [a] * n
        if k == 1:
            return [(a, b)[j % 2] for j in range(n)]
        i = rng.randrange(1, n)
        return [a] * i + [b] * (n - i) if k == 2 else [rng.choice((a, a, b)) for _ in range(n)]

    def fn(self, t, apply=False):
        """a user function applicable to type t, and whether it goes through apply"""
        rng = self.rng
        cands = ['dig'] * 5 + ['into', 'void', 'const', 'dflt']
        if t != 'v':
            cands += ['id']
        if t == 'S':
            cands += ['dropf', 'dropl', 'empt', 'len', rng.choice(['dup', 'halves', 'chips', 'overlap'])]
            if self.vt in CHARLIT:
                cands += ['sv', 'str']
        if t == 'sv':
            cands += ['str', 'len', 'dropl']
        if isinstance(t, tuple) and t[0] == 'tup' and len(t) == 3:
            cands += ['swap2']
        if isinstance(t, tuple) and t[0] in ('vec', 'arr') and t != ('vec', 'bool'):
            cands += ['rev']
        if t == 'int':
            cands += ['free', 'free']
        if isinstance(t, tuple) and t[0] == 'ob':
            cands += ['get', 'get']
        if apply:
            cands = ['dig', 'dig', 'into', 'void']
        h = rng.choice(cands)
        if h == 'dig':
            tag = rng.choice(self.tags)
            if tag == 'in':
                return ('into', self.K(), int(apply))
            return ('dig', tag, self.K(), int(apply), rng.random() < 0.4)
        if h == 'into':
            return ('into', self.K(), int(apply))
        if h == 'void':
            return ('void', self.K(), int(apply))
        if h == 'const':
            kind = rng.choice(['int', 'long', 'bool', 'char', 'en', 'big', 'null', 'u64', 'uns', 'shrt', 'uchr', 'dbl'])
            big = rng.random() < 0.3
            a = {'bool': rng.randrange(2), 'char': rng.randrange(97, 122), 'null': 0, 'uchr': rng.randrange(256)}.get(kind, rng.randrange(1, 1000))
            if big and kind in ('long', 'u64', 'uns', 'dbl'):
                a = rng.choice([(1 << 31) + a, (1 << 32) - a] + ([(1 << 32) + a, (1 << 40) + a] if kind != 'uns' else []))
            return ('const', kind, a, rng.randrange(1, 99) if kind == 'big' else 0)
        if h == 'dflt':
            return ('dflt', self.default_type())
        if h in ('sv', 'str'):
            return (h,)
        if h == 'get':
            return ('get', t[1])
        return (h, self.K())

    def default_type(self):
        rng = self.rng
        base = ['int', 'long', 'bool', 'u64', 'big', 'en', 'uns', 'shrt', 'uchr', 'dbl', 'S', ('ob', self.K()), ('mo', self.K()), ('opt', 'int'), ('vec', 'S'), ('tup', 'int', 'S'),
                ('arr', 2, 'int'), ('var', 'bool', 'int'), ('pair', 'int', 'bool')]
        if self.vt in CHARLIT:
            base += ['sv', 'str', ('opt', 'str')]
        return rng.choice(base)

    def mod(self, *ms_and_tree):
        *ms, t = ms_and_tree
        return ('mod', tuple(ms), t, self.rng.randrange(1 << 30))

    def build(self, op, d):
        rng = self.rng
        if op in LEAVES:
            return self.leaf(op)
        if op in ('seq', 'cho'):
            n = rng.choice([2, 2, 2, 2, 3, 3, 3, 4, 4, 5])
            parts = [self.sub(d - 1) for _ in range(n)]
            if rng.random() < 0.07:
                parts = self.row(d - 2, rng.choice([2, 3, 4, 5, 6]))
            elif op == 'cho' and rng.random() < 0.15:
                parts[rng.randrange(n)] = parts[rng.randrange(n)]
            return self.group('>>' if op == 'seq' else '|', parts)
        if op == 'choeps':
            return ('|eps', self.sub(d - 1))
        if op in ('maybe', 'plus', 'star'):
            return ({'maybe': '~', 'plus': '+', 'star': '*'}[op], self.sub(d - 1))
        if op == 'invert':
            t = self.leaf(rng.choice(['any', 'none']))
            for _ in range(rng.choice([1, 1, 2, 3])):
                t = ('!', t)
            return t
        t = self.sub(d - 1)
        if op == 'exact':
            return self.mod(('exactly', rng.choice([1, 2, 2, 2, 3, 3, 3, 4, rng.choice([5, 6, 8])])), t)
        if op in ('ignore', 'complete', 'join'):
            return self.mod((op,), t)
        if op in ('map', 'apply'):
            ty = self.type(t)
            if op == 'apply' and not tuple_like(ty):
                t = self.group('>>', [self.valued(d - 1), self.valued(d - 1)])
                ty = self.type(t)
            return self.mod((op, self.fn(ty, op == 'apply')), t)
        if op in ('filter', 'apply_filter'):
            ty = self.type(t)
            if op == 'apply_filter' and not tuple_like(ty):
                t = self.group('>>', [self.valued(d - 1), self.valued(d - 1)])
            return self.mod((op, self.K(), self.P()), t)
        if op in ('delimit', 'delimit_keep'):
            return self.mod((op, self.delimiter(t, d - 1)), t)
        if op == 'name':
            return self.mod(('name', rng.choice(['n0', 'n1', 'n2'])), t)
        if op == 'sub':
            named = [self.mod(('name', rng.choice(['n0', 'n1'])), self.sub(d - 1)) for _ in range(rng.choice([1, 2]))]
            t = self.group(rng.choice(['>>', '|']), [t] + named)
            subs = []
            for _ in range(rng.choice([1, 1, 2])):
                subs.append((rng.choice(['n0', 'n1', 'n1', 'n2']), tuple(self.any_mod(d - 1) for _ in range(rng.choice([1, 1, 2]))), rng.randrange(1 << 30)))
            return self.mod(('sub', tuple(subs)), t)
        raise AssertionError(op)

    def delimiter(self, t, d):
        """any delimiter, or one related to the elements t"""
        rng = self.rng
        if rng.random() > 0.14:
            return self.sub(d)
        return rng.choice([lambda: t, lambda: self.mod(('ignore',), t), lambda: self.mod(('join',), t), lambda: ('~', t), lambda: ('+', t), lambda: self.mod(('complete',), t)])()

    SHAPES = ('all', 'any', 'seq', 'cho', 'maybe', 'plus', 'star', 'exact', 'delimit', 'delimit_keep', 'join', 'map', 'filter', 'name', 'complete', 'cust', 'ignore', 'none', 'choeps')

    def shape(self, op, valued=True):
        """a small expression of the given outermost operation, with or without a value, over parts that are easily taken for one another:
        literals of few elements, some of which begin others"""
        rng = self.rng
        self.new_alphabet(2)
        kind = lambda: ('all' if rng.random() < 0.8 else 'any') if valued else 'ign'
        text = lambda k: self.lit(k, [self.c() for _ in range(rng.choice([1, 1, 2, 2, 3]))])
        act = lambda: self.mod(('map', ('void', self.K(), 0)), text('all' if rng.random() < 0.8 else 'any'))  # valueless, but a function runs
        leaf = lambda: text(kind()) if valued or rng.random() < 0.5 else rng.choice([act, act, lambda: self.mod(('filter', self.K(), self.P()), text('ign')), lambda: self.mod(('filter', self.K(), self.P()), act())])()
        part = lambda: leaf() if rng.random() < 0.75 else rng.choice([lambda: ('~', leaf()), lambda: self.group('|', [leaf(), leaf()]), lambda: self.group('>>', [leaf(), leaf()]), lambda: self.mod(('complete',), leaf())])()
        if op in ('all', 'any', 'none'):
            t = self.lit(op if valued or op != 'all' else 'ign', [self.c() for _ in range(rng.choice([1, 2, 3]))])
            return t if valued or op == 'all' else self.mod(('ignore',), t)
        if op in ('seq', 'cho'):
            n = rng.choice([2, 2, 3, 4])
            parts = [part() for _ in range(n)]
            if op == 'cho' and rng.random() < 0.4:
                parts.append(self.lit(kind(), [self.c()] + [self.c() for _ in range(rng.choice([1, 2]))]))
            return self.group('>>' if op == 'seq' else '|', parts)
        if op == 'choeps':
            return ('|eps', part())
        if op in ('maybe', 'plus', 'star'):
            return ({'maybe': '~', 'plus': '+', 'star': '*'}[op], self.group('|', [leaf(), leaf()]) if rng.random() < 0.4 else leaf())
        if op == 'exact':
            return self.mod(('exactly', rng.choice([2, 3, 4, 9])), part())
        if op in ('delimit', 'delimit_keep'):
            return self.mod((op, self.lit(rng.choice(['all', 'any']) if valued else 'ign', [self.c() for _ in range(rng.choice([1, 1, 2]))])), part())
        if op == 'join':
            t = self.mod(('join',), rng.choice([lambda: part(), lambda: ('+', leaf()), lambda: self.group('>>', [part(), part()])])())
            return t if valued else self.mod(('map', ('void', self.K(), 0)), t)
        if op == 'map':
            return self.mod(('map', ('dig', rng.choice(['ob', 'int', 'mo']), self.K(), 0, False) if valued else ('void', self.K(), 0)), part())
        if op == 'filter':
            return self.mod(('filter', self.K(), self.P()), part())
        if op == 'cust':
            ids = [k for k, r in self.env.rules.items() if r['vt'] == self.vt]
            return ('cust', rng.choice(ids)) if ids else part()
        if op == 'name':
            return self.mod(('name', 'n0'), part())
        if op == 'ignore':
            return self.mod(('ignore',), part())
        return self.mod((op,), part())

    OUTER = ('~', '+', '*', 'seq', 'cho', 'choeps', 'exactly', 'ignore', 'complete', 'join', 'map', 'mapvoid', 'into', 'const', 'dflt', 'apply', 'filter', 'apply_filter', 'delimit', 'delimit_keep', 'as delimiter', 'name', 'sub')

    def over(self, how, t, valued=True):
        """t as an operand of the given operation"""
        rng = self.rng
        if how in '~+*':
            return (how, t)
        if how == 'choeps':
            return ('|eps', t)
        if how in ('seq', 'cho'):
            u = self.shape(rng.choice(self.SHAPES), rng.random() < (0.8 if valued else 0.3))
            return self.group('>>' if how == 'seq' else '|', [t, u] if rng.random() < 0.5 else [u, t])
        if how == 'as delimiter':
            return self.mod((rng.choice(['delimit', 'delimit_keep']), t), self.lit('all' if rng.random() < 0.6 else 'ign', [self.c()]))
        if how == 'exactly':
            return self.mod(('exactly', rng.choice([2, 3, 7, 8, 9])), t)
        if how == 'sub':
            return self.mod(('sub', (('n0', (self.any_mod(0),), rng.randrange(1 << 30)),)), self.mod(('name', rng.choice(['n0', 'n0', 'n1'])), t))
        return self.mod(self.mod_of(how), t)

    def mod_of(self, h):
        """a modifier of the given kind"""
        rng = self.rng
        if h == 'exactly':
            return (h, rng.choice([1, 2, 2, 3]))
        if h == 'into':
            return ('map', ('into', self.K(), 0))
        if h == 'const':
            return ('map', ('const', rng.choice(['int', 'bool', 'en']), 1, 0))
        if h == 'dflt':
            return ('map', ('dflt', rng.choice(['int', 'S', ('opt', 'int')])))
        if h == 'map':
            return (h, ('dig', rng.choice(['ob', 'int', 'u64']), self.K(), 0, False))
        if h == 'mapvoid':
            return ('map', ('void', self.K(), 0))
        if h == 'apply':
            return (h, ('dig', 'ob', self.K(), 1, False))
        if h in ('filter', 'apply_filter'):
            return (h, self.K(), self.P())
        if h in ('delimit', 'delimit_keep'):
            return (h, self.leaf(rng.choice(['any', 'all', 'ign'])))
        if h == 'name':
            return (h, rng.choice(['n0', 'n1']))
        if h == 'sub':
            return (h, ((rng.choice(['n0', 'n1']), (self.any_mod(0),), rng.randrange(1 << 30)),))
        return (h,)

    def any_mod(self, d, t=None):
        rng = self.rng
        if t is not None and rng.random() < 0.1:
            return (rng.choice(['delimit', 'delimit_keep']), self.delimiter(t, d) if rng.random() < 0.3 else rng.choice([t, self.mod(('ignore',), t)]))
        h = rng.choice(['ignore', 'complete', 'join', 'exactly', 'map', 'map', 'map', 'filter', 'delimit', 'delimit_keep', 'name'])
        if h == 'exactly':
            return (h, rng.choice([1, 2, 3]))
        if h == 'map':
            return (h, rng.choice([('dig', rng.choice(['ob', 'int', 'u64']), self.K(), 0, False), ('into', self.K(), 0), ('void', self.K(), 0), ('const', 'int', rng.randrange(99), 0)]))
        if h == 'filter':
            return (h, self.K(), self.P())
        if h in ('delimit', 'delimit_keep'):
            return (h, self.leaf(rng.choice(['any', 'all', 'ign'])))
        if h == 'name':
            return (h, rng.choice(['n0', 'n1', 'n2']))
        return (h,)

    def group(self, op, parts):
        """parts joined by a binary operator, grouped at random (left-leaning, right-leaning or mixed)"""
        if len(parts) == 1:
            return parts[0]
        r = self.rng.random()
        k = len(parts) - 1 if r < 0.5 else 1 if r < 0.7 else self.rng.randrange(1, len(parts))
        return (op, self.group(op, parts[:k]), self.group(op, parts[k:]))

    def valued(self, d):
        for _ in range(40):
            t = self.sub(d)
            if self.type(t) != 'v':
                return t
        return self.leaf('any')

    def void(self, d=1):
        rng = self.rng
        return rng.choice([lambda: self.lit('ign', [self.c() for _ in range(rng.choice([1, 1, 2]))]), lambda: self.mod(('ignore',), self.sub(d)),
                           lambda: self.mod(('map', ('void', self.K(), 0)), self.sub(d)), lambda: ('epsof', self.vt), lambda: self.active(), lambda: self.active()])()

    def active(self, how=None):
        """a valueless expression whose outcome or history depends on the user's functions inside"""
        rng = self.rng
        text = lambda k='all': self.lit(k, [self.c() for _ in range(rng.choice([1, 1, 2]))])
        leaf = lambda: rng.choice([lambda: self.mod(('map', ('void', self.K(), 0)), text()), lambda: self.mod(('filter', self.K(), self.P()), text('ign')),
                                   lambda: self.mod(('filter', self.K(), self.P()), self.mod(('map', ('void', self.K(), 0)), text()))])()
        part = lambda: leaf() if rng.random() < 0.6 else text('ign')
        how = how or rng.choice(['leaf', 'leaf', '|', '>>', '~', '+', '*', '|eps', 'exactly', 'delimit', 'delimit_keep', 'complete', 'name', 'filter'])
        if how == 'leaf':
            return leaf()
        if how in ('|', '>>'):
            parts = [part() for _ in range(rng.choice([1, 2]))]
            parts.insert(rng.randrange(len(parts) + 1), leaf())
            return self.group(how, parts)
        if how in ('~', '+', '*', '|eps'):
            return (how, leaf())
        if how == 'exactly':
            return self.mod((how, rng.choice([2, 3])), leaf())
        if how in ('delimit', 'delimit_keep'):
            return self.mod((how, part()), leaf()) if rng.random() < 0.5 else self.mod((how, leaf()), part())
        return self.mod({'complete': (how,), 'name': (how, 'n0'), 'filter': (how, self.K(), self.P())}[how], leaf())

    ACTIVE = ('leaf', '|', '>>', '~', '+', '*', '|eps', 'exactly', 'delimit', 'delimit_keep', 'complete', 'name', 'filter')

    def among(self, where, t):
        """t, a valueless expression, in a place of the given kind among other valueless or valued ones"""
        rng = self.rng
        text = lambda k=None: self.lit(k or rng.choice(['all', 'ign', 'ign']), [self.c() for _ in range(rng.choice([1, 1, 2]))])
        if where in ('>>', '|'):
            parts = [text() for _ in range(rng.choice([1, 1, 2]))]
            parts.insert(rng.randrange(len(parts) + 1), t)
            return self.group(where, parts)
        if where in ('~', '+', '*', '|eps'):
            return (where, t)
        if where in ('delimit', 'delimit_keep'):
            return self.mod((where, text()), t)
        if where.startswith('as '):
            return self.mod((where[3:], t), text())
        return self.mod(self.mod_of(where), t)

    PLACES = ('>>', '|', '~', '+', '*', '|eps', 'exactly', 'delimit', 'delimit_keep', 'as delimit', 'as delimit_keep', 'complete', 'join', 'map', 'mapvoid', 'const', 'dflt', 'filter', 'name')

    # ---- expressions of a chosen type
    def of_type(self, i, codes=None, kind='any'):
        """a matcher of the given element(s) whose value type is the i-th of a list of distinct types"""
        codes = codes if codes is not None else [self.c()]
        s = self.lit(kind, codes)
        m = lambda f: self.mod(('map', f), s)
        table = [lambda: s, lambda: ('~', s), lambda: m(('const', 'int', 7, 0)), lambda: m(('dig', 'ob', 901, 0, False)), lambda: m(('const', 'bool', 1, 0)),
                 lambda: ('+', s), lambda: m(('dig', 'mo', 902, 0, False)), lambda: m(('const', 'long', 9, 0)), lambda: m(('const', 'char', 98, 0)), lambda: m(('const', 'en', 5, 0)),
                 lambda: m(('dig', 'co', 903, 0, True)), lambda: self.mod(('exactly', 1), s), lambda: m(('dig', 'u64', 904, 0, False)), lambda: m(('into', 905, 0)), lambda: m(('const', 'big', 3, 4)),
                 lambda: m(('dig', 'ob', 906, 0, False)), lambda: m(('const', 'null', 0, 0)), lambda: ('+', m(('const', 'int', 8, 0))),
                 lambda: m(('const', 'uns', 4000000000, 0)), lambda: m(('const', 'shrt', 11, 0)), lambda: m(('const', 'uchr', 200, 0)), lambda: m(('const', 'dbl', (1 << 40) + 13, 0))]
        return table[i % len(table)]()

    # ---- surroundings
    def embed(self, t, levels=None):
        rng = self.rng
        levels = rng.choice([0, 0, 1, 1, 2]) if levels is None else levels
        for _ in range(levels):
            u = self.attempt(lambda: self.embed1(t), 12)
            if u is None:
                return t
            t = u
        return t

    def embed1(self, t):
        rng = self.rng
        k = rng.randrange(15)
        if k < 2:
            parts = [self.sub(1) for _ in range(rng.choice([1, 2]))]
            parts.insert(rng.randrange(len(parts) + 1), t)
            return self.group('>>', parts)
        if k < 4:
            parts = [self.sub(1) for _ in range(rng.choice([1, 2]))]
            parts.insert(rng.randrange(len(parts) + 1), t)
            return self.group('|', parts)
        if k < 7:
            return (rng.choice('~+*'), t)
        if k == 7:
            return self.mod(('exactly', rng.choice([1, 2, 3])), t)
        if k == 8:
            return self.mod((rng.choice(['ignore', 'complete']),), t)
        if k == 9:
            return self.mod(('join',), t)
        if k == 10:
            return self.mod((rng.choice(['delimit', 'delimit_keep']), self.leaf(rng.choice(['any', 'all', 'ign']))), t)
        if k == 11:
            return self.mod((rng.choice(['delimit', 'delimit_keep']), t), self.leaf(rng.choice(['any', 'all'])))
        if k == 12:
            return self.mod(('map', self.fn(self.type(t))), t)
        if k == 13:
            return self.mod(('filter', self.K(), self.P()), t)
        return self.mod(('name', 'n0'), t)


# ------------------------------------------------------------------ custom rules
def make_rules(rng, vt, n, g=None, kinds=None, start=1):
    """n user-defined parsers: aliases, converting, directly and mutually recursive. Returns {id: rule}."""
    rules = {}
    g = g or G(rng, vt, rules, weights=dict(cust=0))
    g.env.rules = rules
    nid = start
    kinds = kinds or ['alias', 'conv', 'bracket', 'list', 'right', 'mutual', 'void', 'convn', 'sumlike', 'deepalias']
    while len(rules) < n:
        kind = rng.choice(kinds)
        got = attempt_rule(rng, g, kind, nid)
        if got:
            for r in got:
                rules[r['id']] = r
                nid = r['id'] + 1
    return rules


def finish(g, r):
    core = to_core(r['body'], g.env)
    check(core, g.env)
    t = rtype(core, g.env)
    r['core'] = core
    r['nullable'] = nullable(core, g.env)
    if r.get('type') is not None and r['conv'].startswith('(in'):
        if t == r['type']:
            r['conv'] = '(same)'
        elif t == 'v':
            raise Invalid('no value to convert')
    return t


def attempt_rule(rng, g, kind, nid):
    vt = g.vt
    rules = g.env.rules
    try:
        if kind in ('alias', 'deepalias', 'void'):
            g.w['cust'] = 3 if kind == 'deepalias' and rules else 0
            body = g.void(2) if kind == 'void' else g.tree(2)
            g.w['cust'] = 0
            r = dict(id=nid, body=body, conv='(same)', decl=None, vt=vt)
            t = finish(g, r)
            r['type'] = t
            if rng.random() < 0.4 and t in ('v', 'S', 'int'):
                r['decl'] = t
            return [r]
        if kind in ('conv', 'convn'):
            body = g.tree(2, rng.choice(['join', 'all', 'any', 'map', 'seq', 'cho', 'maybe', 'filter']))
            r = dict(id=nid, body=body, conv='(same)', decl=None, vt=vt)
            t = finish(g, r)
            if t == 'v':
                return None
            opts = [(('in', 700 + nid), '(in %d)' % (700 + nid))] * 2
            if t == 'S' and vt in CHARLIT:
                opts += [('sv', '(sv)'), ('str', '(str)'), (('opt', 'sv'), '(optsv)')] * 2
            if t == 'int':
                opts += [('bool', '(bool)'), ('long', '(long)')] * 2
            if writable(t):
                opts += [(('opt', t), '(opt)')]
                if t not in ('int', 'long', 'bool', 'char', 'u64') and not (isinstance(t, tuple) and t[0] in ('opt', 'var')):
                    opts += [(('var', 'en', t), '(var 1)'), (('var', t, 'en'), '(var 0)')]
            r['type'], r['conv'] = rng.choice(opts)
            r['decl'] = r['type']
            return [r]
        # recursive ones declare their type
        K = 700 + nid
        r = dict(id=nid, conv='(in %d)' % K, decl=('in', K), type=('in', K), nullable=False, vt=vt)
        me = ('cust', nid)
        rules[nid] = r
        o, c = rng.sample(g.alpha, 2) if len(g.alpha) > 1 else (g.alpha[0], g.alpha[0])
        opn = g.lit(rng.choice(['all', 'any', 'ign']), [o])
        cls = g.lit(rng.choice(['all', 'any', 'ign']), [c])
        leaf = g.sub(1)
        if kind == 'bracket':
            inner = rng.choice([me, ('~', me), ('|', me, leaf), ('|', leaf, me)])
            body = ('|', g.group('>>', [opn, inner, cls]), leaf)
        elif kind == 'list':
            body = ('|', g.group('>>', [opn, ('~', g.mod((rng.choice(['delimit', 'delimit_keep']), g.leaf(rng.choice(['any', 'ign']))), me)), cls]), leaf)
        elif kind == 'right':
            body = ('>>', opn, rng.choice([('~', me), ('|', me, leaf), ('|', me, g.lit('ign', [c]))]))
        elif kind in ('mutual', 'sumlike'):
            r2 = dict(id=nid + 1, conv='(in %d)' % (K + 1), decl=('in', K + 1), type=('in', K + 1), nullable=False, vt=vt)
            rules[nid + 1] = r2
            if kind == 'sumlike':  # sum = term % delimit(op); term = open sum close | leaf
                r['body'] = g.mod((rng.choice(['delimit', 'delimit_keep']), g.lit(rng.choice(['any', 'ign']), [c])), ('cust', nid + 1))
                r2['body'] = ('|', g.group('>>', [opn, me, g.lit(rng.choice(['all', 'ign']), [g.c()])]), leaf)
            else:
              r['body'] = ('|', g.group('>>', [opn, ('cust', nid + 1), cls]), leaf)
              r2['body'] = rng.choice([('>>', g.lit('any', [g.c()]), ('~', me)), ('|', g.group('>>', [cls, me]), g.lit('any', [o])), ('+', me)])
            n1 = nullable(to_core(leaf, g.env), g.env)
            r['nullable'] = n1
            r2['nullable'] = nullable(to_core(r2['body'], g.env), g.env)
            if n1 or nullable(to_core(opn, g.env), g.env) or (r2['nullable']):
                raise Invalid('left recursion')
            finish(g, r)
            finish(g, r2)
            return [r, r2]
        else:
            raise AssertionError(kind)
        r['body'] = body
        r['nullable'] = nullable(to_core(leaf, g.env), g.env)
        if r['nullable'] or nullable(to_core(opn, g.env), g.env):
            raise Invalid('left recursion')
        finish(g, r)
        return [r]
    except (Invalid, KeyError):
        for i in (nid, nid + 1):
            rules.pop(i, None)
        return None


def writable(t):
    """value types that can be spelled in C++ by type_cpp"""
    if isinstance(t, str):
        return t not in ('v', 'null')
    return all(writable(x) for x in t[1:] if not isinstance(x, int))


def rule_cpp(r, env):
    decl = ''
    if r['decl'] is not None:
        decl = ' using result_type = %s;' % type_cpp(r['decl'], cpp_vt(r['vt']))
    return 'struct Cu%d : custom_parser<Cu%d, %s> {%s static consteval auto get_parser(); };' % (r['id'], r['id'], cpp_vt(r['vt']), decl)


def rule_def(r, env):
    return 'consteval auto Cu%d::get_parser() { return %s; }' % (r['id'], cpp(r['body'], env))


def rule_sx(r, env):
    return '(%d %s %s)' % (r['id'], r['conv'], ast(r['core'], env))


# ------------------------------------------------------------------ sample inputs (for compile-time evaluation)
def sample(c, env, rng, depth=8, reps=None):
    """an input the expression probably accepts; reps: how often the outermost repetitions repeat"""
    h = c[0]
    if reps is not None and h in ('plus', 'star', 'del'):
        out = sample(c[1], env, rng, depth - 1)
        for _ in range(reps - 1):
            out += (sample(c[2], env, rng, depth - 1) if h == 'del' else []) + sample(c[1], env, rng, depth - 1)
        return out
    if reps is not None and h in ('seq', 'cho', 'maybe', 'exact', 'ign', 'comp', 'name', 'map', 'filter', 'join', 'cust'):
        if h == 'seq':
            return [x for k in c[1:] for x in sample(k, env, rng, depth - 1, reps)]
        if h == 'cho':
            return sample(rng.choice(c[1:]), env, rng, depth - 1, reps)
        if h == 'exact':
            return [x for _ in range(c[1]) for x in sample(c[2], env, rng, depth - 1, reps)]
        if h == 'cust':
            return sample(env.rules[c[1]]['core'], env, rng, depth - 2, reps) if depth > 0 else []
        return sample(children(c)[0], env, rng, depth - 1, reps)
    if h in ('any',):
        return [rng.choice(c[2])] if c[2] else []
    if h == 'none':
        lo, hi = DOM[env.vt]
        for _ in range(20):
            x = rng.choice([97, 98, 99, 100, 120, 121, 48, 49, 44, max(lo, -1), 0, 65])
            if x not in c[2]:
                return [x]
        return []
    if h == 'all':
        return list(c[2])
    if h == 'anything':
        return [rng.choice([97, 98, 120])]
    if h == 'eps':
        return []
    if h == 'seq':
        return [x for k in c[1:] for x in sample(k, env, rng, depth - 1)]
    if h == 'cho':
        return sample(rng.choice(c[1:]), env, rng, depth - 1)
    if h == 'maybe':
        return sample(c[1], env, rng, depth - 1) if rng.random() < 0.6 and depth > 0 else []
    if h in ('plus', 'star'):
        n = rng.randrange(0 if h == 'star' else 1, 4) if depth > 0 else (h == 'plus')
        return [x for _ in range(n) for x in sample(c[1], env, rng, depth - 1)]
    if h == 'exact':
        return [x for _ in range(c[1]) for x in sample(c[2], env, rng, depth - 1)]
    if h == 'del':
        out = sample(c[1], env, rng, depth - 1)
        for _ in range(rng.randrange(3) if depth > 0 else 0):
            out += sample(c[2], env, rng, depth - 1) + sample(c[1], env, rng, depth - 1)
        return out
    if h == 'cust':
        return sample(env.rules[c[1]]['core'], env, rng, depth - 2) if depth > -6 else []
    return sample(children(c)[0], env, rng, depth - 1)


def sample_inputs(c, env, rng, n, alpha, maxlen=24, long=False):
    out = [[]]
    for reps in rng.sample([12, 16, 17, 24, 31, 32, 33, 48, 64], 2) if long else []:
        s = sample(c, env, rng, reps=reps)
        if maxlen >= len(s) and s not in out:
            out.append(s)
            if rng.random() < 0.3:
                out.append(s + [rng.choice(alpha)])
            elif len(s) > 8:
                i = rng.choice([len(s) - 1, len(s) - 2, len(s) // 2, rng.randrange(len(s))])
                out.append(s[:i] + [rng.choice(alpha)] + s[i + 1:])
    for _ in range(n * 6):
        if len(out) >= n:
            break
        s = sample(c, env, rng)
        r = rng.random()
        if r < 0.5 and s:
            i = rng.randrange(len(s))
            k = rng.randrange(4)
            if k == 0:
                del s[i:]
            elif k == 1:
                s[i] = rng.choice(alpha)
            elif k == 2:
                del s[i]
            else:
                s.insert(i, rng.choice(alpha))
        elif r < 0.65:
            s = s + [rng.choice(alpha)]
        if len(s) <= maxlen and s not in out:
            out.append(s)
    return out
