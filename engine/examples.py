"""C19: documents and expressions for the shipped example grammars, and independent readers for them."""
import ctypes, json, math, random, sys
sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ JSON
WS = ' \n\r\t'
HEX = '0123456789abcdefABCDEF'
BAD = None


class Reader:
    """reads the documented JSON language; every method returns (position after, dump) or None"""

    def __init__(self, s):
        self.s = s

    def ws(self, i):
        while i < len(self.s) and self.s[i] in WS:
            i += 1
        return i

    def string(self, i):
        s = self.s
        if i >= len(s) or s[i] != '"':
            return None
        j = i + 1
        while j < len(s):
            c = s[j]
            if c == '"':
                return j + 1, s[i + 1:j]
            if c == '\\':
                if j + 1 < len(s) and s[j + 1] in '"\\/bfnrt':
                    j += 2
                elif j + 5 < len(s) and s[j + 1] == 'u' and all(h in HEX for h in s[j + 2:j + 6]):
                    j += 6
                else:
                    return None
            else:
                j += 1
        return None

    def digits(self, i):
        j = i
        while j < len(self.s) and self.s[j] in '0123456789':
            j += 1
        return j

    def number(self, i):
        s = self.s
        j = i + 1 if s[i:i + 1] == '-' else i
        k = self.digits(j)
        if k == j:
            return None
        if s[j] == '0':
            k = j + 1
        integer, frac, ex = s[i:k], None, None
        if s[k:k + 1] == '.':
            m = self.digits(k + 1)
            if m > k + 1:
                frac, k = s[k + 1:m], m
        if s[k:k + 1] in ('e', 'E'):
            m = k + 2 if s[k + 1:k + 2] in ('+', '-') and k + 1 < len(s) else k + 1
            n = self.digits(m)
            if n > m:
                ex, k = s[k + 1:n], n
        return k, 'N' + integer + ('.' + frac if frac is not None else '') + ('e' + ex if ex is not None else '') + ';'

    def value(self, i):
        i = self.ws(i)
        s = self.s
        r = None
        c = s[i:i + 1]
        if c == '"':
            r = self.string(i)
            r = r and (r[0], 'S' + hx(r[1]))
        elif c == '{':
            r = self.object(i)
        elif c == '[':
            r = self.array(i)
        elif s.startswith('true', i):
            r = i + 4, 'T'
        elif s.startswith('false', i):
            r = i + 5, 'F'
        elif s.startswith('null', i):
            r = i + 4, '0'
        elif c:
            r = self.number(i)
        return r and (self.ws(r[0]), r[1])

    def object(self, i):
        s = self.s
        if s[i:i + 1] != '{':
            return None
        j = self.ws(i + 1)
        if s[j:j + 1] == '}':
            return j + 1, '{}'
        out, j = [], i + 1
        while True:
            j = self.ws(j)
            k = self.string(j)
            if not k:
                return None
            j = self.ws(k[0])
            if s[j:j + 1] != ':':
                return None
            v = self.value(j + 1)
            if not v:
                return None
            out.append(hx(k[1]) + ':' + v[1] + ',')
            j = v[0]
            c = s[j:j + 1]
            if c == '}':
                return j + 1, '{' + ''.join(out) + '}'
            if c != ',':
                return None
            j += 1

    def array(self, i):
        s = self.s
        if s[i:i + 1] != '[':
            return None
        j = self.ws(i + 1)
        if s[j:j + 1] == ']':
            return j + 1, '[]'
        out, j = [], i + 1
        while True:
            v = self.value(j)
            if not v:
                return None
            out.append(v[1] + ',')
            j = v[0]
            c = s[j:j + 1]
            if c == ']':
                return j + 1, '[' + ''.join(out) + ']'
            if c != ',':
                return None
            j += 1


def hx(s):
    return s.encode('latin-1').hex()


def json_expect(kind, s):
    r = Reader(s)
    if kind == 'v':
        x = r.value(0)
    elif kind == 'o':
        x = r.object(0)
    elif kind == 'a':
        x = r.array(0)
    elif kind == 's':
        x = r.string(0)
        x = x and (x[0], 'S' + hx(x[1]))
    else:
        x = r.number(0)
    if x is None:
        return 'no %d no %d ' % (len(s), len(s))
    return 'ok %d ok %d %s' % (len(s) - x[0], len(s) - x[0], x[1])


def refuse(x):
    raise ValueError(x)


DECODER = json.JSONDecoder(strict=False, object_pairs_hook=lambda ps: ('O', ps), parse_float=lambda t: ('N', t), parse_int=lambda t: ('N', t), parse_constant=refuse)


def json_second_opinion(s):
    """what Python's own reader makes of it: (accepted, elements left over, structure) or None when it fails"""
    i = Reader(s).ws(0)
    try:
        v, j = DECODER.raw_decode(s, i)
    except (ValueError, StopIteration, RecursionError):
        return None
    return len(s) - Reader(s).ws(j), v


def flat(v):
    """Python's structure as this file's dump, strings decoded"""
    if v is None:
        return '0'
    if v is True:
        return 'T'
    if v is False:
        return 'F'
    if isinstance(v, str):
        return 'S' + repr(v)
    if isinstance(v, tuple) and v[0] == 'N':
        return 'N' + v[1].replace('E', 'e')
    if isinstance(v, tuple):
        return '{' + ''.join(repr(k) + ':' + flat(x) + ',' for k, x in v[1]) + '}'
    return '[' + ''.join(flat(x) + ',' for x in v) + ']'


def unescape(raw):
    return json.JSONDecoder(strict=False).decode('"' + raw + '"')


def flat_dump(d):
    """the same, from a dump"""
    i = 0

    def run():
        nonlocal i
        c = d[i]
        i += 1
        if c in 'TF0':
            return c
        if c == 'S':
            j = i
            while j < len(d) and d[j] in '0123456789abcdef':
                j += 1
            t, i = d[i:j], j
            return 'S' + repr(unescape(bytes.fromhex(t).decode('latin-1')))
        if c == 'N':
            j = d.index(';', i)
            t, i = d[i:j], j + 1
            return 'N' + t
        if c == '[':
            out = '['
            while d[i] != ']':
                out += run() + ','
                i += 1
            i += 1
            return out + ']'
        out = '{'
        while d[i] != '}':
            j = d.index(':', i)
            out += repr(unescape(bytes.fromhex(d[i:j]).decode('latin-1'))) + ':'
            i = j + 1
            out += run() + ','
            i += 1
        i += 1
        return out + '}'

    return run()


class JsonGen:
    def __init__(self, rng):
        self.r = rng

    def ws(self):
        r = self.r
        return '' if r.random() < 0.6 else ''.join(r.choice(WS) for _ in range(r.choice([1, 1, 2, 4])))

    def string(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 40])
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.5:
                out.append(chr(r.choice([x for x in range(32, 127) if x not in (34, 92)])))
            elif k < 0.7:
                out.append('\\' + r.choice('"\\/bfnrt'))
            elif k < 0.8:
                out.append('\\u' + ''.join(r.choice(HEX) for _ in range(4)))
            elif k < 0.9:
                out.append(chr(r.randrange(128, 256)))
            elif k < 0.95:
                out.append(chr(r.randrange(0, 32)))
            else:
                out.append(r.choice(['{', '}', '[', ']', ',', ':', 'true', "'", '/']))
        return '"' + ''.join(out) + '"'

    def number(self):
        r = self.r
        d = lambda a=1, b=6: ''.join(r.choice('0123456789') for _ in range(r.randint(a, b)))
        s = '-' if r.random() < 0.3 else ''
        s += '0' if r.random() < 0.3 else r.choice('123456789') + d(0, r.choice([0, 1, 5, 30]))
        if r.random() < 0.4:
            s += '.' + d()
        if r.random() < 0.4:
            s += r.choice('eE') + r.choice(['', '+', '-']) + d(1, 4)
        return s

    def value(self, depth):
        r = self.r
        k = r.random()
        if depth <= 0 or k < 0.45:
            return r.choice([self.string, self.number, self.number, lambda: 'true', lambda: 'false', lambda: 'null'])()
        if k < 0.72:
            return self.array(depth)
        return self.object(depth)

    def array(self, depth):
        n = self.r.choice([0, 1, 1, 2, 3, 5, 9])
        if not n:
            return '[' + self.ws() + ']'
        return '[' + ','.join(self.ws() + self.value(depth - 1) + self.ws() for _ in range(n)) + ']'

    def object(self, depth):
        n = self.r.choice([0, 1, 1, 2, 3, 5])
        if not n:
            return '{' + self.ws() + '}'
        keys = [self.string() for _ in range(n)]
        if n > 1 and self.r.random() < 0.2:
            keys[1] = keys[0]
        return '{' + ','.join(self.ws() + k + self.ws() + ':' + self.ws() + self.value(depth - 1) + self.ws() for k in keys) + '}'

    def large(self):
        """one dimension of the document far beyond the ordinary"""
        r = self.r
        n = r.choice([127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 2049, 4097])
        small = lambda: r.choice(['1', '""', 'null', 'true', '[]', '{}', '-0.5e1', '"a"', '[1]'])
        d = lambda k: ''.join(r.choice('0123456789') for _ in range(k))
        what = r.randrange(8)
        if what == 0:
            return r.choice('av'), '[' + ','.join(small() for _ in range(n)) + ']'
        if what == 1:
            return r.choice('ov'), '{' + ','.join('"%s":%s' % (r.choice(['', 'k', str(i)]), small()) for i in range(n)) + '}'
        if what == 2:
            s = '"' + ''.join(r.choice(['a', 'b', ' ', '\\n', '\\u00e9', chr(233)]) if r.random() < 0.5 else 'x' for _ in range(n * r.choice([1, 1, 16]))) + '"'
            return r.choice('sv'), s
        if what == 3:
            return r.choice('nv'), r.choice([lambda: '1' + d(n), lambda: '0.' + d(n), lambda: '1e' + d(n), lambda: '-2' + d(n) + '.' + d(n) + 'E+' + d(n)])()
        if what == 4:
            w = lambda: ''.join(r.choice(WS) for _ in range(n * r.choice([1, 1, 16]))) if r.random() < 0.5 else ''
            return 'v', w() + '[' + w() + '1' + w() + ',' + w() + '{' + w() + '"a"' + w() + ':' + w() + '2' + w() + '}' + w() + ']' + w()
        if what == 5:
            return r.choice('ov'), '{"' + 'k' * n + '":' + self.value(1) + '}'
        n = min(n, 700)
        if what == 6:
            return r.choice('av'), '[' * n + r.choice(['', '1', '{}']) + ']' * r.choice([n, n, n - 1])
        return r.choice('ov'), '{"a":' * n + r.choice(['{}', '1', '"z"']) + '}' * r.choice([n, n, n - 1])

    def document(self):
        r = self.r
        k = r.random()
        if k < 0.08:
            return r.choice('vn'), self.number()
        if k < 0.16:
            return r.choice('vs'), self.string()
        if k < 0.255 and k >= 0.24:
            return self.large()
        if k < 0.24:
            n = r.choice([20, 80, 200])
            o = ''.join(r.choice(['[', '{"a":', '[1,', '[[],']) for _ in range(n))
            c = ''.join({'[': ']', '{': '}'}[x] for x in reversed([x for x in o if x in '[{' or x == ']']) if x in '[{') if '[[]' not in o else None
            if c is None:
                o = '[' * n
                c = ']' * n
            return 'v', o + r.choice(['1', '""', 'null', '']) + c
        kind = r.choice('vvvoa')
        if kind == 'o':
            return 'o', self.object(r.choice([1, 2, 3, 4]))
        if kind == 'a':
            return 'a', self.array(r.choice([1, 2, 3, 4]))
        return 'v', self.ws() + self.value(r.choice([1, 2, 3, 4, 5])) + self.ws()

    def case(self):
        kind, s = self.document()
        if self.r.random() < 0.55:
            s = corrupt(self.r, s, '{}[]:,"\\u0123456789.eE+-truefalsn \n\t\x00\xff/abcxz')
        return kind, s


def corrupt(r, s, alphabet):
    for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
        k = r.randrange(7)
        i = r.randrange(len(s) + 1)
        if k == 0:
            s = s[:i] + r.choice(alphabet) + s[i:]
        elif k == 1:
            s = s[:i] + s[i + 1:]
        elif k == 2:
            s = s[:i] + r.choice(alphabet) + s[i + 1:]
        elif k == 3:
            s = s[:i]
        elif k == 4:
            s = s[i:]
        elif k == 5:
            j = min(len(s), i + r.choice([1, 2, 3, 5]))
            s = s[:j] + s[i:j] + s[j:]
        else:
            s = s + r.choice(alphabet)
    return s


# ------------------------------------------------------------------ arithmetic
LIBM = ctypes.CDLL('libm.so.6')
LIBM.pow.restype = ctypes.c_double
LIBM.pow.argtypes = [ctypes.c_double, ctypes.c_double]
CWS = '\t\n\r '


class Unsure(Exception):
    pass


class Calc:
    """reads the published grammar; values are (value, bound on the rounding error)"""

    def __init__(self, s):
        self.s = s

    def ws(self, i):
        while i < len(self.s) and self.s[i] in CWS:
            i += 1
        return i

    def list(self, i, element, ops):
        i = self.ws(i)
        x = element(i)
        if x is None:
            return None
        items, seps, i = [x[1]], [], x[0]
        while True:
            j = self.ws(i)
            if self.s[j:j + 1] == '' or self.s[j] not in ops:
                break
            y = element(self.ws(j + 1))
            if y is None:
                break
            seps.append(self.s[j])
            items.append(y[1])
            i = y[0]
        return i, items, seps

    def expr(self, i):
        r = self.list(i, self.term, '+-')
        return r and (r[0], ('sum', r[1], r[2]))

    def term(self, i):
        r = self.list(i, self.factor, '*/')
        return r and (r[0], ('prod', r[1], r[2]))

    def factor(self, i):
        r = self.list(i, self.powterm, '^')
        return r and (r[0], ('pow', r[1]))

    def powterm(self, i):
        s = self.s
        if s[i:i + 1] == '(':
            x = self.expr(self.ws(i + 1))
            if x is None:
                return None
            j = self.ws(x[0])
            return (j + 1, x[1]) if s[j:j + 1] == ')' else None
        if s[i:i + 1] == '-':
            x = self.expr(self.ws(i + 1))
            return x and (x[0], ('neg', x[1]))
        d = lambda k: next((m for m in range(k, len(s)) if s[m] not in '0123456789'), len(s))
        j = d(i)
        if j == i:
            return None
        frac = ex = None
        if s[j:j + 1] == '.':
            k = d(j + 1)
            if k > j + 1:
                frac, j2 = s[j + 1:k], k
            else:
                j2 = j
        else:
            j2 = j
        integer, j = s[i:j], j2
        if s[j:j + 1] in ('e', 'E') and j < len(s):
            k = j + 2 if s[j + 1:j + 2] == '-' else j + 1
            m = d(k)
            if m > k:
                ex, j = s[j + 1:m], m
        return j, ('num', integer, frac, ex)


def ulp(v):
    return 0.0 if v == 0 or math.isinf(v) or math.isnan(v) else math.ulp(v)


def settle(v, err, exact):
    """round off: nothing when everything is a small whole number"""
    if exact and not math.isinf(v) and not math.isnan(v) and v == int(v) and abs(v) < 2 ** 53:
        return v, 0.0
    if (math.isinf(v) or math.isnan(v)) and not exact:
        raise Unsure()
    return v, err + 4 * ulp(v)


def divide(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def value(t, k2=False):
    """k2: as the recorded finding K2 has it, where a literal's exponent is a power of the literal itself"""
    if t[0] == 'num':
        _, i, f, e = t
        text = i + ('.' + f if f else '')
        v = float(text)
        if e and k2:
            return power((v, ulp(v) if f else 0.0), (float(int(e)), 0.0))
        if e:
            return float(text + 'e' + e), 8 * ulp(float(text + 'e' + e))
        return settle(v, ulp(v), not f)
    if t[0] == 'neg':
        v, e = value(t[1], k2)
        return -v, e
    if t[0] == 'pow':
        vs = [value(x, k2) for x in t[1]]
        acc = vs[-1]
        for x in reversed(vs[:-1]):
            acc = power(x, acc)
        return acc
    vs = [value(x, k2) for x in t[1]]
    v, e = vs[0]
    for (w, f), op in zip(vs[1:], t[2]):
        exact = e == 0 and f == 0
        if op in '+-':
            r = v + w if op == '+' else v - w
            v, e = settle(r, e + f, exact)
        elif op == '*':
            r = v * w
            v, e = settle(r, abs(v) * f + abs(w) * e + e * f if not exact else 0.0, exact)
        else:
            if f and abs(w) <= 4 * f:
                raise Unsure()
            r = divide(v, w)
            v, e = settle(r, (e + abs(r) * f) / (abs(w) - f) if not exact else 0.0, exact and (w == 0 or math.isinf(w) or math.isnan(w) or math.isnan(v) or math.isinf(v) or r * w == v and r == int(r)))if not (math.isinf(r) or math.isnan(r)) else settle(r, 0.0, exact)
        if not (e < 1e-3 * abs(v) or e == 0 or abs(v) < 1e-9 and e < 1e-6):
            raise Unsure()
    return v, e


def power(x, y):
    a, ea = x
    b, eb = y
    v = LIBM.pow(a, b)
    if ea == 0 and eb == 0:
        return settle(v, 0.0, True) if math.isinf(v) or math.isnan(v) or v == int(v) else (v, 4 * ulp(v))
    if a == 0 or abs(a) <= 4 * ea or (a < 0 and eb) or math.isinf(v) or math.isnan(v) or math.isinf(a) or math.isinf(b):
        raise Unsure()
    rel = abs(b) * ea / (abs(a) - ea) + abs(math.log(abs(a))) * eb
    if rel > 1e-4 or v == 0:
        raise Unsure()
    return v, abs(v) * rel * 2 + 8 * ulp(v)


def calc_expect(kind, s, k2=False):
    """(accepted, left over, value and error, or None when the value is not asserted)"""
    c = Calc(s)
    if kind == 'i':
        x = c.expr(c.ws(0))
        if x is None or c.ws(x[0]) != len(s):
            return False, len(s), None
        left = 0
    else:
        x = c.expr(0)
        if x is None:
            return False, len(s), None
        left = len(s) - x[0]
    try:
        return True, left, value(x[1], k2)
    except (Unsure, OverflowError, ValueError):
        return True, left, None


class CalcGen:
    def __init__(self, rng):
        self.r = rng

    def ws(self):
        r = self.r
        return '' if r.random() < 0.65 else ''.join(r.choice(CWS) for _ in range(r.choice([1, 1, 2, 3])))

    def number(self):
        r = self.r
        d = lambda a, b: ''.join(r.choice('0123456789') for _ in range(r.randint(a, b)))
        s = d(1, r.choice([1, 1, 1, 2, 3, 8, 18]))
        if r.random() < 0.3:
            s += '.' + d(1, 6)
        if r.random() < 0.25:
            s += r.choice('eE') + r.choice(['', '-']) + r.choice(['', '', '0']) + str(r.choice([0, 1, 2, 3, 5, 10, 60, 250]))
        return s

    def expr(self, depth):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 4])
        s = self.term(depth)
        for _ in range(n - 1):
            s += self.ws() + r.choice('+-') + self.ws() + self.term(depth)
        return s

    def term(self, depth):
        r = self.r
        s = self.factor(depth)
        for _ in range(r.choice([1, 1, 2, 3]) - 1):
            s += self.ws() + r.choice('*/') + self.ws() + self.factor(depth)
        return s

    def factor(self, depth):
        r = self.r
        s = self.powterm(depth)
        for _ in range(r.choice([1, 1, 1, 2, 3]) - 1):
            s += self.ws() + '^' + self.ws() + (str(r.choice([0, 1, 2, 3])) if r.random() < 0.7 else self.powterm(depth - 1))
        return s

    def powterm(self, depth):
        r = self.r
        k = r.random()
        if depth > 0 and k < 0.3:
            return '(' + self.ws() + self.expr(depth - 1) + self.ws() + ')'
        if depth > 0 and k < 0.42:
            return '-' + self.ws() + self.expr(depth - 1)
        return self.number()

    def large(self):
        r = self.r
        n = r.choice([127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025, 2049, 4097])
        what = r.randrange(6)
        digit = lambda: r.choice('0123456789')
        if what == 0:
            return digit() + ''.join(r.choice('+-') + r.choice(['', '', ' ']) + digit() for _ in range(n))
        if what == 1:
            return digit() + ''.join(r.choice(['*1', '*1', '/1', '*2' if i < 40 else '*1', ' * 1']) for i in range(n)) + r.choice(['', '+1'])
        if what == 2:
            return r.choice(['2', '1', '0']) + '^1' * n
        if what == 3:
            return ' ' * n + '1' + '\n' * n + '+' + '\t' * n + '2' + r.choice(['', '\r' * n])
        n = min(n, 400)
        if what == 4:
            return '(' * n + '1' + ')' * r.choice([n, n, n - 1])
        return '-' * n + '3' + r.choice(['', '+1', '^2'])

    def case(self):
        r = self.r
        k = r.random()
        kind = r.choice('iie')
        if 0.12 <= k < 0.13:
            return kind, self.large()
        if k < 0.05:
            n = r.choice([10, 60])
            s = '(' * n + self.expr(1) + ')' * n
        elif k < 0.12:
            s = ''.join(r.choice('0123456789.eE+-*/^() ') for _ in range(r.randint(0, 14)))
        else:
            s = self.ws() + self.expr(r.choice([0, 1, 2, 3])) + self.ws()
        if r.random() < 0.35:
            s = corrupt(r, s, '0123456789.eE+-*/^() \t\nx')
        return kind, s


def calc_ok(s):
    """within the stated number formats: what a double and a small exponent can hold"""
    import re
    for m in re.finditer(r'(\d+)(?:\.(\d+))?(?:[eE](-?\d+))?', s):
        if len(m.group(1)) > 25 or len(m.group(2) or '') > 25 or (m.group(3) and abs(int(m.group(3))) > 260):
            return False
    return True
