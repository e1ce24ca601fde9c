"""Grammar expressions: C++ surface form, the normalised core grammar the library documents,
the literal ("raw") reading, value types and well-formedness.

Surface trees (tuples):
  ('lit', kind, vt, codes, style)   kind: any none all ign
  ('anything', vt) ('epsof', vt)
  ('>>', a, b) ('|', a, b) ('|eps', a) ('~', a) ('+', a) ('*', a) ('!', a)
  ('mod', (m1, m2, ...), a, form)   modifiers applied left to right; form: grouping seed
  ('cust', id)
Core trees: ('any'|'none'|'all', vt, codes) ('anything', vt) ('eps', vt) ('seq', ..) ('cho', ..)
  ('maybe', p) ('plus', p) ('star', p) ('exact', n, p) ('del', p, d) ('ign', p) ('comp', p)
  ('join', p) ('map', fn, p) ('filt', K, apply, style, p) ('name', s, p) ('cust', id, vt)
"""
import random

CHARLIT = {'char': '', 'wchar_t': 'L', 'char8_t': 'u8', 'char16_t': 'u', 'char32_t': 'U'}


class Invalid(Exception):
    pass


# ------------------------------------------------------------------ C++ spelling of elements
def lit_string(vt, codes):
    pre = CHARLIT[vt]
    if vt in ('char', 'char8_t'):
        out = ''
        for c in codes:
            ch = chr(c & 255)
            if ch.isascii() and (ch.isalnum() or ch in ' _+-*.,:;()[]{}<>=!|&^%$#@~'):
                out += ch
            else:
                out += '\\%03o' % (c & 255)
        if vt == 'char8_t':
            # octal escapes in u8 literals are code units
            pass
        return pre + '"' + out + '"'
    parts = []
    cur = ''
    for c in codes:
        ch = chr(c) if 0 <= c < 128 else ''
        if ch and ch.isalnum():
            cur += ch
        else:
            if cur:
                parts.append(cur)
            cur = ''
            parts.append('\\x%x' % (c & 0xffffffff))
    if cur:
        parts.append(cur)
    if not parts:
        parts = ['']
    return ' '.join(pre + '"' + p + '"' for p in parts)


def elem_const(vt, c):
    if vt == 'char':
        ch = chr(c & 255)
        return "'%s'" % ch if ch.isascii() and ch.isalnum() else "'\\%03o'" % (c & 255)
    if vt in ('wchar_t', 'char16_t', 'char32_t'):
        return "static_cast<%s>(%d)" % (vt, c)
    if vt == 'char8_t':
        return "static_cast<char8_t>(%d)" % c
    if vt == 'int':
        return '(%d)' % c if c > -2147483648 else '(-2147483647 - 1)'
    if vt == 'Box':
        return 'vh::Box{%d}' % c
    if vt == 'St':
        return 'vh::mkst(%d)' % c
    if vt == 'En':
        return 'static_cast<vh::En>(%d)' % c
    return 'static_cast<%s>(%dll)' % (vt, c)


def cpp_vt(vt):
    return {'En': 'vh::En', 'St': 'vh::St', 'Box': 'vh::Box'}.get(vt, vt)


def lit_cpp(kind, vt, codes, style):
    """style: 0 udl, 1 udl long name, 2 template string, 3 pack, 4 explicit array"""
    if kind == 'ign' and style in (1, 3):
        style = 0
    if vt in CHARLIT:
        if style in (3, 4) and not codes:
            style = 0
        if style in (3, 4) and len(codes) > 40:
            style = 2
        if style == 0:
            return '%s_%s' % (lit_string(vt, codes), kind)
        if style == 1:
            return '%s_%s_of' % (lit_string(vt, codes), kind)
        if style == 2:
            return '%s<%s>' % (kind, lit_string(vt, codes))
    if style == 3 and codes and kind != 'ign':
        return '%s_of<%s>' % (kind, ', '.join(elem_const(vt, c) for c in codes))
    return '%s<detail::static_array<%s, %d>{%s}>' % (kind, cpp_vt(vt), len(codes), ', '.join(elem_const(vt, c) for c in codes))


# ------------------------------------------------------------------ functions
# fn tuples: ('dig', tag, K, apply, byval) ('into', K, apply) ('sv',) ('str',) ('id', K) ('void', K, apply)
#            ('dropf', K) ('dropl', K) ('empt', K) ('len', K) ('const', kind, a, b) ('dflt', type) ('get', K) ('free', K)
def obj_cpp(tag, K):
    return {'ob': 'vh::Ob<%d>', 'mo': 'vh::Mo<%d>', 'co': 'vh::Co<%d>', 'ho': 'vh::Ho<%d>', 'in': 'vh::In<%d>'}[tag] % K


def type_cpp(t, vt):
    """C++ spelling of a value type (only those that can be written down)."""
    if isinstance(t, str):
        return {'v': 'void', 'int': 'int', 'long': 'long', 'bool': 'bool', 'char': 'char', 'u64': 'vh::u64', 'en': 'vh::En', 'big': 'vh::Big', 'uns': 'unsigned', 'shrt': 'short', 'uchr': 'unsigned char', 'dbl': 'double',
                'null': 'std::nullptr_t', 'sv': 'std::basic_string_view<%s>' % vt, 'str': 'std::basic_string<%s>' % vt,
                'S': 'detail::output_span<%s>' % cpp_vt(vt)}[t]
    h = t[0]
    if h == 'opt':
        return 'std::optional<%s>' % type_cpp(t[1], vt)
    if h == 'vec':
        return 'std::vector<%s>' % type_cpp(t[1], vt)
    if h == 'arr':
        return 'std::array<%s, %d>' % (type_cpp(t[2], vt), t[1])
    if h == 'tup':
        return 'std::tuple<%s>' % ', '.join(type_cpp(x, vt) for x in t[1:])
    if h == 'var':
        return 'std::variant<%s>' % ', '.join(type_cpp(x, vt) for x in t[1:])
    if h == 'pair':
        return 'std::pair<%s, %s>' % (type_cpp(t[1], vt), type_cpp(t[2], vt))
    return obj_cpp(h, t[1])


def const_cpp(fn):
    _, kind, a, b = fn
    return {'int': '%d' % a, 'long': '%dL' % a, 'bool': 'true' if a else 'false', 'char': "static_cast<char>(%d)" % a,
            'en': 'static_cast<vh::En>(%d)' % a, 'big': 'vh::Big{%d, %s}' % (a, b), 'null': 'nullptr', 'u64': 'vh::u64{%dull}' % a,
            'uns': '%du' % a, 'shrt': 'static_cast<short>(%d)' % a, 'uchr': 'static_cast<unsigned char>(%d)' % a, 'dbl': '%d.0' % a}[kind]


REARRANGE = {'dup': 'Dup', 'halves': 'Halves', 'chips': 'Chips', 'overlap': 'Overlap', 'swap2': 'Swap2', 'rev': 'Rev'}
PREDS = ('Pred', 'PredT', 'PredF', 'PredI', 'PredD', 'PredP', 'PredN', 'PredM')


def fn_value_cpp(fn):
    h = fn[0]
    if h == 'dig':
        tag, K, byval = fn[1], fn[2], fn[4]
        r = tag if tag in ('int',) else 'vh::u64' if tag == 'u64' else obj_cpp(tag, K)
        return 'vh::%s<%s, %d>{}' % ('FnV' if byval else 'Fn', r, K)
    if h == 'dep':
        return 'vh::Dep<%d, %s>{}' % (fn[2], cpp_vt(fn[3]))
    if h in REARRANGE:
        return 'vh::%s<%d>{}' % (REARRANGE[h], fn[1])
    return {'id': lambda: 'vh::Ident<%d>{}' % fn[1], 'void': lambda: 'vh::VoidFn<%d>{}' % fn[1], 'dropf': lambda: 'vh::DropF<%d>{}' % fn[1],
            'dropl': lambda: 'vh::DropL<%d>{}' % fn[1], 'empt': lambda: 'vh::Empt<%d>{}' % fn[1], 'len': lambda: 'vh::Len<%d>{}' % fn[1],
            'get': lambda: '&vh::Ob<%d>::get' % fn[1], 'free': lambda: '&vh::free_fn<%d>' % fn[1]}[h]()


def fn_sx(fn):
    h = fn[0]
    if h == 'dig':
        return '(dig %s %d %d %d)' % (fn[1], fn[2], fn[3], fn[2])
    if h == 'dep':
        return '(dig %s %d 0 %d)' % (fn[1], fn[2], fn[2])
    if h == 'into':
        return '(into %d %d)' % (fn[1], fn[2])
    if h in ('sv', 'str'):
        return '(%s)' % h
    if h == 'void':
        return '(void %d %d)' % (fn[1], fn[2])
    if h == 'const':
        kind = fn[1]
        if kind == 'en':
            return '(const (e %d))' % fn[2]
        if kind == 'big':
            return '(const (b %d %d))' % (fn[2], fn[3])
        return '(const (i %d))' % fn[2]
    if h == 'dflt':
        return '(dflt %s)' % type_sx(fn[1])
    return '(%s %d)' % (h, fn[1])


def name_cpp(n, as_char=False):
    """a parser's name: "L:x" is the wide string L"x", "#5" the number 5; a one-character name may be written as the character"""
    if n.startswith('L:'):
        return 'L"%s"' % n[2:]
    if n.startswith('u:'):
        return 'u"%s"' % n[2:]
    if n.startswith('#'):
        return n[1:]
    if as_char and len(n) == 1:
        return "'%s'" % n
    return '"%s"' % n.replace('\0', '\\0')


def type_sx(t):
    if isinstance(t, str):
        return t
    return '(' + ' '.join(type_sx(x) if not isinstance(x, int) else str(x) for x in t) + ')'


# ------------------------------------------------------------------ modifiers
def mod_cpp(m, env):
    h = m[0]
    if h in ('ignore', 'complete', 'join'):
        return h
    if h == 'exactly':
        return 'exactly<%d>' % m[1]
    if h == 'map':
        fn = m[1]
        if fn[0] == 'into':
            return 'into<%s>' % obj_cpp('in', fn[1])
        if fn[0] == 'sv':
            return 'into<std::basic_string_view<%s>>' % cpp_vt(env.vt)
        if fn[0] == 'str':
            return 'into<std::basic_string<%s>>' % cpp_vt(env.vt)
        if fn[0] == 'const':
            return 'constant<%s>' % const_cpp(fn)
        if fn[0] == 'dflt':
            return 'defaulted<%s>' % type_cpp(fn[1], cpp_vt(env.vt))
        return 'map<%s>' % fn_value_cpp(fn)
    if h == 'apply':
        fn = m[1]
        if fn[0] == 'into':
            return 'apply_into<%s>' % obj_cpp('in', fn[1])
        return 'apply<%s>' % fn_value_cpp(fn)
    if h == 'filter':
        return 'filter<vh::%s<%d>{}>' % (PREDS[m[2]], m[1])
    if h == 'apply_filter':
        return 'apply_filter<vh::%s<%d>{}>' % (PREDS[m[2]], m[1])
    if h in ('delimit', 'delimit_keep'):
        return '%s(%s)' % (h, cpp(m[1], env))
    if h == 'name':
        return 'name<%s>' % name_cpp(m[1])
    if h == 'sub':
        return 'sub(%s)' % ', '.join('name<%s> = (%s)' % (name_cpp(s, f % 2), mods_cpp(ms, env, random.Random(f))) for s, ms, f in m[1])
    raise AssertionError(m)


def mods_cpp(ms, env, rng):
    """A modifier expression equivalent to the chain ms, arbitrarily grouped."""
    if len(ms) == 1:
        return stored(mod_cpp(ms[0], env), env, rng)
    k = rng.randrange(1, len(ms))
    return stored('(%s %% %s)' % (mods_cpp(ms[:k], env, rng), mods_cpp(ms[k:], env, rng)), env, rng)


def stored(e, env, rng):
    """the expression itself, or the name of an object it was stored in before (reused when the same was stored already)"""
    if env.defs is None:
        return e
    r = rng.random()
    if r > 0.45:
        return e
    for d in env.defs:
        if d.endswith(' = %s;' % e) and r < 0.35:
            return d.split(' = ')[0].split()[-1]
    name = '%s%d' % (env.defprefix, len(env.defs))
    if r < 0.06:
        env.defs.append('consteval auto %s() { return %s; }' % (name, e))
        return name + '()'
    env.defs.append('%sconstexpr auto %s = %s;' % ('inline ' if r < 0.12 else '', name, e))
    return name


def apply_cpp(e, ms, env, rng):
    if not ms:
        return e
    k = rng.randrange(1, len(ms) + 1)
    head, rest = ms[:k], ms[k:]
    r = rng.random()
    if k == 1 and head[0][0] in ('delimit', 'delimit_keep') and r < 0.3:
        e = '%s(%s, %s)' % (head[0][0], e, cpp(head[0][1], env))
    elif k == 1 and head[0][0] == 'sub' and r < 0.3:
        e = 'sub(%s, %s)' % (e, mod_cpp(head[0], env)[4:-1])
    elif r < 0.5:
        e = '(%s %% %s)' % (e, mods_cpp(head, env, rng))
    else:
        f = mods_cpp(head, env, rng)
        e = '%s(%s)' % (f, e)
    if rest:
        e = stored(e, env, rng)
    return apply_cpp(e, rest, env, rng)


class Env:
    """element type of the program and the custom rules"""

    def __init__(self, vt, rules=None):
        self.vt = vt
        self.rules = rules if rules is not None else {}
        self.defs, self.defprefix = None, ''


def cpp(s, env):
    h = s[0]
    if h == 'lit':
        return lit_cpp(s[1], s[2], s[3], s[4])
    if h == 'anything':
        return 'detail::anything_parser<%s>{}' % cpp_vt(s[1])
    if h == 'epsof':
        return 'eps.of<%s>' % cpp_vt(s[1])
    if h == '>>' or h == '|':
        return '(%s %s %s)' % (cpp(s[1], env), h, cpp(s[2], env))
    if h == '|eps':
        return '(%s | eps)' % cpp(s[1], env)
    if h in '~+*!':
        return '(%s%s)' % (h, cpp(s[1], env))
    if h == 'mod':
        if s[3] < 0:
            # all modifiers combined first: from the left, from the right, or in the middle
            ms = [mod_cpp(m, env) for m in s[1]]
            while len(ms) > 1:
                i = {-1: 0, -2: len(ms) - 2, -3: (len(ms) - 1) // 2}[s[3]]
                ms[i:i + 2] = ['(%s %% %s)' % (ms[i], ms[i + 1])]
            return '(%s %% %s)' % (cpp(s[2], env), ms[0])
        return apply_cpp(cpp(s[2], env), s[1], env, random.Random(s[3]))
    if h == 'cust':
        return 'Cu%d{}' % s[1]
    raise AssertionError(s)


# ------------------------------------------------------------------ normalised core
def mk_choice(a, b):
    if a == b:
        return a
    ka, kb = a[0], b[0]
    if ka in ('any', 'none') and kb in ('any', 'none'):
        x, y = set(a[2]), set(b[2])
        vt = a[1]
        if ka == 'any' and kb == 'any':
            return ('any', vt, tuple(sorted(x | y)))
        if ka == 'none' and kb == 'none':
            return ('none', vt, tuple(sorted(x & y)))
        if ka == 'any':
            return ('none', vt, tuple(sorted(y - x)))
        return ('none', vt, tuple(sorted(x - y)))
    la = a[1:] if ka == 'cho' else (a,)
    lb = b[1:] if kb == 'cho' else (b,)
    return ('cho',) + la + lb


def mk_seq(a, b):
    if a[0] == 'all' and b[0] == 'all':
        return ('all', a[1], a[2] + b[2])
    la = a[1:] if a[0] == 'seq' else (a,)
    lb = b[1:] if b[0] == 'seq' else (b,)
    return ('seq',) + la + lb


def mk_rep(op, p):
    if op == '~':
        return {'maybe': p, 'plus': ('star', p[1]), 'star': p}.get(p[0], ('maybe', p))
    if op == '+':
        return {'maybe': ('star', p[1]), 'plus': p, 'star': p}.get(p[0], ('plus', p))
    return {'maybe': ('star', p[1]), 'plus': ('star', p[1]), 'star': p}.get(p[0], ('star', p))


def mk_not(p):
    if p[0] == 'any':
        return ('none',) + p[1:]
    if p[0] == 'none':
        return ('any',) + p[1:]
    raise Invalid('!')


def vt_of(c):
    h = c[0]
    if h in ('any', 'none', 'all', 'anything', 'eps'):
        return c[1]
    if h == 'cust':
        return c[2]
    if h == 'exact' or h == 'map' or h == 'name':
        return vt_of(c[2])
    if h == 'filt':
        return vt_of(c[4])
    return vt_of(c[1])


def apply_mod(m, p, env, raw=False):
    h = m[0]
    conv = to_raw if raw else to_core
    if h == 'ignore':
        return p if p[0] == 'ign' else ('ign', p)
    if h == 'complete':
        return p if p[0] == 'comp' else ('comp', p)
    if h == 'join':
        return p if p[0] == 'join' else ('join', p)
    if h == 'exactly':
        return ('exact', m[1], p)
    if h in ('map', 'apply'):
        return ('map', m[1], p)
    if h == 'filter':
        return ('filt', m[1], 0, m[2], p)
    if h == 'apply_filter':
        return ('filt', m[1], 1, m[2], p)
    if h == 'delimit':
        return ('del', p, ('ign', conv(m[1], env)))
    if h == 'delimit_keep':
        return ('del', p, conv(m[1], env))
    if h == 'name':
        return ('name', m[1], p)
    if h == 'sub':
        for s, ms, _ in m[1]:
            p = substitute(p, s, ms, env)
        return p
    raise AssertionError(m)


def substitute(p, s, ms, env):
    h = p[0]
    if h in ('any', 'none', 'all', 'anything', 'eps', 'cust'):
        return p
    rec = lambda x: substitute(x, s, ms, env)
    if h == 'name':
        inner = rec(p[2])
        if p[1] != s:
            return ('name', p[1], inner)
        for m in ms:
            inner = apply_mod(m, inner, env)
        return inner
    if h in ('seq', 'cho'):
        return (h,) + tuple(rec(x) for x in p[1:])
    if h == 'exact' or h == 'map':
        return (h, p[1], rec(p[2]))
    if h == 'filt':
        return p[:4] + (rec(p[4]),)
    if h == 'del':
        return ('del', rec(p[1]), rec(p[2]))
    return (h, rec(p[1]))


def to_core(s, env):
    h = s[0]
    if h == 'lit':
        kind, vt, codes = s[1], s[2], tuple(s[3])
        if kind in ('any', 'none'):
            return (kind, vt, tuple(sorted(set(codes))))
        if kind == 'all':
            return ('all', vt, codes)
        return ('ign', ('all', vt, codes))
    if h == 'anything':
        return s
    if h == 'epsof':
        return ('eps', s[1])
    if h == '>>':
        return mk_seq(to_core(s[1], env), to_core(s[2], env))
    if h == '|':
        return mk_choice(to_core(s[1], env), to_core(s[2], env))
    if h == '|eps':
        a = to_core(s[1], env)
        return mk_choice(a, ('eps', env.vt))
    if h in '~+*':
        return mk_rep(h, to_core(s[1], env))
    if h == '!':
        return mk_not(to_core(s[1], env))
    if h == 'mod':
        p = to_core(s[2], env)
        for m in s[1]:
            p = apply_mod(m, p, env)
        return p
    if h == 'cust':
        return ('cust', s[1], env.vt)
    raise AssertionError(s)


def to_raw(s, env):
    h = s[0]
    if h in ('lit', 'anything', 'epsof', 'cust'):
        return to_core(s, env)
    if h == '>>':
        return ('seq', to_raw(s[1], env), to_raw(s[2], env))
    if h == '|':
        return ('cho', to_raw(s[1], env), to_raw(s[2], env))
    if h == '|eps':
        return ('cho', to_raw(s[1], env), ('eps', env.vt))
    if h in '~+*':
        p = to_raw(s[1], env)
        if h != '~' and nullable(p, env):
            raise Invalid('raw repetition of nullable')
        return ({'~': 'maybe', '+': 'plus', '*': 'star'}[h], p)
    if h == '!':
        p = to_core(s[1], env)  # complement of the set the operand denotes
        return mk_not(p)
    if h == 'mod':
        p = to_raw(s[2], env)
        for m in s[1]:
            if m[0] == 'sub':
                raise Invalid('no raw reading')
            p = apply_mod(m, p, env, raw=True)
        return p
    raise AssertionError(s)


# ------------------------------------------------------------------ static analysis
def rtype(c, env):
    h = c[0]
    if h in ('any', 'none', 'all', 'anything'):
        return 'S'
    if h in ('eps', 'ign'):
        return 'v'
    if h == 'seq':
        ts = [t for t in (rtype(x, env) for x in c[1:]) if t != 'v']
        return 'v' if not ts else ts[0] if len(ts) == 1 else ('tup',) + tuple(ts)
    if h == 'cho':
        ts = []
        for x in c[1:]:
            t = rtype(x, env)
            if t != 'v' and t not in ts:
                ts.append(t)
        return 'v' if not ts else ts[0] if len(ts) == 1 else ('var',) + tuple(ts)
    if h in ('maybe', 'plus', 'star'):
        t = rtype(c[1], env)
        return 'v' if t == 'v' else ('opt' if h == 'maybe' else 'vec', t)
    if h == 'exact':
        t = rtype(c[2], env)
        return 'v' if t == 'v' else ('arr', c[1], t)
    if h == 'del':
        p, d = rtype(c[1], env), rtype(c[2], env)
        if p == 'v':
            return 'v' if d == 'v' else ('vec', d)
        return ('vec', p) if d == 'v' else ('pair', ('vec', p), ('vec', d))
    if h == 'comp':
        return rtype(c[1], env)
    if h == 'join':
        if not joinable(rtype(c[1], env)):
            raise Invalid('join of %r' % (rtype(c[1], env),))
        return 'S'
    if h == 'name':
        return rtype(c[2], env)
    if h == 'map':
        return map_type(c[1], rtype(c[2], env), env)
    if h == 'filt':
        t = rtype(c[4], env)
        if c[2] and not tuple_like(t):
            raise Invalid('apply_filter')
        return t
    if h == 'cust':
        return env.rules[c[1]]['type']
    raise AssertionError(c)


def joinable(t):
    if t == 'S':
        return True
    if isinstance(t, str):
        return False
    if t[0] in ('opt', 'vec'):
        return joinable(t[1])
    if t[0] == 'arr':
        return joinable(t[2])
    if t[0] == 'tup':
        return all(joinable(x) for x in t[1:])
    return False


def tuple_like(t):
    return isinstance(t, tuple) and (t[0] in ('tup', 'pair') or (t[0] == 'arr' and t[1] <= 40))


def copyable(t):
    if isinstance(t, str):
        return True
    if t[0] in ('mo', 'ho'):
        return False
    return all(copyable(x) for x in t[1:] if not isinstance(x, int))


def map_type(fn, t, env):
    h = fn[0]
    if h == 'dig':
        if fn[3] and not tuple_like(t):
            raise Invalid('apply')
        return fn[1] if fn[1] in ('int', 'u64') else (fn[1], fn[2])
    if h == 'dep':
        if t != 'S':
            raise Invalid(h)
        return fn[1]
    if h == 'into':
        if fn[2] and not tuple_like(t):
            raise Invalid('apply_into')
        r = ('in', fn[1])
        if t == r or (fn[2] and isinstance(t, tuple) and t[0] == 'arr' and t[1] == 1 and t[2] == r):
            raise Invalid('into of the same type')
        return r
    if h == 'sv':
        if t != 'S' or env.vt not in CHARLIT:
            raise Invalid('sv')
        return 'sv'
    if h == 'str':
        if t not in ('S', 'sv') or env.vt not in CHARLIT:
            raise Invalid('str')
        return 'str'
    if h == 'id':
        if t == 'v':
            raise Invalid('id')
        return t
    if h == 'void':
        if fn[2] and not tuple_like(t):
            raise Invalid('apply')
        return 'v'
    if h in ('dropf', 'dropl', 'empt'):
        if t not in ('S', 'sv'):
            raise Invalid(h)
        return t
    if h in ('dup', 'overlap', 'halves', 'chips'):
        if t != 'S':
            raise Invalid(h)
        return ('arr', 2, 'S') if h == 'halves' else ('vec', 'S') if h == 'chips' else ('tup', 'S', 'S')
    if h == 'swap2':
        if not (isinstance(t, tuple) and t[0] == 'tup' and len(t) == 3):
            raise Invalid(h)
        return ('tup', t[2], t[1])
    if h == 'rev':
        if not (isinstance(t, tuple) and t[0] in ('vec', 'arr')) or t == ('vec', 'bool'):
            raise Invalid(h)
        return t
    if h == 'len':
        if t not in ('S', 'sv'):
            raise Invalid(h)
        return 'int'
    if h == 'get':
        if t != ('ob', fn[1]):
            raise Invalid(h)
        return 'u64'
    if h == 'free':
        if t != 'int':
            raise Invalid(h)
        return 'int'
    if h == 'const':
        return fn[1]
    if h == 'dflt':
        return fn[1]
    raise AssertionError(fn)


def nullable(c, env):
    """Can it succeed without consuming?  (over-approximation: value-dependent checks assumed passed)"""
    h = c[0]
    if h in ('any', 'none', 'anything'):
        return False
    if h == 'all':
        return len(c[2]) == 0
    if h == 'eps':
        return True
    if h == 'seq':
        return all(nullable(x, env) for x in c[1:])
    if h == 'cho':
        return any(nullable(x, env) for x in c[1:])
    if h in ('maybe', 'star'):
        return True
    if h in ('plus', 'ign', 'comp', 'join', 'del'):
        return nullable(c[1], env)
    if h in ('exact', 'map', 'name'):
        return nullable(c[2], env)
    if h == 'filt':
        return nullable(c[4], env)
    if h == 'cust':
        return env.rules[c[1]].get('nullable', False)
    raise AssertionError(c)


def children(c):
    h = c[0]
    if h in ('any', 'none', 'all', 'anything', 'eps', 'cust'):
        return ()
    if h in ('seq', 'cho'):
        return c[1:]
    if h in ('exact', 'map', 'name'):
        return (c[2],)
    if h == 'filt':
        return (c[4],)
    if h == 'del':
        return (c[1], c[2])
    return (c[1],)


def check(c, env):
    """Raises Invalid unless the grammar is well typed and free of unbounded repetition of nothing."""
    h = c[0]
    for k in children(c):
        check(k, env)
    if h in ('plus', 'star') and nullable(c[1], env):
        raise Invalid('repetition of nullable')
    if h == 'del' and nullable(c[1], env) and nullable(c[2], env):
        raise Invalid('delimited nullable')
    rtype(c, env)


def size(c):
    return 1 + sum(size(k) for k in children(c))


def tsize(t):
    return 1 if isinstance(t, str) else 1 + sum(tsize(x) for x in t[1:] if not isinstance(x, int))


def ast(c, env):
    h = c[0]
    if h in ('any', 'none', 'all'):
        return '(%s%s)' % (h, ''.join(' %d' % x for x in c[2]))
    if h == 'anything' or h == 'eps':
        return '(%s)' % h
    if h == 'seq':
        return '(seq %s)' % ' '.join(ast(x, env) for x in c[1:])
    if h == 'cho':
        t = rtype(c, env)
        slots = []
        for x in c[1:]:
            tx = rtype(x, env)
            if tx == 'v':
                slots.append(-1)
            elif not (isinstance(t, tuple) and t[0] == 'var') or tx == t:
                slots.append(-2)
            else:
                slots.append(t[1:].index(tx))
        # a single alternative type that is itself a variant is handed over bare
        distinct = []
        for x in c[1:]:
            tx = rtype(x, env)
            if tx != 'v' and tx not in distinct:
                distinct.append(tx)
        if len(distinct) == 1:
            slots = [-1 if rtype(x, env) == 'v' else -2 for x in c[1:]]
        else:
            slots = [-1 if rtype(x, env) == 'v' else distinct.index(rtype(x, env)) for x in c[1:]]
        return '(cho %s (%s) %s)' % (type_sx(t), ' '.join(map(str, slots)), ' '.join(ast(x, env) for x in c[1:]))
    if h in ('maybe', 'plus', 'star'):
        return '(%s %d %s)' % (h, rtype(c[1], env) == 'v', ast(c[1], env))
    if h == 'exact':
        return '(exact %d %d %s)' % (c[1], rtype(c[2], env) == 'v', ast(c[2], env))
    if h == 'del':
        return '(del %d %d %s %s)' % (rtype(c[1], env) == 'v', rtype(c[2], env) == 'v', ast(c[1], env), ast(c[2], env))
    if h in ('ign', 'comp', 'join'):
        return '(%s %s)' % (h, ast(c[1], env))
    if h == 'name':
        return '(name %s)' % ast(c[2], env)
    if h == 'map':
        return '(map %s %s)' % (fn_sx(c[1]), ast(c[2], env))
    if h == 'filt':
        return '(filt %d %d %s)' % (c[1], c[2], ast(c[4], env))
    if h == 'cust':
        return '(cust %d)' % c[1]
    raise AssertionError(c)


def has(c, pred):
    return pred(c) or any(has(k, pred) for k in children(c))


# ------------------------------------------------------------------ compile-time evaluation limits of the installed compilers
def nontrivial(t):
    """is the value type not trivially destructible"""
    if isinstance(t, str):
        return t == 'str'
    if t[0] in ('vec', 'ob', 'mo', 'co', 'ho', 'in'):
        return True
    return any(nontrivial(x) for x in t[1:] if not isinstance(x, int))


def types_in(c, env, seen=None):
    seen = set() if seen is None else seen
    yield rtype(c, env)
    if c[0] == 'cust' and c[1] not in seen:
        seen.add(c[1])
        yield from types_in(env.rules[c[1]]['core'], env, seen)
    if c[0] == 'map' and c[1][0] == 'dflt':
        yield c[1][1]
    for k in children(c):
        yield from types_in(k, env, seen)


def parts_of(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if not isinstance(x, int):
                yield from parts_of(x)


def const_ok(c, env, cxx):
    """Neither g++ 13 (moving arrays of non-trivial elements) nor clang 18 with libstdc++ 13 (variants of
    non-trivial types, strings of the less common character types) can evaluate everything at compile time;
    the limits are those of the compilers and their library, independent of tok3n."""
    for t in types_in(c, env):
        for x in parts_of(t):
            if x == 'str' and env.vt != 'char' and cxx.startswith('clang'):
                return False
            if isinstance(x, tuple):
                if x[0] == 'ho':
                    return False
                if x[0] == 'arr' and nontrivial(x[2]) and cxx.startswith('g'):
                    return False
                if x[0] == 'var' and nontrivial(x) and cxx.startswith('clang'):
                    return False
    return True
