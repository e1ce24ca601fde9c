"""C20, the refusing half: generated operands in compositions outside (and, as a control, inside) the rules, judged by the compiler."""
import os, random, re, tempfile
import run as R
from core import *
from gen import *
from profiles import Maker

PRELUDE = r'''
#include "harness.h"
#include <string>
#include <vector>
#include <array>
#include <span>
#include <deque>
#include <list>
#include <forward_list>
#include <map>
#include <optional>
using namespace k3::tok3n;
struct NoEq {};
template <class A, class B> concept c_seq = requires { A{} >> B{}; };
template <class A, class B> concept c_cho = requires { A{} | B{}; };
template <class A, class B> concept c_del = requires { A{} % delimit(B{}); };
template <class A, class B> concept c_delc = requires { delimit(A{}, B{}); };
template <class A, class B> concept c_deli = requires { delimit(B{})(A{}); };
template <class A, class B> concept c_delm = requires { A{} % (complete % delimit(B{})); };
template <class A, class B> concept c_delm2 = requires { A{} % (delimit(B{}) % ignore); };
template <class A, class B> concept c_dk = requires { A{} % delimit_keep(B{}); };
template <class A, class B> concept c_dkc = requires { delimit_keep(A{}, B{}); };
template <class A, class B> concept c_dki = requires { delimit_keep(B{})(A{}); };
template <class A, class B> concept c_dkm = requires { A{} % (ignore % delimit_keep(B{})); };
template <class A, class V> concept c_epsof = requires { A{} | eps.template of<V>; };
template <class A> concept c_eps = requires { A{} | eps; };
template <class A> concept c_epsfirst = requires { eps | A{}; };
template <class A> concept c_not = requires { !A{}; };
template <class A, std::size_t N> concept c_exp = requires { typename detail::exactly_parser<A, detail::index_c<N>>; };
template <class A, class I> concept c_parse = requires (I i) { A::parse(static_cast<I>(i)); };
template <class A, class I> concept c_look = requires (I i) { A::lookahead(static_cast<I>(i)); };
'''
BIN = ['c_seq', 'c_cho', 'c_del', 'c_delc', 'c_deli', 'c_delm', 'c_delm2', 'c_dk', 'c_dkc', 'c_dki', 'c_dkm']
NUM = ['char', 'int', 'long', 'unsigned char', 'char16_t', 'short', 'unsigned', 'wchar_t', 'char32_t', 'char8_t', 'signed char', 'double', 'bool']


CHARS = ('char', 'signed char', 'unsigned char', 'wchar_t', 'char8_t', 'char16_t', 'char32_t')


def containers(w, full):
    out = ['const std::vector<%s>&', 'std::span<%s const>', 'const std::array<%s, 2>&', '%s const(&)[2]', 'detail::input_span<%s>', 'std::vector<%s>&']
    if w in ('char', 'wchar_t', 'char8_t', 'char16_t', 'char32_t'):
        out += ['const %s*', 'std::basic_string_view<%s>', 'const std::basic_string<%s>&']
    return [x % w for x in (out if full else out[:5]) if w != 'bool' or 'vector' not in x]


def comparable(v, w):
    """None where it is not clear-cut"""
    if v == w:
        return True
    if v in NUM and w in NUM + ['float']:
        return True
    if w == 'vh::Box':
        return True if v in ('char', 'int') else None if v in NUM else False
    return False


class Probe:
    def __init__(self, text, want, ops):
        self.text, self.want, self.ops = text, want, ops  # text uses {0}, {1} for the operands


def source(operands, probes):
    """operands: {name: (cpp, rules)}; probes with named operands"""
    L = [PRELUDE, 'namespace gen {']
    done = set()
    for name, (tree, env) in operands.items():
        for r in env.rules.values():
            if r['id'] not in done:
                L.append(rule_cpp(r, env))
        for r in env.rules.values():
            if r['id'] not in done:
                L.append(rule_def(r, env))
                done.add(r['id'])
    for name, (tree, env) in operands.items():
        L.append('using %s = std::remove_cvref_t<decltype(%s)>;' % (name, cpp(tree, env)))
    for i, p in enumerate(probes):
        L.append('static_assert(%s(%s), "PROBE %d;");' % ('' if p.want else 'not ', p.text.format(*p.ops), i))
    L.append('} // namespace gen')
    return '\n'.join(L)


def syntax(config, src, work, tag):
    fd, path = tempfile.mkstemp(suffix='.cpp', dir=work)
    os.close(fd)
    open(path, 'w').write(src)
    cc, flags = R.CONFIGS[config]
    rc, out = R.sh([cc] + R.COMMON + (R.CLANG if cc == 'clang++' else R.GCC) + flags + ['-fsyntax-only', '-ferror-limit=0' if cc == 'clang++' else '-fmax-errors=0', path], 300)
    os.unlink(path)
    return rc, out


NEVER = [  # must not compile / its counterpart that must
    ('auto p = "a"_any % exactly<0>;', 'auto p = "a"_any % exactly<1>;'),
    ('auto p = exactly<0>("ab"_all);', 'auto p = exactly<2>("ab"_all);'),
    ('auto p = "a"_any % (ignore % exactly<0>);', 'auto p = "a"_any % (ignore % exactly<1>);'),
]


def operands(rng, vt, start, n, fns, maxsize=30):
    rules = make_rules(rng, vt, 2, start=start)
    m = Maker(rng, vt, rules)
    trees, seen = [], set()
    w = {} if fns else dict(map=0, apply=0, filter=0, apply_filter=0, cust=0)
    for _ in range(300):
        if len(trees) >= n:
            break
        g = m.g(weights=dict(w, any=9, none=6, invert=2) if rng.random() < 0.3 else dict(w, invert=1), maxsize=maxsize)
        if not fns:
            g.w['cust'] = 0
        t = g.tree(rng.choice([0, 1, 2, 3]))
        if t is None:
            continue
        try:
            c = to_core(t, g.env)
            check(c, g.env)
        except Invalid:
            continue
        if repr(c) in seen:
            continue
        seen.add(repr(c))
        trees.append((t, g.env, c))
    return trees


def job(seed, rnd, k, vt, ut):
    rng = random.Random('C20r/%d/%d/%d' % (seed, rnd, k))
    A = operands(rng, vt, 1, 10, True)
    B = operands(rng, ut, 50, 8, True)
    Q = operands(rng, vt, 90, 6, False)
    ops, probes = {}, []
    for pre, L in (('A', A), ('B', B), ('Q', Q)):
        for i, (t, e, c) in enumerate(L):
            ops['%s%d' % (pre, i)] = (t, e)
    for i, (t, e, c) in enumerate(A):
        a = 'A%d' % i
        for j in rng.sample(range(len(B)), min(4, len(B))):
            for b in BIN:
                x, y = (a, 'B%d' % j) if rng.random() < 0.5 else ('B%d' % j, a)
                probes.append(Probe(b + '<{0}, {1}>', False, (x, y)))
        for j in rng.sample(range(len(A)), min(3, len(A))):
            for b in rng.sample(BIN, 5):
                # a fixed kind of value is not required of the operands: every same-element combination is a parser
                probes.append(Probe(b + '<{0}, {1}>', True, (a, 'A%d' % j)))
        probes.append(Probe('c_epsof<{0}, %s>' % cpp_vt(vt), True, (a,)))
        probes.append(Probe('c_epsof<{0}, %s>' % cpp_vt(ut), False, (a,)))
        probes.append(Probe('c_eps<{0}>', True, (a,)))
        probes.append(Probe('c_epsfirst<{0}>', False, (a,)))
        probes.append(Probe('c_not<{0}>', c[0] in ('any', 'none'), (a,)))
        probes.append(Probe('c_exp<{0}, 0>', False, (a,)))
        probes.append(Probe('c_exp<{0}, %d>' % rng.choice([1, 2, 3, 1000]), True, (a,)))
        for w in rng.sample(['std::string', 'void*', 'NoEq', 'std::vector<int>', 'vh::St', 'vh::En', 'const char*', 'vh::Box'] + (NUM if vt not in NUM else []), 4):
            if comparable(cpp_vt(vt), w) is False:
                for f in rng.sample(containers(w, True), 3):
                    probes.append(Probe('%s<{0}, %s>' % (rng.choice(['c_parse', 'c_look']), f), False, (a,)))
    for i, (t, e, c) in enumerate(Q):
        for w in [cpp_vt(vt)] + rng.sample(NUM + ['vh::Box'], 3):
            if comparable(cpp_vt(vt), w):
                for f in rng.sample(containers(w, True), 3):
                    probes.append(Probe('%s<{0}, %s>' % (rng.choice(['c_parse', 'c_look']), f), True, ('Q%d' % i,)))
    return ops, probes, {n: size(to_core(t, e)) for n, (t, e) in ops.items()}


PAIRS = [('char', 'int'), ('int', 'char'), ('char', 'wchar_t'), ('char16_t', 'char'), ('St', 'char'), ('char', 'En'), ('char', 'unsigned char'), ('char8_t', 'char'), ('long', 'int'), ('En', 'short'), ('char32_t', 'char16_t'), ('int', 'St'), ('unsigned', 'int'), ('char', 'signed char')]


TYPES = ['char', 'signed char', 'unsigned char', 'char8_t', 'char16_t', 'short', 'unsigned short', 'char32_t', 'wchar_t', 'int', 'unsigned', 'long', 'unsigned long', 'En', 'St', 'double', 'bool']


def matrix(seed, rnd, k, n):
    """every ordered pair of element types, dealt over n units, under every way to combine two parsers; every element type against every kind of input"""
    rng = random.Random('C20m/%d/%d/%d' % (seed, rnd, k))
    ops, probes = {}, []
    for i, v in enumerate(TYPES):
        g = G(rng, v, {})
        g.w.update(map=0, apply=0, filter=0, apply_filter=0, cust=0)
        g.alpha = [97, 98, 99]
        ops['T%d' % i] = (g.leaf(rng.choice(['any', 'none', 'all', 'anything', 'ign'])), g.env)
        ops['U%d' % i] = (g.tree(2), g.env)
    pairs = [(i, j) for i in range(len(TYPES)) for j in range(len(TYPES)) if i != j]
    random.Random('%d/%d' % (seed, rnd)).shuffle(pairs)
    for i, j in pairs[k::n]:
        for b in BIN:
            probes.append(Probe(b + '<{0}, {1}>', False, ('%s%d' % (rng.choice('TTU'), i), '%s%d' % (rng.choice('TTU'), j))))
        probes.append(Probe('c_epsof<{0}, %s>' % cpp_vt(TYPES[j]), False, ('T%d' % i,)))
        w = TYPES[j]
        c = comparable(cpp_vt(TYPES[i]), cpp_vt(w)) if TYPES[i] in ('En', 'St') or w in ('En', 'St') else True
        if c is not None:
            probes.append(Probe('%s<{0}, %s>' % (rng.choice(['c_parse', 'c_look']), rng.choice(containers(cpp_vt(w), True))), c, ('%s%d' % (rng.choice('TU'), i),)))
    for i in range(k, len(TYPES), n):
        for b in BIN:
            probes.append(Probe(b + '<{0}, {1}>', True, ('T%d' % i, 'U%d' % i)))
        for w in ('std::string', 'void*', 'NoEq', 'std::vector<int>', 'std::nullptr_t'):
            probes.append(Probe('%s<{0}, const std::vector<%s>&>' % (rng.choice(['c_parse', 'c_look']), w), False, ('T%d' % i,)))
    return ops, probes, {n: size(to_core(t, e)) for n, (t, e) in ops.items()}


def minimise(work, config, ops, p, out0):
    """smaller operands of the same kind that still go wrong"""
    cur, best = dict(ops), out0
    budget = 14
    changed = True
    while changed and budget > 0:
        changed = False
        for n in p.ops:
            t, e = cur[n]
            for s, _ in R.subtrees(t):
                if budget <= 0:
                    break
                budget -= 1
                if 'c_not' in p.text:
                    try:
                        if (to_core(s, e)[0] in ('any', 'none')) != p.want:
                            continue
                    except Invalid:
                        continue
                trial = dict(cur)
                trial[n] = (s, e)
                try:
                    check(to_core(s, e), e)
                    src = source({x: trial[x] for x in p.ops}, [p])
                except Invalid:
                    continue
                rc, out = syntax(config, src, work, 'm')
                if rc not in (0, None):
                    cur, best, changed = trial, out, True
                    break
    return {x: cur[x] for x in p.ops}, best


def run_one(args):
    work, seed, rnd, k, vt, ut, config = args
    ops, probes, sizes = matrix(seed, rnd, k, vt) if ut is None else job(seed, rnd, k, vt, ut)
    bad = []
    rc, out = syntax(config, source(ops, probes), work, '%d-%d' % (rnd, k))
    if rc is None:
        bad.append(('the compiler timed out', source(ops, probes), ''))
    elif rc != 0:
        ids = sorted({int(x) for x in re.findall(r'PROBE (\d+);', '\n'.join(l for l in out.splitlines() if 'error' in l))})
        if not ids:  # something failed outside the immediate context: find the probe
            lo = probes
            while len(lo) > 1:
                h = lo[:len(lo) // 2]
                rc2, o2 = syntax(config, source(ops, h), work, '%d-%db' % (rnd, k))
                lo = h if rc2 != 0 else lo[len(lo) // 2:]
            todo = lo
        else:
            todo = [probes[i] for i in ids]
        for p in todo[:2]:
            rc2, o2 = syntax(config, source({x: ops[x] for x in p.ops}, [p]), work, '%d-%dp' % (rnd, k))
            if rc2 == 0:
                bad.append(('a generated set of operands no longer compiles', source(ops, probes), R.first_errors(out)))
                continue
            small, o3 = minimise(work, config, ops, p, o2)
            what = p.text.format(*p.ops)
            src = source(small, [p])
            bad.append(('%s must %s (%s)' % (what, 'be accepted' if p.want else 'be refused, in a way code can test for', config), src,
                        '\n'.join('%s = %s' % (x, cpp(*small[x])) for x in p.ops) + '\n' + R.first_errors(o3)))
    samples = [('%s must be %s with %s' % (p.text.format(*p.ops), 'accepted' if p.want else 'refused', '; '.join('%s = %s' % (x, cpp(*ops[x])) for x in p.ops)))[:400] for p in probes[::max(1, len(probes) // 2)]]
    nontriv = len({(p.text, p.ops) for p in probes if not p.want and max(sizes[x] for x in p.ops) >= 2})
    return config, len(probes), nontriv, samples, bad


def run_never(args):
    work, i, config = args
    no, yes = NEVER[i]
    bad = []
    rc, out = syntax(config, PRELUDE + yes, work, 'n%d%s' % (i, config))
    if rc != 0:
        bad.append(('%s must compile (%s)' % (yes, config), PRELUDE + yes, R.first_errors(out), 0))
    rc, out = syntax(config, PRELUDE + no, work, 'n%d%s' % (i, config))
    if rc == 0:
        bad.append(('%s must not compile (%s)' % (no, config), PRELUDE + no, '', 1))
    return config, bad


# ---- operands that are no parser and no modifier, or only look like one
LOOKALIKE = r'''
template <class A> concept n_opt = requires (A a) { ~a; };
template <class A> concept n_rep = requires (A a) { +a; };
template <class A> concept n_many = requires (A a) { *a; };
template <class A> concept n_not = requires (A a) { !a; };
template <class A> concept n_eps = requires (A a) { a | eps; };
template <class A, class V> concept n_epsof = requires (A a) { a | eps.template of<V>; };
template <class A, class B> concept n_seq = requires (A a, B b) { a >> b; };
template <class A, class B> concept n_cho = requires (A a, B b) { a | b; };
template <class A, class B> concept n_mod = requires (A a, B b) { a % b; };
template <class A, class B> concept n_call = requires (A a, B b) { b(a); };
template <class A, class B> concept n_del = requires (A a, B b) { delimit(a, b); };
template <class A, class B> concept n_delm = requires (A a, B b) { a % delimit(b); };
template <class A, class B> concept n_dk = requires (A a, B b) { delimit_keep(a, b); };
template <class A, class B> concept n_dkm = requires (A a, B b) { a % delimit_keep(b); };
template <class B> concept n_name = requires (B b) { name<"x"> = b; };
template <class A, class B> concept n_sub = requires (A a, B b) { a % sub(name<"x"> = b); };
template <class A, class B> concept n_subc = requires (A a, B b) { sub(a, b); };
template <class B> concept n_sub1 = requires (B b) { sub(b); };
template <class A> concept n_parser = detail::parser<A>;
template <class A> concept n_modifier = detail::modifier<A>;
struct Elsewhere {};
'''
# body of a parser of the user's own; V is its element type
BODY = 'static constexpr auto get_parser() { return detail::any_of_parser<detail::static_array<V, 1>{}>{}; }'
OWN = 'template <class W> using result_for = std::span<const W>; template <class R> static constexpr auto parse(R&& r) { return detail::anything_parser<V>::parse(r); } template <class R> static constexpr auto lookahead(R&& r) { return detail::anything_parser<V>::lookahead(r); }'
GOOD_P = [
    'struct X : custom_parser<X, V> { %s };' % BODY,
    'struct X final : custom_parser<X, V> { using result_type = std::span<const V>; %s };' % BODY,
    'template <class T> struct X_ : custom_parser<X_<T>, V> { %s }; using X = X_<int>;' % BODY,
    'struct X0 : custom_parser<X0, V> { %s }; struct X : custom_parser<X, V> { static constexpr auto get_parser() { return X0{}; } int f() const; using q = int; static constexpr int z = 3; };' % BODY,
]
NEAR_P = [  # derived from a parser, or written by hand, and lacking exactly one thing
    'struct X : custom_parser<X, V> { int state; %s };' % BODY,
    'struct X : custom_parser<X, V> { virtual ~X(); %s };' % BODY,
    'struct X : custom_parser<X, V> { X() = delete; %s };' % BODY,
    'struct X : custom_parser<X, V> { explicit X(); %s };' % BODY,
    'struct X : custom_parser<X, V> { X(int); %s };' % BODY,
    'struct X : custom_parser<X, V> { static constexpr detail::parser_family family = detail::parser_family::none; %s };' % BODY,
    'struct X : custom_parser<X, V> { static constexpr detail::parser_family family = detail::parser_family::end; %s };' % BODY,
    'struct X : custom_parser<X, V> { static constexpr detail::parser_family family = static_cast<detail::parser_family>(static_cast<int>(detail::parser_family::end) + 7); %s };' % BODY,
    'struct X : custom_parser<X, V> { static constexpr detail::parser_family family = static_cast<detail::parser_family>(-1); %s };' % BODY,
    'struct X : custom_parser<X, V> { static constexpr Elsewhere family{}; %s };' % BODY,
    'struct X : custom_parser<X, V> { static constexpr int value_type = 3; %s };' % BODY,
    'struct X : custom_parser<X, V> { using result_for = int; %s };' % BODY,
    'struct X { using value_type = V; %s };' % OWN,
    'struct X { static constexpr detail::parser_family family = detail::parser_family::custom; %s };' % OWN,
    'struct X { using value_type = V; static constexpr detail::parser_family family = detail::parser_family::custom; template <class R> static constexpr auto parse(R&& r) { return detail::anything_parser<V>::parse(r); } };',
    'class X : custom_parser<X, V> { %s };' % BODY,
    'struct X0 : custom_parser<X0, V> { %s }; struct X { X0 inner; operator X0() const; };' % BODY,
    'using X = std::basic_string<char>;',
    'using X = const char*;',
    'using X = std::span<const V>;',
    'using X = std::nullptr_t;',
    'using X = std::vector<int>;',
    'struct X {};',
]
PASS = 'template <class P> constexpr auto operator()(P p) const { return p; }'
GOOD_M = [
    'using X = decltype(ignore);',
    'using X = std::remove_cvref_t<decltype(exactly<3>)>;',
    'using X = std::remove_cvref_t<decltype(complete % ignore)>;',
    'using X = std::remove_cvref_t<decltype(name<"n">)>;',
    'using X = std::remove_cvref_t<decltype(constant<3>)>;',
    'using X = std::remove_cvref_t<decltype(into<std::vector<int>>)>;',
    'using X = std::remove_cvref_t<decltype(filter<[](auto&&...) { return true; }>)>;',
]
NEAR_M = [
    'struct X { static constexpr auto family = detail::modifier_family::ignore; %s };' % PASS,
    'struct X : detail::modifier_base { %s };' % PASS,
    'struct X : detail::modifier_base { static constexpr auto family = detail::modifier_family::none; %s };' % PASS,
    'struct X : detail::modifier_base { static constexpr auto family = detail::modifier_family::end; %s };' % PASS,
    'struct X : detail::modifier_base { static constexpr auto family = static_cast<detail::modifier_family>(-1); %s };' % PASS,
    'struct X : detail::modifier_base { static constexpr auto family = static_cast<detail::modifier_family>(static_cast<int>(detail::modifier_family::end) + 1); %s };' % PASS,
    'struct X : detail::modifier_base { int state; static constexpr auto family = detail::modifier_family::ignore; %s };' % PASS,
    'class X : detail::modifier_base { public: static constexpr auto family = detail::modifier_family::ignore; %s };' % PASS,
    'struct X : detail::modifier_base { static constexpr Elsewhere family{}; %s };' % PASS,
    'struct X { %s };' % PASS,
    'struct X {};',
    'using X = std::basic_string<char>;',
    'using X = decltype([](auto p) { return p; });',
    'using X = std::nullptr_t;',
]
ALLMODS = ['ignore', 'complete', 'join', 'exactly<2>', 'constant<5>', 'defaulted<int>', 'into<std::vector<int>>', 'apply_into<std::vector<int>>', 'map<[](auto&&...) { return 1; }>', 'filter<[](auto&&...) { return true; }>',
           'apply<[](auto&&...) { return 1; }>', 'apply_filter<[](auto&&...) { return true; }>', 'name<"x">', 'sub(name<"x"> = ignore)', '(complete % ignore)']


def near(seed, rnd, k, vt):
    """(source, probes): types of the user's own in every place where a parser or a modifier may stand"""
    rng = random.Random('C20n/%d/%d/%d' % (seed, rnd, k))
    A = operands(rng, vt, 1, 5, True)
    ops = {'A%d' % i: (t, e) for i, (t, e, c) in enumerate(A)}
    names = list(ops)
    decl, probes = [LOOKALIKE, 'namespace own { using V = %s;' % cpp_vt(vt)], []
    v = cpp_vt(vt)
    decl.append('using S = decltype(name<"x"> = ignore);')
    for i, m in enumerate(ALLMODS):
        decl.append('using M%d = std::remove_cvref_t<decltype(%s)>;' % (i, m))

    def add(text, want):
        probes.append((text, want))
    for n, (body, want) in enumerate([(b, True) for b in GOOD_P] + [(b, False) for b in NEAR_P]):
        decl.append('namespace p%d { %s }' % (n, body))
        x = 'own::p%d::X' % n
        add('n_parser<%s>' % x, want)
        add('n_eps<%s>' % x, want)
        add('n_epsof<%s, %s>' % (x, v), want)
        for u in ('n_opt', 'n_rep', 'n_many'):
            add('%s<%s>' % (u, x), want if 'char*' not in body else None)
        add('n_not<%s>' % x, False if 'char*' not in body and 'nullptr' not in body else None)
        for b in ('n_seq', 'n_cho', 'n_del', 'n_delm', 'n_dk', 'n_dkm'):
            add('%s<%s, %s>' % (b, x, rng.choice(names)), want)
            add('%s<%s, %s>' % (b, rng.choice(names), x), want)
            if rng.random() < 0.3:
                add('%s<%s, %s>' % (b, x, x), want)
        for i in (range(len(ALLMODS)) if not want else rng.sample(range(len(ALLMODS)), 5)):
            add('%s<%s, own::M%d>' % (rng.choice(['n_mod', 'n_call']), x, i), want)
        add('n_subc<%s, own::S>' % x, want)
        if not want and n < len(GOOD_P) + 16:
            add('n_modifier<%s>' % x, False)
            add('n_mod<%s, %s>' % (rng.choice(names), x), False)
    
    for n, (body, want) in enumerate([(b, True) for b in GOOD_M] + [(b, False) for b in NEAR_M]):
        decl.append('namespace m%d { %s }' % (n, body))
        x = 'own::m%d::X' % n
        add('n_modifier<%s>' % x, want)
        add('n_parser<%s>' % x, False)
        a = rng.choice(names)
        add('n_mod<%s, %s>' % (a, x), want)
        for i in rng.sample(range(len(ALLMODS)), 3):
            add('n_mod<own::M%d, %s>' % (i, x), want)
            add('n_mod<%s, own::M%d>' % (x, i), want)
        add('n_name<%s>' % x, want)
        add('n_sub<%s, %s>' % (a, x), want)
        add('n_sub1<%s>' % x, False)
        for b in ('n_seq', 'n_cho', 'n_del', 'n_delm', 'n_dk', 'n_dkm'):
            add('%s<%s, %s>' % (b, a, x), False)
            add('%s<%s, %s>' % (b, x, a), want if b in ('n_delm', 'n_dkm') else False)  # ignore % delimit(p) is a modifier
        for u in ('n_rep', 'n_many', 'n_opt', 'n_eps'):
            add('%s<%s>' % (u, x), False)
    a, b = rng.sample(names, 2)
    add('n_mod<%s, %s>' % (a, b), False)
    add('n_mod<own::M%d, %s>' % (rng.randrange(len(ALLMODS)), a), False)
    add('n_name<%s>' % a, False)
    add('n_sub<%s, %s>' % (a, b), False)
    add('n_subc<%s, %s>' % (a, b), False)
    add('n_sub1<%s>' % a, False)
    return ops, '\n'.join(decl) + '\n}', [(t, w) for t, w in probes if w is not None]


def near_source(ops, decl, probes):
    src = source(ops, [])
    return src + '\n' + decl + '\nnamespace gen {\n' + '\n'.join('static_assert(%s(%s), "PROBE %d;");' % ('' if w else 'not ', t, i) for i, (t, w) in enumerate(probes)) + '\n}'


def run_near(args):
    work, seed, rnd, k, vt, config = args
    ops, decl, probes = near(seed, rnd, k, vt)
    bad = []
    src = near_source(ops, decl, probes)
    rc, out = syntax(config, src, work, 'l%d-%d' % (rnd, k))
    if rc is None:
        bad.append(('the compiler timed out', src, '', 0))
    elif rc != 0:
        ids = sorted({int(x) for x in re.findall(r'PROBE (\d+);', '\n'.join(l for l in out.splitlines() if 'error' in l))})
        if not ids:
            bad.append(('types of the user\'s own as operands: a composition went wrong in a way code cannot test for, or an accepted one no longer compiles', src, R.first_errors(out), 0))
        for i in ids[:2]:
            t, w = probes[i]
            one = near_source(ops, decl, [(t, w)])
            names = re.findall(r'own::([pm]\d+)::X', t)
            what = '\n'.join(l for l in decl.splitlines() if any(l.startswith('namespace %s ' % n) for n in names))
            used = '\n'.join('%s = %s' % (n, cpp(*ops[n])) for n in ops if re.search(r'\b%s\b' % n, t))
            bad.append(('%s must %s (%s), with\n%s\n%s' % (t, 'be accepted' if w else 'be refused, in a way code can test for', config, what, used), one, R.first_errors(out), 0))
    return config, len(probes), sum(not w for t, w in probes), ['%s must be %s' % (t, 'accepted' if w else 'refused') for t, w in probes[3::len(probes) // 2]], bad


# ---- compositions whose parts do not fit together; these need not be refused softly, but never compile
def partless(t):
    return t != 'v' and (isinstance(t, str) or t[0] not in ('tup', 'pair', 'arr'))


def unjoinable(t):
    """clearly not made of pieces"""
    if isinstance(t, str):
        return t in ('int', 'long', 'bool', 'u64', 'big', 'uns', 'shrt', 'dbl')
    if t[0] in ('opt', 'vec', 'arr'):
        return unjoinable(t[-1])
    return any(unjoinable(x) for x in t[1:]) if t[0] == 'tup' else t[0] in ('ob', 'mo', 'co', 'ho')


HARD = [  # kind, fits(type), ill-formed, its well-formed counterpart; A is a parser over V with values of type T
    ('a function that does not take the value', lambda t: True, 'A{} % map<[](Elsewhere) { return 1; }>', 'A{} % map<[](auto&&...) { return 1; }>'),
    ('a function that takes one argument more', lambda t: True, 'map<[](auto&&, auto&&, auto&&) { return 1; }>(A{})', 'map<[](auto&&...) { return 1; }>(A{})'),
    ('a predicate that does not take the value', lambda t: True, 'A{} % filter<[](Elsewhere) { return true; }>', 'A{} % filter<[](const auto&...) { return true; }>'),
    ('a predicate that does not answer', lambda t: True, 'A{} % filter<[](const auto&...) {}>', 'A{} % filter<[](const auto&...) { return false; }>'),
    ('a predicate whose answer is not a bool', lambda t: True, 'filter<[](const auto&...) { return Elsewhere{}; }>(A{})', 'filter<[](const auto&...) { return nullptr == nullptr; }>(A{})'),
    ('a predicate that wants to change the value', lambda t: t != 'v', 'A{} % filter<[](T&) { return true; }>', 'A{} % filter<[](const T&) { return true; }>'),
    ('a predicate that wants to take the value', lambda t: t != 'v', 'A{} % filter<[](T&&) { return true; }>', 'A{} % filter<[](const T&) { return true; }>'),
    ('apply on a value that has no parts', partless, 'A{} % apply<[](auto&&...) { return 1; }>', 'A{} % map<[](auto&&...) { return 1; }>'),
    ('apply_filter on a value that has no parts', partless, 'A{} % apply_filter<[](const auto&...) { return true; }>', 'A{} % filter<[](const auto&...) { return true; }>'),
    ('apply_into on a value that has no parts', partless, 'A{} % apply_into<Takes>', 'A{} % into<Takes>'),
    ('apply with a function that does not take the parts', lambda t: tuple_like(t), 'A{} % apply<[](Elsewhere, auto&&...) { return 1; }>', 'A{} % apply<[](auto&&...) { return 1; }>'),
    ('apply_filter with a predicate that does not take the parts', lambda t: tuple_like(t), 'A{} % apply_filter<[](Elsewhere, const auto&...) { return true; }>', 'A{} % apply_filter<[](const auto&...) { return true; }>'),
    ('apply_filter with a predicate whose answer is not a bool', lambda t: tuple_like(t), 'A{} % apply_filter<[](const auto&...) { return Elsewhere{}; }>', 'A{} % apply_filter<[](const auto&...) { return true; }>'),
    ('into a type the value does not construct', lambda t: t != 'v', 'A{} % into<Elsewhere>', 'A{} % into<Takes>'),
    ('apply_into a type the parts do not construct', lambda t: tuple_like(t), 'A{} % apply_into<Elsewhere>', 'A{} % apply_into<Takes>'),
    ('defaulted without a default', lambda t: True, 'A{} % defaulted<NoDefault>', 'A{} % defaulted<Elsewhere>'),
    ('a join of what is not made of pieces', unjoinable, 'A{} % join', 'A{} % complete'),
    ('a count of zero', lambda t: True, 'A{} % exactly<0>', 'A{} % exactly<1>'),
    ('a count of zero among other modifiers', lambda t: True, 'A{} % (ignore % exactly<0>)', 'A{} % (ignore % exactly<1>)'),
    ('a substitution by something that makes no parser', lambda t: True, '(A{} % name<"x">) % sub(name<"x"> = delimit)', '(A{} % name<"x">) % sub(name<"x"> = ignore)'),
    ('a substitution deep inside by something that makes no parser', lambda t: True, '(A{} >> ~(A{} % name<"x">)) % sub(name<"x"> = delimit_keep)', '(A{} >> ~(A{} % name<"x">)) % sub(name<"x"> = complete)'),
] + [
    ('an input that is no contiguous range', lambda t: True, '!(void)A::%s(make<%s>());' % (f, w), '!(void)A::%s(make<const std::array<V, 3>&>());' % f)
    for f, w in zip(['parse', 'lookahead'] * 4, ['std::list<V>&', 'const std::deque<V>&', 'std::forward_list<V>', 'const std::map<int, V>&', 'const V&', 'std::optional<V>&', 'std::list<V>', 'const V* const*'])
] + [
    ('a user\'s parser without a parser', lambda t: True, '(A{} >> Lacks{})', '(A{} >> Own{})'),
    ('a user\'s parser with a parser of other elements', lambda t: True, '(Crossed{} >> A{})', '(Own{} >> A{})'),
    ('a user\'s parser with something that is no parser', lambda t: True, '(*NotOne{} >> A{})', '(*Own{} >> A{})'),
]
HARD_PRE = r'''
struct Elsewhere {};
template <class X> X make();
struct NoDefault { NoDefault(int); };
struct Takes { constexpr Takes(auto&&...) {} };
using V = %s;
struct Other { friend bool operator==(Other, auto) { return false; } };
struct Lacks : custom_parser<Lacks, V> { using result_type = int; };
struct Crossed : custom_parser<Crossed, V> { using result_type = std::span<const V>; static constexpr auto get_parser() { return detail::anything_parser<%s>{}; } };
struct NotOne : custom_parser<NotOne, V> { using result_type = int; static constexpr auto get_parser() { return 3; } };
struct Own : custom_parser<Own, V> { using result_type = std::span<const V>; static constexpr auto get_parser() { return detail::anything_parser<V>{}; } };
'''


def run_hard(args):
    """one operand, one kind: the ill-formed must not compile, its counterpart must"""
    work, seed, rnd, k, vt, config = args
    rng = random.Random('C20h/%d/%d/%d' % (seed, rnd, k))
    kind, fits, no, yes = HARD[k % len(HARD)]
    if 'substitution' in kind:
        config = 'c0'  # g++ 13 crashes on these instead of saying no
    pick = None
    for _ in range(12):
        for t, e, c in operands(rng, vt, 1, 6, True, maxsize=16):
            ty = rtype(c, e)
            if fits(ty) and (pick is None or size(c) > size(pick[2])):
                pick = (t, e, c)
        if pick:
            break
    if not pick:
        return config, 0, 0, [], []
    t, e, c = pick

    def text(expr):
        return source({'A': (t, e)}, []) + HARD_PRE % (cpp_vt(vt), 'short' if vt != 'short' else 'int') + \
            'using gen::A;\nusing T = typename A::template result_for<V>;\nvoid f(std::span<const V> in) { ' + (expr[1:] if expr[0] == '!' else 'using P = std::remove_cvref_t<decltype(%s)>; (void)P::parse(in);' % expr) + ' }\n'
    bad = []
    where = 'with A = %s (%s)' % (cpp(t, e), config)
    rc, out = syntax(config, text(yes), work, 'h')
    if rc != 0:
        bad.append(('%s must compile, %s' % (yes, where), text(yes), R.first_errors(out), 0))
    rc, out = syntax(config, text(no), work, 'h')
    if rc == 0:
        bad.append(('%s must not compile (%s), %s' % (no, kind, where), text(no), '', 1))
    return config, 2, int(size(c) >= 2), ['%s must not compile, %s' % (no, where)], bad
