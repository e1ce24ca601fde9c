"""C++ translation units from generated programs."""
from core import *
from gen import DOM, rule_cpp, rule_def, rule_sx, sample_inputs
import random


class Program:
    """one generated grammar: surface tree + everything derived from it"""

    def __init__(self, pid, tree, env, raw=False, consts=0, forms=False, digest=False, label='', seed=0, defs=None, cxx=None, ut=None, long=0):
        self.ut = ut or env.vt
        self.id, self.tree, self.env, self.label = pid, tree, env, label
        self.core = to_core(tree, env)
        check(self.core, env)
        self.ast = ast(self.core, env)
        self.type = type_sx(rtype(self.core, env))
        self.raw = None
        if raw:
            try:
                rc = to_raw(tree, env)
                self.raw = lang_ast(rc)
            except Invalid:
                pass
        self.defs = []
        if defs:
            env.defs, env.defprefix = self.defs, 'd_%s_' % pid
        self.cxx = cxx or cpp(tree, env)
        env.defs = None
        self.forms = forms
        self.consts, self.long = [], long
        if consts:
            rng = random.Random(seed * 7919 + consts)
            alpha = sorted(codes_of(self.core)) or [97]
            self.consts = sample_inputs(self.core, env, rng, consts, alpha + [97, 122], *((long, True) if long else ()))
            lo, hi = DOM[self.ut]
            self.consts = [[(x - lo) % (hi - lo + 1) + lo for x in l] for l in self.consts]  # an input of another element type
        self.digest = bool(self.consts) or digest


def codes_of(c):
    h = c[0]
    out = set(c[2]) if h in ('any', 'none', 'all') else set()
    for k in children(c):
        out |= codes_of(k)
    return out


def lang_ast(c):
    """S-expression of a literal reading: values are irrelevant, so every slot is left bare"""
    h = c[0]
    if h in ('any', 'none', 'all'):
        return '(%s%s)' % (h, ''.join(' %d' % x for x in c[2]))
    if h in ('anything', 'eps'):
        return '(%s)' % h
    if h == 'seq':
        return '(seq %s)' % ' '.join(lang_ast(x) for x in c[1:])
    if h == 'cho':
        return '(cho v (%s) %s)' % (' '.join('-1' for _ in c[1:]), ' '.join(lang_ast(x) for x in c[1:]))
    if h in ('maybe', 'plus', 'star'):
        return '(%s 1 %s)' % (h, lang_ast(c[1]))
    if h == 'exact':
        return '(exact %d 1 %s)' % (c[1], lang_ast(c[2]))
    if h == 'del':
        return '(del 1 1 %s %s)' % (lang_ast(c[1]), lang_ast(c[2]))
    if h in ('ign', 'comp'):
        return '(%s %s)' % (h, lang_ast(c[1]))
    if h == 'name':
        return '(name %s)' % lang_ast(c[2])
    raise Invalid('no value-free literal reading of ' + h)


def cstr(s):
    """a C++ string literal, split to stay within limits"""
    out = []
    for i in range(0, max(1, len(s)), 4000):
        out.append('"' + s[i:i + 4000].replace('\\', '\\\\').replace('"', '\\"') + '"')
    return ' '.join(out)


def emit(programs, rules, extra=''):
    L = ['#include "harness.h"', 'using namespace k3::tok3n;', 'namespace gen {']
    env0 = programs[0].env if programs else Env('char', rules)
    for r in rules.values():
        L.append(rule_cpp(r, env0))
    # definitions: those whose value type must be deduced come after what they use
    for r in rules.values():
        L.append(rule_def(r, env0))
    for p in programs:
        L += p.defs
        L.append('constexpr auto p_%s = %s;' % (p.id, p.cxx))
        L.append('using P_%s = std::remove_cvref_t<decltype(p_%s)>;' % (p.id, p.id))
        vt = cpp_vt(p.ut)
        if p.consts:
            L.append('std::vector<vh::ConstCase> k_%s() { std::vector<vh::ConstCase> out;' % p.id)
            for codes in p.consts:
                es = ', '.join(elem_const(p.ut, c) for c in codes)
                if codes:
                    L.append(' { static constexpr %s in[] = { %s }; constexpr vh::CE c = vh::const_eval<P_%s, %s>(std::span<const %s>(in)); out.push_back(vh::const_case({ %s }, c)); }'
                             % (vt, es, p.id, vt, vt, ', '.join('%dll' % c for c in codes)))
                else:
                    L.append(' { constexpr vh::CE c = vh::const_eval<P_%s, %s>(std::span<const %s>()); out.push_back(vh::const_case({}, c)); }' % (p.id, vt, vt))
            L.append(' return out; }')
    L.append('} // namespace gen')
    L.append(extra)
    L.append('namespace vh {')
    L.append('const Prog progs[] = {')
    for p in programs:
        vt = cpp_vt(p.ut)
        P = 'gen::P_%s' % p.id
        L.append('{ "%s", %s, %s, %s, &do_type<%s, %s>, &elem_ops<%s>, &do_parse<%s, %s>, &do_look<%s, %s>, %s, %s, %s, 0 },' % (
            p.id, cstr(p.ast), cstr(p.raw) if p.raw else 'nullptr', cstr(p.type), P, vt, vt, P, vt, P, vt,
            '&gen::k_%s' % p.id if p.consts else 'nullptr', '&do_digest<%s, %s>' % (P, vt) if p.digest else 'nullptr',
            'forms<%s, %s>::count, &forms<%s, %s>::name, &forms<%s, %s>::run' % ((P, vt) * 3) if p.forms else '0, nullptr, nullptr'))
    L.append('};')
    L.append('const int nprogs = %d;' % len(programs))
    L.append('const char* const rules_text = %s;' % cstr('(' + ' '.join(rule_sx(r, env0) for r in rules.values()) + ')'))
    L.append('} // namespace vh')
    return '\n'.join(L) + '\n'
