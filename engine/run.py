"""Builds generated units against /repo's working tree, runs them, minimises and records failures."""
import concurrent.futures as cf
import hashlib, json, os, random, resource, shutil, subprocess, sys, tempfile, time
from core import *
from emit import Program, emit

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TOK3N_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

C = dict(PARSE=1, LOOK=2, TRACE=4, RAW=8, LIVE=16, THROW=32, CONST=64, FORMS=128, PURE=256, TYPE=512, AGREE=1024, LTRACE=2048)
E = dict(OK=1, FAIL=2, CONSUMED=4, BACKTRACK=8, ALT=16, REP2=32, JOIN2=64, GAP=128, DEL2=256, TRAIL=512, PRED_T=1024, PRED_F=2048, CALL=4096, CUST=8192, REC=16384,
         IGN=32768, LEFT=65536, NAME=1 << 17, VOIDALT=1 << 18, EMPTYJOIN=1 << 19, CONV=1 << 20, DEEP=1 << 21, LONG=1 << 22, USER=1 << 23, ALTVAR=1 << 24, ABYSS=1 << 25)
EV_NAMES = list(E)

STACK = 1 << 30  # deep recursion is the programs' business, running out of stack is not
SAN_ENV = {'ASAN_OPTIONS': 'abort_on_error=1:handle_segv=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:print_stacktrace=0',
           'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1'}

# name -> (compiler, flags)
CONFIGS = {
    'g1': ('g++', ['-O1']), 'g2': ('g++', ['-O2']), 'g0': ('g++', ['-O0']), 'g0a': ('g++', ['-O0', '-D_GLIBCXX_ASSERTIONS']), 'g3': ('g++', ['-O3']),
    'c1': ('clang++', ['-O1']), 'c0': ('clang++', ['-O0']), 'c2': ('clang++', ['-O2']),
    'gs': ('g++', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']),
    'cs': ('clang++', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    'ct': ('clang++', ['-O1', '-fsanitize=thread']),
}
for _c in ('g1', 'g2', 'g0a', 'c1', 'c0', 'gs', 'cs'):
    CONFIGS[_c + '23'] = (CONFIGS[_c][0], CONFIGS[_c][1] + ['-std=c++23'])  # the language version a user may well have
COMMON = ['-std=' + os.environ.get('VH_STD', 'c++20'), '-w', '-I' + os.path.join(REPO, 'include'), '-I' + HERE]
CLANG = ['-fconstexpr-steps=50000000', '-ftemplate-depth=2000', '-fbracket-depth=4000']
GCC = ['-ftemplate-depth=2000', '-fconstexpr-ops-limit=500000000', '-fconstexpr-loop-limit=1000000']


def cxx_cmd(config, src, obj, extra=()):
    cc, flags = CONFIGS[config]
    return [cc] + COMMON + (CLANG if cc == 'clang++' else GCC) + flags + list(extra) + ['-c', src, '-o', obj]


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    resource.setrlimit(resource.RLIMIT_STACK, (STACK if hard == resource.RLIM_INFINITY else min(STACK, hard), hard))


def sh(cmd, timeout, env=None, cwd=None):
    """(returncode or None on timeout, combined output)"""
    e = dict(os.environ)
    e.update(SAN_ENV)
    e['LC_ALL'] = 'C'
    if env:
        e.update(env)
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, preexec_fn=limits)
    except OSError as ex:
        return 127, str(ex)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        return None, 'timed out after %d s' % timeout


def model_obj(kind):
    """the reference model does not depend on /repo; it is rebuilt only when its source changes"""
    src = os.path.join(HERE, 'model.cpp')
    h = hashlib.sha256(open(src, 'rb').read() + open(os.path.join(HERE, 'shared.h'), 'rb').read()).hexdigest()[:16]
    d = os.path.join(OUT, 'model')
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, 'model-%s-%s.o' % (kind, h))
    if not os.path.exists(obj):
        tmp = obj + '.%d.tmp' % os.getpid()
        flags = {'plain': ['-O2'], 'san': ['-O2', '-DVH_ASAN'], 'tsan': ['-O1', '-DVH_ASAN', '-fsanitize=thread']}[kind]
        cc = 'clang++' if kind == 'tsan' else 'g++'
        rc, out = sh([cc, '-std=c++20', '-w'] + flags + ['-c', src, '-o', tmp], 300)
        if rc != 0:
            raise RuntimeError('the model does not compile:\n' + out)
        os.rename(tmp, obj)
    return obj


def model_kind(config):
    return 'tsan' if config == 'ct' else 'san' if config in ('gs', 'cs', 'gs23', 'cs23') else 'plain'


class Unit:
    def __init__(self, name, programs, rules, config='g1', cases=1200, opts=(), note=''):
        self.name, self.programs, self.rules, self.config, self.cases, self.opts, self.note = name, programs, rules, config, cases, list(opts), note


class Session:
    """one run of one check"""

    def __init__(self, prop, tier, seed, cmp, mask, work=None, jobs=JOBS):
        self.prop, self.tier, self.seed, self.jobs = prop, tier, seed, jobs
        self.cmp = sum(C[c] for c in cmp)
        self.mask = sum(E[m] for m in mask)
        self.work = work or tempfile.mkdtemp(prefix='vh-%s-' % prop, dir=os.environ.get('VERIF_TMP', None))
        self.t0 = time.time()
        self.stats = dict(programs=0, evals=0, nontrivial=0, skipped=0, ok=0, fail=0, const=0, forms=0, throws=0, pure=0)
        self.events = [0] * 32
        self.samples, self.asts, self.failures, self.notes = [], set(), [], []
        self.configs = {}

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---- build and run
    def build(self, unit, sub=None):
        d = os.path.join(self.work, sub or unit.name)
        os.makedirs(d, exist_ok=True)
        src, obj, exe = (os.path.join(d, x) for x in ('unit.cpp', 'unit.o', 'unit'))
        with open(src, 'w') as f:
            f.write(emit(unit.programs, unit.rules))
        rc, out = sh(cxx_cmd(unit.config, src, obj), 400)
        if rc != 0:
            return None, out
        cc, flags = CONFIGS[unit.config]
        rc, out = sh([cc] + [f for f in flags if f.startswith('-fsan')] + [obj, model_obj(model_kind(unit.config)), '-pthread', '-o', exe], 200)
        if rc != 0:
            return None, 'link: ' + out
        return exe, ''

    def unit_seed(self, unit):
        return self.seed * 1000003 + int(hashlib.sha256(unit.name.encode()).hexdigest()[:6], 16)

    def execute(self, exe, unit, cases=None, extra=(), timeout=500):
        cmd = [exe, '--seed', str(self.unit_seed(unit)), '--cases', str(cases or unit.cases), '--cmp', str(self.cmp), '--mask', str(self.mask)]
        cmd += ['--exact-heap', '1'] if unit.config in ('gs', 'cs', 'gs23', 'cs23') else []
        cmd += [str(x) for x in unit.opts] + list(extra)
        rc, out = sh(cmd, timeout)
        fails, stat = [], None
        for l in out.splitlines():
            if l.startswith('FAIL '):
                fails.append(json.loads(l[5:]))
            elif l.startswith('STAT '):
                stat = json.loads(l[5:])
        return rc, fails, stat, out

    def one(self, unit):
        exe, err = self.build(unit)
        if exe is None:
            return unit, 'compile', err, [], None
        rc, fails, stat, out = self.execute(exe, unit)
        if fails and not any(x.get('confirmed', 0) for x in fails):
            # nothing wrong in a fresh process: it takes what was parsed before, if it happens again in the same history
            again = self.execute(exe, unit)[1]
            for x in fails:
                if any(y['prog'] == x['prog'] and y['input'] == x['input'] for y in again):
                    x.update(confirmed=2, kind='purity', why='after the other parses of this run (the same ones every time) this input no longer parses as it does in a fresh process')
        try:
            os.unlink(exe)
        except OSError:
            pass
        if rc not in (0, 1) or stat is None:
            return unit, 'run', 'rc=%s %s' % (rc, out[-1500:]), fails, stat
        return unit, None, '', fails, stat

    def run(self, units, stop_on_failure=True):
        kinds = {model_kind(u.config) for u in units}
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            list(ex.map(model_obj, kinds))
            futs = [ex.submit(self.one, u) for u in units]
            for f in cf.as_completed(futs):
                unit, stage, err, fails, stat = f.result()
                self.configs[unit.config] = self.configs.get(unit.config, 0) + 1
                if stage == 'compile':
                    self.compile_failure(unit, err)
                elif stage == 'run':
                    self.failures.append(dict(kind='run', unit=unit, why=err, prog=None, input=None))
                for x in fails:
                    if x.get('confirmed', 0) < 1:
                        self.notes.append('unconfirmed: %s' % json.dumps(x)[:600])
                        continue
                    p = next(p for p in unit.programs if p.id == x['prog'])
                    self.failures.append(dict(kind=x['kind'], unit=unit, prog=p, input=x['input'], placement=x['placement'], why=x['why']))
                if stat:
                    for k in self.stats:
                        if k in stat:
                            self.stats[k] += stat[k]
                    for i, n in enumerate(stat['events']):
                        self.events[i] += n
                    self.samples += stat['samples'][:2]
                    for p in unit.programs:
                        self.asts.add((p.ast, p.cxx))
        return self.failures

    def compile_failure(self, unit, err):
        """find the programs that are refused; every generated program is one the documentation allows"""
        def alone(p):
            u = Unit('%s-%s' % (unit.name, p.id), [p], unit.rules, unit.config)
            exe, e = self.build(u)
            return p, exe, e
        bad = []
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            for p, exe, e in ex.map(alone, unit.programs):
                if exe is None:
                    bad.append((p, e))
        if not bad:
            self.notes.append('unit %s failed to build as a whole but every program builds alone: %s' % (unit.name, err[:800]))
            # run the programs one by one instead
            for p in unit.programs:
                u = Unit('%s-%s' % (unit.name, p.id), [p], unit.rules, unit.config, unit.cases, unit.opts)
                u2, stage, e, fails, stat = self.one(u)
                for x in fails:
                    if x.get('confirmed', 0) >= 1:
                        self.failures.append(dict(kind=x['kind'], unit=u, prog=p, input=x['input'], placement=x['placement'], why=x['why']))
            return
        for p, e in bad[:3]:
            self.failures.append(dict(kind='compile', unit=unit, prog=p, input=None, why=first_errors(e)))

    # ---- minimisation
    def fails_again(self, unit, progs, tag):
        """which of progs still fail, and how"""
        kept, res = [], {}
        u = Unit('shrink-%s' % tag, progs, unit.rules, unit.config, min(unit.cases, 600), unit.opts)
        exe, err = self.build(u)
        if exe is None:
            if len(progs) == 1:
                return {progs[0].id: dict(kind='compile', why=first_errors(err), input=None, placement=0)}
            for p in progs:
                res.update(self.fails_again(unit, [p], tag + p.id))
            return res
        rc, fails, stat, out = self.execute(exe, u, timeout=120)
        for x in fails:
            if x.get('confirmed', 0) >= 1:
                res[x['prog']] = x
        return res

    def minimise(self, f, budget=45):
        prog = f['prog']
        if prog is None or prog.tree is None or prog.defs or f['kind'] == 'purity':
            return f
        t0 = time.time()
        unit, want_compile = f['unit'], f['kind'] == 'compile'
        best = f
        rnd = 0
        while time.time() - t0 < budget:
            rnd += 1
            cands = candidates(best['prog'], unit.rules)[:24]
            if not cands:
                break
            groups = [cands[i::self.jobs] for i in range(min(self.jobs, len(cands)))]
            if want_compile:
                groups = [[c] for c in cands[:self.jobs]]
            found = {}
            with cf.ThreadPoolExecutor(self.jobs) as ex:
                for r in ex.map(lambda ig: self.fails_again(unit, ig[1], '%d-%d' % (rnd, ig[0])), enumerate(groups)):
                    found.update(r)
            ok = [(size(c.core) * 1000 + len(c.cxx), i, c) for i, c in enumerate(cands) if c.id in found and (found[c.id]['kind'] == 'compile') == want_compile]
            if not ok:
                break
            _, _, c = min(ok)
            x = found[c.id]
            best = dict(kind=x['kind'], unit=unit, prog=c, input=x['input'], placement=x.get('placement', 0), why=x['why'])
        return best

    def save(self, f, n=0):
        d = os.path.join(OUT, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d-%d.json' % (self.prop, self.tier, self.seed, n))
        p, unit = f['prog'], f['unit']
        if unit is None:
            rec = dict(property=self.prop, seed=self.seed, tier=self.tier, kind=f['kind'], why=f['why'])
            rec.update(f.get('extra') or {})
            json.dump(rec, open(path, 'w'), indent=1)
            return path
        rec = dict(property=self.prop, seed=self.seed, tier=self.tier, kind=f['kind'], why=f['why'], input=f.get('input'), placement=f.get('placement', 0), cmp=self.cmp,
                   config=unit.config if unit else None, opts=[str(x) for x in unit.opts] if unit else [])
        if p is not None:
            rec.update(expression=p.cxx, grammar=p.ast, element=p.ut, rules=[r for r in rules_source(unit.rules, p.env)], program=p.id)
            rec['source'] = emit(unit.programs if f['kind'] == 'purity' else [p], unit.rules)
            rec['cases'] = unit.cases
            rec['unit_seed'] = self.unit_seed(unit)
            if f.get('input') is not None and p.ut in CHARLIT:
                rec['input_text'] = ''.join(chr(c) if 32 <= c < 127 else '\\x%02x' % (c & 255) for c in f['input'][:4000])
        with open(path, 'w') as fh:
            json.dump(rec, fh, indent=1)
        return path


def rules_source(rules, env):
    from gen import rule_cpp, rule_def
    for r in rules.values():
        yield rule_cpp(r, env) + ' ' + rule_def(r, env)


def first_errors(out):
    ls = [l for l in out.splitlines() if 'error' in l or 'fatal' in l]
    return '\n'.join(ls[:6])[:3000] or out[:1500]


def subtrees(t):
    """children of a surface tree that are trees themselves, with a rebuild function"""
    h = t[0]
    if h in ('>>', '|'):
        yield t[1], lambda x: (h, x, t[2])
        yield t[2], lambda x: (h, t[1], x)
    elif h in ('|eps', '~', '+', '*', '!'):
        yield t[1], lambda x: (h, x)
    elif h == 'mod':
        yield t[2], lambda x: ('mod', t[1], x, t[3])


def variants(t, leaf):
    """smaller trees"""
    for s, _ in subtrees(t):
        yield s
    if t[0] == 'mod':
        for i in range(len(t[1])):
            if len(t[1]) > 1:
                yield ('mod', t[1][:i] + t[1][i + 1:], t[2], t[3])
    if t[0] == 'lit':
        codes = t[3]
        if len(codes) > 1:
            yield ('lit', t[1], t[2], codes[:len(codes) // 2], t[4])
            yield ('lit', t[1], t[2], codes[:-1], t[4])
            yield ('lit', t[1], t[2], codes[1:], t[4])
        if t[4] != 0:
            yield t[:4] + (0,)
    elif t != leaf and t[0] != '|eps':
        yield leaf
    for s, re in subtrees(t):
        for v in variants(s, leaf):
            yield re(v)


def candidates(prog, rules):
    env = prog.env
    leaf = ('lit', 'any', env.vt, (97,), 0) if env.vt != 'St' else ('lit', 'any', env.vt, (1,), 4)
    seen, out = set(), []
    score = size(prog.core) * 1000 + len(prog.cxx)
    for v in variants(prog.tree, leaf):
        if v in seen:
            continue
        seen.add(v)
        try:
            p = Program('m%d' % len(out), v, env, raw=prog.raw is not None, consts=len(prog.consts), long=prog.long, forms=prog.forms, digest=prog.digest, ut=prog.ut)
        except Invalid:
            continue
        if size(p.core) * 1000 + len(p.cxx) >= score:
            continue
        out.append(p)
        if len(out) > 150:
            break
    out.sort(key=lambda p: size(p.core))
    # try the big jumps first, then a spread of the rest
    return out[:8] + out[8::max(1, (len(out) - 8) // 16)] if len(out) > 24 else out


def replay(path):
    """re-run a recorded failure against the current tree; 1 if it still fails"""
    rec = json.load(open(path))
    if 'source' not in rec:
        return None
    work = tempfile.mkdtemp(prefix='vh-replay-')
    try:
        src, obj, exe = (os.path.join(work, x) for x in ('unit.cpp', 'unit.o', 'unit'))
        open(src, 'w').write(rec['source'])
        rc, out = sh(cxx_cmd(rec['config'], src, obj), 400)
        if rc != 0:
            print(first_errors(out))
            return 1
        cc, flags = CONFIGS[rec['config']]
        rc, out = sh([cc] + [f for f in flags if f.startswith('-fsan')] + [obj, model_obj(model_kind(rec['config'])), '-pthread', '-o', exe], 200)
        if rec['kind'] == 'purity' or rec.get('input') is None:
            rc, out = sh([exe, '--seed', str(rec.get('unit_seed', 1)), '--cases', str(rec.get('cases', 600)), '--cmp', str(rec['cmp'])] + rec['opts'], 400)
        else:
            inp = os.path.join(work, 'input')
            open(inp, 'w').write(','.join(map(str, rec['input'])))
            rc, out = sh([exe, '--cmp', str(rec['cmp']), '--replay', rec['program'], str(rec['placement']), '@' + inp], 300)
        print(out[-3000:])
        return 1 if rc == 1 else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
