"""Checks that are not grammars against the model: C18 (histories), C19 (example grammars), C20 (refusals), and known findings."""
import concurrent.futures as cf
import hashlib, json, os, random, shutil, subprocess, tempfile, time
import run as R
import examples as X
import refuse as F


def build(config, src, out, extra=(), link=()):
    cc, flags = R.CONFIGS[config]
    return R.sh([cc] + R.COMMON + (R.CLANG if cc == 'clang++' else R.GCC) + flags + ['-I' + R.REPO] + list(extra) + [os.path.join(R.HERE, src), '-o', out] + list(link), 500)


# ------------------------------------------------------------------ C18
def c18_round(s, rnd, plan):
    def one(job):
        k, (part, config, histories) = job
        exe = os.path.join(s.work, 'v%d-%d-%d' % (rnd, k, part))
        rc, out = build(config, 'values.cpp', exe, ['-DPART=%d' % part])
        if rc != 0:
            return part, config, 'compile', R.first_errors(out)
        rc, out = R.sh([exe, '--seed', str(s.seed * 7919 + rnd * 101 + k), '--histories', str(histories), '--len', '40'], 600)
        os.unlink(exe)
        return part, config, rc, out
    with cf.ThreadPoolExecutor(s.jobs) as ex:
        for part, config, rc, out in ex.map(one, enumerate(plan)):
            s.configs[config] = s.configs.get(config, 0) + 1
            if rc == 'compile':
                fail(s, 'compile', 'histories over results and spans, part %d with %s: the harness uses only documented operations and no longer compiles\n%s' % (part, config, out), dict(special='values', part=part, config=config))
                continue
            seen = False
            for l in out.splitlines():
                f = l.split('\t')
                if f[0] == 'FAIL':
                    fail(s, 'history', '%s\nhistory (op,a,b,x): %s\n%s' % (f[2], f[3], f[4]), dict(special='values', part=part, config=config, machine=int(f[1]), history=f[3]))
                elif f[0] == 'STAT':
                    seen = True
                    s.stats['special'] = s.stats.get('special', 0) + int(f[1])
                    s.stats['nontrivial'] += int(f[2])
                    s.stats['programs'] += int(f[1])
                    s.stats['steps'] = s.stats.get('steps', 0) + int(f[3])
                elif f[0] == 'SAMPLE':
                    s.samples.append(f[1])
                elif f[0].startswith('NOTE'):
                    s.notes.append(l)
            if not seen:
                fail(s, 'run', 'rc=%s %s' % (rc, out[-1500:]), dict(special='values', part=part, config=config))


def c18(s, budget):
    if s.tier == 'quick':
        confs = [('g1', 'gs'), ('c1', 'cs'), ('g2', 'cs'), ('c0', 'gs')]
        plan = []
        for part in range(4):
            a, b = confs[(part + s.seed) % 4]
            plan += [(part, b, 250), (part, a, 1500)]
        c18_round(s, 0, plan)
        rounds = 1
    else:
        rounds = 0
        confs = ['gs', 'cs', 'g0a', 'c1', 'g2', 'c0', 'g1', 'c2']
        while not s.failures and (rounds == 0 or time.time() - s.t0 < budget):
            c18_round(s, rounds, [(p, confs[(p + rounds * 2 + j) % 8], 1500 if (p + rounds * 2 + j) % 8 < 2 else 12000) for p in range(4) for j in (0, 4)])
            rounds += 1
    return dict(rule='a history (a sequence of up to 40 operations on up to 13 result or 6 span objects, checked in full after every step) that transferred both a success and a failure (or both an empty and a non-empty span)', rounds=rounds, operations=s.stats.get('steps', 0))


# ------------------------------------------------------------------ C19
def fail(s, kind, why, rec):
    s.failures.append(dict(kind=kind, why=why, prog=None, unit=None, input=None, extra=rec))


def feed(exe, cases, timeout=300):
    data = b''.join(('%s%d\n' % (k, len(t.encode('latin-1')))).encode() + t.encode('latin-1') + b'\n' for k, t in cases)
    e = dict(os.environ)
    e.update(R.SAN_ENV)
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=R.limits)
    try:
        out, err = p.communicate(data, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return None, [], 'timed out'
    return p.returncode, out.decode('latin-1').splitlines(), err.decode('latin-1', 'replace')[-1500:]


def judge_json(case, line):
    want = X.json_expect(*case)
    return None if line == want else 'got      %s\nexpected %s' % (line[:700], want[:700])


K2 = False  # set when the finding is on record


def judge_calc(case, line):
    ok, left, val = X.calc_expect(*case)
    f = line.split()
    head = ['ok' if ok else 'no', str(left)] * 2
    if f[:4] != head:
        return 'got      %s\nexpected %s' % (line, ' '.join(head))
    if not ok or val is None:
        return None
    v, e = val
    try:
        g = float(f[4])
    except (IndexError, ValueError):
        return 'got      %s\nexpected the value %r' % (line, v)
    if same_value(g, v, e):
        return None
    if K2 and 'e' in case[1].lower():
        other = X.calc_expect(*case, k2=True)[2]
        if other is None or same_value(g, *other):
            return None
    return 'evaluates to %r, expected %r (rounding bound %g)' % (g, v, e)


def same_value(g, v, e):
    if v != v:
        return g != g
    return g == v or abs(g - v) <= 2 * e


JUDGE = dict(json=judge_json, calc=judge_calc)


def shrink_text(exe, which, case, budget=20):
    kind, t = case
    t0 = time.time()

    def bad(x):
        rc, lines, err = feed(exe, [(kind, x)], 30)
        return rc != 0 or not lines or JUDGE[which]((kind, x), lines[0]) is not None
    w = max(1, len(t) // 2)
    while w and time.time() - t0 < budget:
        i, cut = 0, False
        while i + w <= len(t) and time.time() - t0 < budget:
            y = t[:i] + t[i + w:]
            if bad(y):
                t, cut = y, True
            else:
                i += 1 if w == 1 else max(1, w // 2)
        if not cut or w > len(t):
            w //= 2
    return kind, t


def c19_one(job):
    work, seed, rnd, k, (which, config, n), known = job
    notes = []
    exe = os.path.join(work, 'x%d-%d-%s' % (rnd, k, which))
    rc, out = build(config, 'examples_%s.cpp' % which, exe)
    if rc != 0:
        return which, config, None, R.first_errors(out), [], notes
    rng = random.Random('C19/%d/%d/%d/%s' % (seed, rnd, k, which))
    g = X.JsonGen(rng) if which == 'json' else X.CalcGen(rng)
    global K2
    K2 = known
    cases, stats = [], dict(n=0, nontrivial=0)
    seen = set()
    while len(cases) < n:
        c = g.case()
        if c in seen or (which == 'calc' and not X.calc_ok(c[1])):
            if rng.random() < 0.02:
                seen.clear()
            continue
        seen.add(c)
        cases.append(c)
    rc, lines, err = feed(exe, cases)
    bad, nontriv, unsure = [], 0, 0
    for i, c in enumerate(cases):
        if i >= len(lines):
            if rc == 0:
                continue
            bad.append((c, 'the process ended while reading it (status %s): %s' % (rc, err)))
            break
        why = JUDGE[which](c, lines[i])
        if which == 'json':
            e = X.json_expect(*c)
            if c[0] == 'v':
                p = X.json_second_opinion(c[1])
                agree = (p is None) == e.startswith('no') and (p is None or (e.split()[1] == str(p[0]) and X.flat(p[1]) == X.flat_dump(e.split(' ', 4)[4])))
                if not agree:
                    notes.append('the two reference readers disagree about %r' % (c[1][:200],))
                    why = None
            nontriv += any(x in c[1] for x in '[{"')
        else:
            ok, left, val = X.calc_expect(*c)
            nontriv += (ok and val is not None and sum(ch in '+-*/^(' for ch in c[1]) >= 2) or (not ok and len(c[1]) > 3)
            unsure += ok and val is None
        if why:
            bad.append((c, why))
            if len(bad) > 3:
                break
    out = []
    for c, why in bad[:2]:
        m = shrink_text(exe, which, c)
        rc2, l2, err2 = feed(exe, [m], 30)
        why2 = JUDGE[which](m, l2[0]) if rc2 == 0 and l2 else 'the process ended: %s %s' % (rc2, err2)
        if why2 is None:
            # after the same predecessors?
            before = cases[:cases.index(c)]
            for k in (1, 8, len(before)):
                rc2, l2, err2 = feed(exe, before[-k:] + [c])
                n = len(before[-k:])
                why2 = JUDGE[which](c, l2[n]) if len(l2) > n else 'the process ended: %s %s' % (rc2, err2)
                if why2:
                    out.append((c, 'only after earlier documents: ' + why2, before[-k:]))
                    break
            else:
                notes.append('did not come back: %r' % (c,))
            continue
        out.append((m, why2, []))
    os.unlink(exe)
    return which, config, (len(cases), nontriv, unsure), cases[:3], out, notes


def c19_round(s, rnd, plan):
    import driver
    known = any(k == 'K2' for k, _ in driver.known_findings('C19'))
    with cf.ProcessPoolExecutor(s.jobs) as ex:
        for which, config, st, info, bad, notes in ex.map(c19_one, [(s.work, s.seed, rnd, k, p, known) for k, p in enumerate(plan)]):
            s.notes += notes
            s.configs[config] = s.configs.get(config, 0) + 1
            if st is None:
                fail(s, 'compile', 'the %s example does not compile with %s\n%s' % (which, config, info), dict(special='example', which=which, config=config))
                continue
            s.stats['special'] = s.stats.get('special', 0) + st[0]
            s.stats['programs'] += st[0]
            s.stats['nontrivial'] += st[1]
            s.stats['unsure'] = s.stats.get('unsure', 0) + st[2]
            s.samples += ['%s %s: %r' % (which, c[0], c[1][:160]) for c in info]
            for c, why, before in bad:
                fail(s, 'example', '%s example, entry %s, input %r\n%s' % (which, c[0], c[1][:600], why), dict(special='example', which=which, config=config, entry=c[0], text=c[1], before=before))


def c19(s, budget):
    # the JSON example needs g++: with this clang and libstdc++ its value type is incomplete where std::pair needs it
    if s.tier == 'quick':
        plan = [('json', 'g1', 12000), ('json', 'gs', 5000), ('json', ('g2', 'g0a', 'g3', 'g0')[s.seed % 4], 10000), ('calc', 'g1', 14000), ('calc', 'cs', 6000), ('calc', 'c1', 12000), ('calc', 'gs', 6000)]
        c19_round(s, 0, plan)
        rounds = 1
    else:
        rounds = 0
        while not s.failures and (rounds == 0 or time.time() - s.t0 < budget):
            c19_round(s, rounds, [('json', 'g1', 60000), ('json', 'gs', 40000), ('json', 'g2', 60000), ('json', 'g0a', 40000), ('calc', 'cs', 50000), ('calc', 'gs', 50000), ('calc', 'g2', 80000), ('calc', 'c2', 80000)])
            rounds += 1
    return dict(rule='a document with a string, array or object; an accepted expression with at least two operators whose value was compared, or a rejected one longer than three characters', rounds=rounds, values_beyond_the_rounding_bound=s.stats.get('unsure', 0))


# ------------------------------------------------------------------ C20, refusals
def c20(s, budget):
    rounds = 0
    total = dict(refusals=0)
    while True:
        n = 8 if s.tier == 'quick' else 16
        jobs = [(s.work, s.seed, rounds, k) + F.PAIRS[(k // 2 + s.seed * 4 + rounds * 8) % len(F.PAIRS)] + ('g0' if k % 2 else 'c0',) for k in range(n)]
        jobs += [(s.work, s.seed, rounds, k, 4, None, 'g0' if (k + rounds + s.seed) % 2 else 'c0') for k in range(4)]
        with cf.ProcessPoolExecutor(s.jobs) as ex:
            never = [ex.submit(F.run_never, (s.work, i, c)) for i in range(len(F.NEVER)) for c in ('g0', 'c0')] if rounds == 0 else []
            for config, evals, nontriv, samples, bad in ex.map(F.run_one, jobs):
                s.configs[config] = s.configs.get(config, 0) + 1
                s.stats['special'] = s.stats.get('special', 0) + evals
                s.stats['nontrivial'] += nontriv
                total['refusals'] += nontriv
                s.samples[:0] = samples[:1] if len(s.samples) < 16 else []
                for what, src, why in bad:
                    fail(s, 'refusal', what + '\n' + why, dict(special='refuse', config=config, text=src, compiles=0))
            nn, nh = (4, len(F.HARD)) if s.tier == 'quick' else (6, 4 * len(F.HARD))
            own = [ex.submit(F.run_near, (s.work, s.seed, rounds, k, F.TYPES[(k * 4 + s.seed * 3 + rounds * 7) % len(F.TYPES)], 'g0' if (k + rounds) % 2 else 'c0')) for k in range(nn)]
            own += [ex.submit(F.run_hard, (s.work, s.seed, rounds, k, F.TYPES[(k * 4 + k // len(F.HARD) + s.seed * 2 + rounds) % len(F.TYPES)], 'g0' if (k + k // len(F.HARD) + rounds + s.seed) % 2 else 'c0')) for k in range(nh)]
            for f in own:
                config, evals, nontriv, samples, bad = f.result()
                s.configs[config] = s.configs.get(config, 0) + 1
                s.stats['special'] = s.stats.get('special', 0) + evals
                s.stats['nontrivial'] += nontriv
                total['refusals'] += nontriv
                if len(s.samples) < 24:
                    s.samples[:0] = samples[:1]
                for what, src, why, comp in bad:
                    fail(s, 'refusal', what + '\n' + why, dict(special='refuse', config=config, text=src, compiles=comp))
            for f in never:
                config, bad = f.result()
                s.stats['special'] = s.stats.get('special', 0) + 2
                for what, src, why, comp in bad:
                    fail(s, 'refusal', what + '\n' + why, dict(special='refuse', config=config, text=src, compiles=comp))
        rounds += 1
        if s.failures or s.tier == 'quick' or time.time() - s.t0 > budget:
            break
    return dict(rule="an ill-formed composition, with a compound operand or one of the user's own, that the compiler had to refuse", refusal_rounds=rounds, refused_compositions=total['refusals'])


# ------------------------------------------------------------------ known findings
# key -> (property, source, configurations): an input that fails in the current tree and is recorded rather than repaired
K1 = r"""
#include <k3/tok3n.h>
using namespace k3::tok3n;
struct A : custom_parser<A> { using result_type = void; static consteval auto get_parser(); };
consteval auto A::get_parser() { return ("("_ign >> (+A{}) >> ")"_ign | "x"_ign) % delimit(","_any); }
int main() { return A::parse("(x,x)").has_value() ? 0 : 1; }
"""


def probe_k1(work):
    return F.syntax('c0', K1, work, 'k')[0] != 0


def probe_k2(work):
    exe = os.path.join(work, 'x')
    if build('g0', 'examples_calc.cpp', exe)[0] != 0:
        return False
    rc, lines, err = feed(exe, [('e', '2e3')], 60)
    return rc == 0 and bool(lines) and lines[0].split()[4:5] != [] and float(lines[0].split()[4]) == 8.0


PROBES = {'K1': ('C16', probe_k1), 'K2': ('C19', probe_k2)}


def probe_known(prop, known):
    out = []
    for key, text in known:
        if key not in PROBES or PROBES[key][0] != prop:
            continue
        work = tempfile.mkdtemp(prefix='vh-known-')
        try:
            still = PROBES[key][1](work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if still:
            out.append('KNOWN-FINDING: property=%s %s: %s' % (prop, key, text))
    return out


SPECIALS = {'C18': c18, 'C19': c19, 'C20': c20}


def replay(rec):
    work = tempfile.mkdtemp(prefix='vh-replay-')
    try:
        exe = os.path.join(work, 'x')
        if rec['special'] == 'values':
            rc, out = build(rec['config'], 'values.cpp', exe, ['-DPART=%d' % rec['part']])
            if rc == 0 and 'history' in rec:
                rc, out = R.sh([exe, '--replay', str(rec['machine']), rec['history']], 100)
            print(out[-2000:])
            return 1 if rc else 0
        if rec['special'] == 'refuse':
            rc, out = F.syntax(rec['config'], rec['text'], work, 'x')
            print(R.first_errors(out) if rc else 'compiles')
            return 1 if (rc == 0) == bool(rec['compiles']) else 0
        if rec['special'] == 'example':
            rc, out = build(rec['config'], 'examples_%s.cpp' % rec['which'], exe)
            if rc:
                print(out[-2000:])
                return 1
            if 'text' not in rec:
                return 0
            import driver
            global K2
            K2 = any(k == 'K2' for k, _ in driver.known_findings('C19'))
            c = (rec['entry'], rec['text'])
            before = [tuple(x) for x in rec.get('before', [])]
            rc, lines, err = feed(exe, before + [c], 60)
            why = JUDGE[rec['which']](c, lines[len(before)]) if rc == 0 and len(lines) > len(before) else 'the process ended: %s %s' % (rc, err)
            print(why or 'no discrepancy')
            return 1 if why else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0
