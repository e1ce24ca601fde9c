"""Runs one property's check, writes its evidence, prints VIOLATION / KNOWN-FINDING lines."""
import json, os, sys, time, traceback
from run import *
from profiles import PROFILES
import special

QUICK_ROUNDS = {'C01': 4, 'C03': 2, 'C06': 2, 'C07': 3, 'C09': 2, 'C12': 2, 'C13': 2, 'C21': 2}  # rounds of generated programs in the quick tier, where it is not one
EVID = os.path.join(VERIF, 'evidence')


def known_findings(prop):
    """(key, text) of the findings recorded for a property"""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                out.append((key, text))
    return out


def evidence(s, rule, extra=None, assumptions=()):
    os.makedirs(EVID, exist_ok=True)
    st = s.stats
    ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level='exploration', wall_s=round(time.time() - s.t0, 2), violations=len(s.failures))
    cov = dict(evaluations=st['evals'] + st['const'] + st['forms'] + st['throws'] + st['pure'] + st.get('special', 0), distinct_nontrivial=st['nontrivial'], rule=rule, samples=s.samples[:12],
               generated_programs=st['programs'], distinct_programs=len(s.asts), model_successes=st['ok'], model_failures=st['fail'], compile_time_evaluations=st['const'],
               input_form_evaluations=st['forms'], exception_injections=st['throws'], repeated_evaluations=st['pure'], skipped_out_of_fuel=st['skipped'], builds_per_configuration=s.configs,
               events={n: s.events[i] for i, n in enumerate(EV_NAMES) if s.events[i]})
    if extra:
        cov.update(extra)
    if s.notes:
        cov['notes'] = s.notes[:10]
    ev['coverage'] = cov
    ev['assumptions'] = list(assumptions) or ['the reference model in engine/model.cpp states the documented semantics', 'g++ 13.3 and clang++ 18 with libstdc++ 13 on x86-64 Linux']
    tmp = os.path.join(EVID, '.%s.%d' % (s.prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(EVID, s.prop + '.json'))


def describe(f):
    lines = ['kind: %s' % f['kind']]
    if f.get('prog') is not None:
        lines.append('parser: ' + f['prog'].cxx[:1500])
        lines.append('grammar: ' + f['prog'].ast[:1500])
    if f.get('input') is not None:
        lines.append('input (element codes): ' + str(f['input'][:200]))
    lines.append(str(f['why'])[:2000])
    return '\n'.join('  ' + l for x in lines for l in x.splitlines())


def check(prop, tier, seed):
    budget = float(os.environ.get('VERIF_BUDGET', '600'))
    s = None
    try:
        gen, cmp, mask, rule = PROFILES.get(prop, (None, ['PARSE'], ['OK'], ''))
        s = Session(prop, tier, seed, cmp, mask)
        extra = {}
        if gen:
            rnd = 0
            while True:
                units = gen(seed, tier, rnd)
                if tier == 'thorough' and rnd % 4 == 3 and prop != 'C14':
                    # one round in four in C++23, at run time only (constant evaluation has other limits there)
                    for u in units:
                        if u.config + '23' in CONFIGS:
                            u.config += '23'
                            for p in u.programs:
                                p.consts = []
                s.run(units)
                rnd += 1
                if s.failures or (rnd >= QUICK_ROUNDS.get(prop, 1) if tier == 'quick' else time.time() - s.t0 > budget):
                    break
            extra['rounds'] = rnd
        if prop in special.SPECIALS and not s.failures:
            r2 = special.SPECIALS[prop](s, budget)
            if r2:
                rule = (rule + '; ' if rule else '') + r2.pop('rule', '')
                extra.update(r2)
        for line in special.probe_known(prop, known_findings(prop)):
            print(line)
        rc = 0
        if s.failures:
            # crashes and mismatches first; report up to three distinct programs
            for n, f in enumerate(s.failures[:2]):
                g = f
                if n == 0 and f.get('prog') is not None:
                    try:
                        g = s.minimise(f)
                    except Exception:
                        traceback.print_exc()
                path = s.save(g, n) if 'path' not in g else g['path']
                print(describe(g))
                print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
        st = s.stats
        print('%s %s seed=%d: %d programs, %d evaluations, %d non-trivial, %d failures, %.1f s' % (
            prop, tier, seed, st['programs'], st['evals'] + st['const'] + st['forms'] + st['throws'] + st['pure'] + st.get('special', 0), st['nontrivial'], len(s.failures), time.time() - s.t0))
        for n in s.notes[:5]:
            print('note: ' + n[:300])
        evidence(s, rule, extra)
        return rc
    finally:
        if s:
            s.close()


def main(argv):
    tier, seed, prop = os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1') or '1'), None
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == '--tier':
            i += 1
            tier = argv[i]
        elif a == '--seed':
            i += 1
            seed = int(argv[i])
        elif a == '--replay':
            rec = json.load(open(argv[i + 1]))
            r = replay(argv[i + 1]) if 'source' in rec else special.replay(rec)
            if r:
                print('VIOLATION property=%s replay=%s' % (rec['property'], argv[i + 1]))
            return r
        elif a == '--setup':
            with cf.ThreadPoolExecutor(3) as ex:
                list(ex.map(model_obj, ['plain', 'san', 'tsan']))
            print('setup done')
            return 0
        else:
            prop = a
        i += 1
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    return check(prop, tier, seed)
