"""Runs all scenarios of one property, replays counterexamples, writes evidence."""
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import core, ctx as ctxmod
from .core import Engine, Abort, Unsupported, PathLimit
from .ctx import SymCtx, ConcCtx, run_concrete, HarnessError, innermost_repo_or_verif, short_tb, REPO, time_limit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCENARIOS = {}


class Scenario(object):
    def __init__(self, prop, name, fn, bounds, tiers, reach, timeout_ms, max_s, validate, numpy_division, custom, path_s=100):
        self.path_s = path_s
        self.prop, self.name, self.fn, self.bounds = prop, name, fn, bounds
        self.tiers, self.reach = tiers, reach
        self.timeout_ms, self.max_s, self.validate = timeout_ms, max_s, validate
        self.numpy_division = numpy_division
        self.custom = custom


def scenario(prop, bounds, name=None, tiers=('quick', 'thorough'), reach=(), timeout_ms=20000, max_s=None,
             validate=8, numpy_division=True, custom=False):
    """custom: fn(report) drives its own engine (graph encodings)."""
    def deco(fn):
        n = name or fn.__name__
        lst = SCENARIOS.setdefault(prop, [])
        assert all(s.name != n for s in lst), n
        lst.append(Scenario(prop, n, fn, bounds, tiers, tuple(reach), timeout_ms, max_s, validate, numpy_division, custom))
        return fn
    return deco


class FnTracer(object):
    def __init__(self):
        self.fns = set()

    def __call__(self, frame, event, arg):
        if event == 'call':
            f = frame.f_code.co_filename
            if f.startswith(REPO + '/'):
                self.fns.add('%s:%s' % (os.path.relpath(f, REPO), frame.f_code.co_qualname))


def run_scenario(sc, tier):
    t0 = time.time()
    res = dict(name=sc.name, bounds=sc.bounds, violations=[], errors=[], functions=[], stats={},
               replays=0, validated=0, samples=[])
    try:
        if sc.custom:
            sc.fn(res, tier)
        else:
            _run_paths(sc, tier, res)
    except BaseException:
        res['errors'].append('harness: ' + traceback.format_exc()[-1500:])
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def _run_paths(sc, tier, res):
    max_s = sc.max_s or (240 if tier == 'quick' else 3000)
    eng = Engine(timeout_ms=sc.timeout_ms, deadline=time.time() + max_s)
    eng.numpy_division = sc.numpy_division
    tracer = FnTracer()
    models = []
    count = [0]
    exc_gaps = [0]
    began = [time.time()]

    def conc(inputs):
        fn = lambda c: (setattr(c, 'tier', tier), sc.fn(c))
        return run_concrete(fn, inputs)

    def want_model(n):
        return (n & (n - 1)) == 0 or n % 37 == 0

    def run(e):
        c = SymCtx(e)
        c.tier = tier
        done = len(e.failures)
        traced = count[0] < 40
        if traced:
            sys.setprofile(tracer)
        try:
            with time_limit(sc.path_s, Unsupported('path took longer than %d s' % sc.path_s)):
                sc.fn(c)
        except (Abort, Unsupported, PathLimit):
            raise
        except (Exception, SystemExit) as exc:
            if innermost_repo_or_verif(exc) == 'repo':
                what = '%s: %s [%s]' % (type(exc).__name__, exc, short_tb(exc))
                sys.setprofile(None)
                n0 = len(e.failures)
                e.fail('exception', what)
                f = e.failures[n0]
                if f.inputs is not None and exc_gaps[0] < 60:
                    try:
                        real = conc(f.inputs)
                    except HarnessError:
                        real = None
                    if not real:
                        # raised on symbolic values only: a gap of the encoding
                        exc_gaps[0] += 1
                        del e.failures[n0:]
                        raise Unsupported(what[:300])
            else:
                raise Unsupported('harness: %s: %s [%s]' % (type(exc).__name__, exc, short_tb(exc)))
        finally:
            if traced:
                sys.setprofile(None)
            c.cleanup()
        # a counterexample that the real code confirms ends the exploration
        for f in e.failures[done:][:2]:
            if f.inputs is not None and time.time() - began[0] < 0.7 * max_s:
                try:
                    f.confirmed = conc(f.inputs)
                except HarnessError:
                    pass
                if f.confirmed:
                    del e.failures[done:]
                    e.failures.append(f)
                    break
        n = count[0]
        count[0] += 1
        if want_model(n) and len(models) < 4 * sc.validate:
            e.solver.set('timeout', 2000)
            if e._check() == core.z3.sat:
                models.append(e.model_inputs(e.solver.model()))
            else:
                models.append(next(candidate_inputs(None, e.input_spec())))

    eng.explore(run)
    res['functions'] = sorted(tracer.fns)
    res['stats'] = eng.stats
    res['samples'] = models[:2]

    # counterexamples: replay on the unpatched code
    if eng.failures:
        unrepro = []
        for f in eng.failures:
            tried = 0
            got = (f.inputs, f.confirmed) if f.confirmed else None
            since = time.time()
            for inputs in [] if got else candidate_inputs(f.inputs, f.spec):
                if tried > 1 and time.time() - since > 60:
                    break
                tried += 1
                try:
                    failed = conc(inputs)
                except HarnessError as e:
                    unrepro.append('%s: replay error %s' % (f.label, e))
                    continue
                if failed:
                    got = (inputs, failed)
                    break
            res['replays'] += tried
            if got:
                res['violations'].append(dict(label=f.label, detail=f.detail[:500], inputs=got[0],
                                              observed=['%s: %s' % x for x in got[1]][:5]))
            elif f.label == 'exception':
                # raised by the code on symbolic values only: the encoding does not cover this path
                eng.note_incomplete('unsupported: ' + f.detail[:200])
            else:
                unrepro.append('%s: %s inputs=%s' % (f.label, f.detail[:300], f.inputs))
        if not res['violations']:
            # a solver model that the real code does not confirm says nothing about the real code
            if os.environ.get('VERIF_STRICT'):
                res['errors'] += ['counterexample did not reproduce: ' + u for u in unrepro[:4]]
            for u in unrepro[:4]:
                eng.note_incomplete('counterexample did not reproduce: ' + u[:300])
    # paths outside the encoding: at least their models run on the unpatched code
    for inputs in eng.gaps:
        try:
            failed = conc(inputs)
        except HarnessError as e:
            (res['errors'].append if os.environ.get('VERIF_STRICT') else eng.note_incomplete)('gap replay error: %s inputs=%s' % (e, inputs))
            continue
        res['replays'] += 1
        if failed:
            res['violations'].append(dict(label=failed[0][0], detail='found on a path outside the encoding', inputs=inputs,
                                          observed=['%s: %s' % x for x in failed][:5]))
            break
    # validation of the encoding: solver models of explored paths, run on the unpatched code
    if sc.validate:
        step = max(1, len(models) // sc.validate)
        for inputs in models[::step][:sc.validate]:
            try:
                failed = conc(inputs)
            except HarnessError as e:
                (res['errors'].append if os.environ.get('VERIF_STRICT') else eng.note_incomplete)('validation replay error: %s inputs=%s' % (e, inputs))
                continue
            if failed is None:
                continue
            res['validated'] += 1
            if failed:
                res['violations'].append(dict(label=failed[0][0], detail='found when replaying a path model', inputs=inputs,
                                              observed=['%s: %s' % x for x in failed][:5]))
                break
    for r in sc.reach:
        if r not in eng.reached and not eng.failures and not eng.gaps and \
                (os.environ.get('VERIF_STRICT') or not eng.stats.get('incomplete')):
            res['errors'].append('vacuity: reachability witness %r never satisfied' % r)
    res['witnesses'] = sorted(eng.reached)


def candidate_inputs(inputs, spec=None):
    """the model itself, then nearby values (uninterpreted functions may make a
    model inexact); without a model, values within the bounds of the path"""
    import random
    rnd = random.Random(11)

    def within():
        alt = {}
        for k, (kind, lo, hi) in spec.items():
            if kind == 'int':
                alt[k] = rnd.randint(lo, hi)
            elif kind == 'bool':
                alt[k] = rnd.choice([False, True]) if lo != hi else lo
            else:
                lo = core.Fraction(str(lo)) if lo is not None else core.Fraction(-4)
                hi = core.Fraction(str(hi)) if hi is not None else lo + 8
                alt[k] = str(lo + (hi - lo) * core.Fraction(rnd.randint(1, 19), 20))
        return alt
    if inputs is None:
        for _ in range(25 if spec else 0):
            yield within()
        yield {}
        return
    yield inputs
    reals = [k for k, v in inputs.items() if isinstance(v, str)]
    if reals:
        for _ in range(30):
            alt = dict(inputs)
            for k in reals:
                v = core.Fraction(alt[k])
                alt[k] = str(v * core.Fraction(rnd.randint(5, 20), 10) + (core.Fraction(rnd.randint(-9, 9), 10) if v == 0 else 0))
            yield alt
    if spec and any(kind == 'int' and lo != hi for kind, lo, hi in spec.values()):
        for _ in range(30):
            alt = within()
            yield {k: alt.get(k, v) for k, v in inputs.items()}


_CUR = {}


def _worker(args):
    prop, i, tier = args
    return run_scenario(SCENARIOS[prop][i], tier)


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop]


def matches(k, sc_name, v):
    return k.get('scenario') == sc_name and k.get('label') == v['label'] and \
        all(str(v['inputs'].get(n)) == str(x) for n, x in k.get('inputs', {}).items())


def main(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scs = [(i, s) for i, s in enumerate(SCENARIOS.get(prop, [])) if tier in s.tiers and (only is None or only in s.name)]
    if not scs:
        print('no scenario for', prop)
        return 2
    jobs = [(prop, i, tier) for i, s in scs]
    if len(jobs) > 1 and not os.environ.get('VERIF_SERIAL'):
        with multiprocessing.get_context('fork').Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            results = pool.map(_worker, jobs, chunksize=1)
    else:
        results = [_worker(j) for j in jobs]

    violations, errors, known_lines = [], [], []
    known = known_findings(prop)
    for r in results:
        for v in r['violations']:
            hit = [k for k in known if matches(k, r['name'], v)]
            if hit:
                line = 'KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what'])
                if line not in known_lines:
                    known_lines.append(line)
            else:
                violations.append((r['name'], v))
        errors += ['%s: %s' % (r['name'], e) for e in r['errors']]

    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    fns = sorted(set(f for r in results for f in r['functions']))
    st = [r['stats'] for r in results]
    cov = dict(
        states=sum(s.get('paths', 0) for s in st),
        transitions=sum(s.get('branches', 0) for s in st),
        traces_validated_against_impl=sum(r['validated'] for r in results),
        samples=[dict(scenario=r['name'], model=r['samples'][0]) for r in results if r['samples']][:3],
        explanation='states = symbolic paths of the real code executed to the end; transitions = solver-decided branch '
                    'points; traces = solver models of explored paths re-run on the unpatched code',
        functions_encoded=fns,
        solver='z3 ' + core.z3.get_version_string(),
        queries=sum(s.get('queries', 0) for s in st),
        assertions=sum(s.get('checks', 0) for s in st),
        solver_s=round(sum(s.get('solver_s', 0) for s in st), 3),
        unknown=sum(s.get('unknown', 0) for s in st),
        counterexamples_replayed=sum(r['replays'] for r in results),
        scenarios=[dict(name=r['name'], bounds=r['bounds'], paths=r['stats'].get('paths', 0),
                        queries=r['stats'].get('queries', 0), solver_s=round(r['stats'].get('solver_s', 0), 3),
                        incomplete=r['stats'].get('incomplete', []), witnesses=r.get('witnesses', []),
                        wall_s=r['wall_s']) for r in results],
        exhaustive=not any(s.get('incomplete') for s in st) and not errors,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=ASSUMPTIONS.get(prop, []) + GENERAL_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for r in results:
        print('%-40s paths=%-6d queries=%-6d solver=%.1fs wall=%.1fs validated=%d%s' % (
            r['name'], r['stats'].get('paths', 0), r['stats'].get('queries', 0), r['stats'].get('solver_s', 0),
            r['wall_s'], r['validated'], ' INCOMPLETE ' + str(r['stats'].get('incomplete')) if r['stats'].get('incomplete') else ''))
    for l in known_lines:
        print(l)
    if violations:
        rp = os.path.join(evdir, 'replay_%s.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, tier=tier,
                           violations=[dict(scenario=n, **v) for n, v in violations],
                           how='run.sh %s --replay %s' % (prop, rp)), f, indent=1, default=str)
        for n, v in violations[:5]:
            print('  violated: %s / %s inputs=%s' % (n, v['label'], str(v['inputs'])[:600]))
            for o in v['observed']:
                print('     real code: %s' % o[:400])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if not errors and not any(s.get('paths') for s in st):
        errors.append('no path was explored')
    if errors:
        for e in errors[:6]:
            print('INCONCLUSIVE %s' % e)
        return 2
    return 0


def replay(prop, path):
    data = json.load(open(path))
    rc = 0
    for v in data['violations']:
        sc = [s for s in SCENARIOS[prop] if s.name == v['scenario']][0]
        if sc.custom:
            r = dict(name=sc.name, bounds=sc.bounds, violations=[], errors=[], functions=[], stats={}, replays=0,
                     validated=0, samples=[])
            sc.fn(r, data['tier'])
            print(sc.name, r['violations'])
            rc |= bool(r['violations'])
            continue
        fn = lambda c: (setattr(c, 'tier', data['tier']), sc.fn(c))
        failed = run_concrete(fn, v['inputs'])
        print(v['scenario'], v['inputs'], '->', failed)
        rc |= bool(failed)
    return 1 if rc else 0


ASSUMPTIONS = {}
GENERAL_ASSUMPTIONS = [
    'real-valued quantities are mathematical reals (floating-point rounding is outside the claim); exp/log/tanh/sigmoid '
    'are uninterpreted functions with sign and range axioms',
    'NumPy container operations run natively on object arrays of symbolic values',
    'logging output is suppressed',
]


def assume_note(prop, *texts):
    ASSUMPTIONS.setdefault(prop, []).extend(texts)
