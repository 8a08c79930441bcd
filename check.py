#!/usr/bin/env python3
"""Decides one property of asn1crypto on the current working tree of /repo.

    python3-vt check.py C01 [--tier quick|thorough]
    python3-vt check.py --replay replays/C01-....json

Exit 0: every obligation the verifier generated from /repo's current source was discharged (parts it could
not decide are printed as UNDECIDED and covered only by the bounded runtime contracts, never counted proved).
Exit 1: VIOLATION line.  Exit 2: the machinery itself produced nothing.
"""
import sys
import os
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import argparse
import base64
import importlib
import json
import pickle
import random
import resource
import signal
import subprocess
import tempfile
import threading
import time
import traceback
import warnings

warnings.simplefilter('ignore')
MODULE = {}
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def enc(v):
    try:
        return base64.b64encode(pickle.dumps(v)).decode()
    except Exception:
        return None


def short(v, n=400):
    r = repr(v)
    return r if len(r) <= n else r[:n] + '...<%d chars>' % len(r)


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def guarded(f, seconds=20):
    """None if the runtime contract holds, else a message"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return f()
    except Hang:
        return 'did not terminate within %d s' % seconds
    except RecursionError:
        return 'RecursionError (stack exhausted) escaped'
    except MemoryError:
        return 'MemoryError'
    except Exception as e:
        # an exception the contract does not allow for, raised inside the library, breaks the contract;
        # one raised by the harness itself does not
        import pyvc.repo
        root = os.path.dirname(sys.modules['asn1crypto'].__file__) + os.sep
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(root):
                return 'raised %s: %s' % (type(e).__name__, str(e)[:300])
            tb = tb.tb_next
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def load(prop):
    import pyvc.repo  # noqa
    return importlib.import_module('contracts.' + prop.lower())


def units_of(m, tier):
    out = []
    for u in getattr(m, 'UNITS', ()):
        u = u() if isinstance(u, type) else u
        if getattr(u, 'thorough_only', False) and tier != 'thorough':
            continue
        out.append(u)
    return out


def bounded_of(m, tier):
    return [b() if isinstance(b, type) else b for b in getattr(m, 'BOUNDED', ())]


def known_findings():
    p = os.path.join(HERE, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else []


# ---------------------------------------------------------------------------------------------- workers
def worker_unit(prop, idx, tier, out):
    m = load(prop)
    u = units_of(m, tier)[idx]
    from pyvc.unit import UnitRun, summarize
    if tier == 'thorough':
        u.time_s = max(u.time_s, 600)
        u.prove_timeout_ms = max(u.prove_timeout_ms, 60000)
    run = UnitRun(u)
    replays = {}

    def confirm(o):
        if o.inputs is None or not u.oracle:
            return False
        try:
            replays[id(o)] = guarded(lambda: u.oracle(o.inputs))
        except Exception:
            return False
        return bool(replays[id(o)])
    run.confirm = confirm
    res = run.explore()
    summ = summarize(res)
    fails = []
    seen = {}
    for o in res['obligations']:
        if o.status == 'proved':
            continue
        k = (o.name, o.status)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 6:
            continue
        f = dict(obligation=o.name, status=o.status, inputs=None, text=None, replay=None, detail=str(o.detail),
                 backend=o.backend, smt=getattr(o, 'smt', None))
        if o.inputs is not None:
            f['inputs'] = enc(o.inputs)
            f['text'] = short(o.inputs, 2000)
            if id(o) in replays:
                f['replay'] = replays[id(o)]
            elif u.oracle:
                try:
                    f['replay'] = guarded(lambda: u.oracle(o.inputs))
                except Exception as e:
                    f['detail'] += ' (replay harness: %r)' % (e,)
        fails.append(f)
    search = None
    if fails and u.gen and not any(f['replay'] for f in fails):
        rng = random.Random(SEED)
        t0 = time.time()
        n = 0
        while time.time() - t0 < (20 if tier == 'quick' else 120):
            inp = u.gen(rng)
            n += 1
            try:
                msg = guarded(lambda: u.oracle(inp))
            except Exception:
                continue
            if msg:
                search = dict(inputs=enc(inp), text=short(inp, 2000), replay=msg, tried=n)
                break
    missing = [c for c in u.covers if c not in res['covers']]
    by_backend = {}
    for o in res['obligations']:
        if o.status == 'proved':
            by_backend[o.backend] = by_backend.get(o.backend, 0) + 1
    r = dict(unit=u.name, targets=list(u.targets), summary=summ, fails=fails, search=search, paths=res['paths'],
             complete=res['complete'], unsupported=sorted(set(res['unsupported']))[:10],
             incomplete=sorted(set(res['incomplete']))[:10], missing_covers=missing, functions=res['functions'],
             wall_s=res['wall_s'], queries=res['solver_queries'], solver_s=res['solver_s'], notes=res['notes'],
             invariants=res['loop_invariants'], by_backend=by_backend, used_contracts=res['contracts'],
             bounded_note=u.bounded_note, reached_end='end' in res['covers'], assumptions=list(getattr(u, 'assumptions', ())))
    json.dump(r, open(out, 'w'))


def known_match(prop, where, case, msg, kf):
    for k in kf:
        if k.get('status') == 'finding' and k['property'] == prop and k.get('where') == where \
                and k.get('case') == short(case, 2000) and (not k.get('message') or k['message'] in msg):
            return k
    return None


def worker_bounded(prop, idx, tier, out):
    m = load(prop)
    b = bounded_of(m, tier)[idx]
    kf = known_findings()
    rng = random.Random('%s/%s/%d' % (prop, b.name, SEED))
    t0 = time.time()
    limit = b.seconds if tier == 'quick' else max(b.seconds * 10, 120)
    n = 0
    keys = set()
    samples = []
    fails = []
    known = []
    done = False
    errors = []
    gen = b.cases(rng, tier)
    for case in gen:
        if time.time() - t0 > limit and not b.exhaustive:
            break
        n += 1
        try:
            msg = guarded(lambda: b.oracle(case))
        except Exception as e:
            # a runtime contract that crashes is a harness error, never a violation
            errors.append('%s: %r' % (short(case, 200), e))
            if os.environ.get('VERIF_DEV'):
                traceback.print_exc()
            if len(errors) > 20:
                break
            continue
        key = b.key(case)
        if key is not None:
            keys.add(hash(key))
        if len(samples) < 3 or (n % 997 == 0 and len(samples) < 6):
            samples.append(short(case, 160))
        if msg:
            k = known_match(prop, b.name, case, msg, kf)
            if k is not None:
                known.append(k['what'])
                continue
            fails.append(dict(obligation='runtime contract: ' + b.name, inputs=enc(case), text=short(case, 2000), replay=msg))
            if len(fails) >= 5:
                break
    else:
        done = True
    json.dump(dict(name=b.name, rule=b.rule, cases=n, distinct=len(keys), samples=samples, fails=fails, known=known,
                   exhausted=done and b.exhaustive, wall_s=round(time.time() - t0, 2), errors=errors[:5]), open(out, 'w'))


def run_worker(args):
    prop, kind, idx, tier, out = args
    lim = (8 << 30) if kind == 'unit' else (4 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    if kind == 'unit':
        sys.setrecursionlimit(12000)
    err = []
    try:
        (worker_unit if kind == 'unit' else worker_bounded)(prop, int(idx), tier, out)
    except BaseException:
        err.append(traceback.format_exc())
    if err:
        json.dump(dict(crash=err[0], kind=kind, idx=idx), open(out, 'w'))


# ---------------------------------------------------------------------------------------------- main
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick') or 'quick')
    ap.add_argument('--worker', nargs=5)
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.worker:
        return run_worker(a.worker)
    if a.replay:
        return replay(a.replay)
    return check(a.property.upper(), a.tier, a)


def replay(path):
    r = json.load(open(path))
    print(json.dumps(dict((k, v) for k, v in r.items() if k != 'inputs'), indent=1))
    if not r.get('inputs'):
        print('no input to replay')
        return 0
    m = load(r['property'])
    inp = pickle.loads(base64.b64decode(r['inputs']))
    for u in units_of(m, 'thorough') + bounded_of(m, 'thorough'):
        if u.name == r['where']:
            msg = guarded(lambda: u.oracle(inp))
            print('REPLAYED:', msg or 'the contract holds on this tree')
            return 1 if msg else 0
    return 2


def tail(path):
    try:
        return open(path, 'rb').read()[-600:].decode('utf-8', 'replace')
    except OSError:
        return ''


def grace(r):
    """seconds the other workers still get once this result is in; None: no limit"""
    if 'crash' in r or not r.get('fails'):
        return None
    if r.get('search') or any(f['replay'] for f in r['fails']):
        return 20
    if any(f.get('status') == 'refuted' for f in r['fails']):
        return 240      # no failing input yet: the others may find one
    return None


def check(prop, tier, a):
    t0 = time.time()
    m = load(prop)
    units = units_of(m, tier)
    bounds = bounded_of(m, tier)
    jobs = [('unit', i, u.name, getattr(u, 'cost', 1)) for i, u in enumerate(units)] + \
           [('bounded', i, b.name, getattr(b, 'cost', b.seconds / 10.0)) for i, b in enumerate(bounds)]
    if a.only:
        jobs = [j for j in jobs if a.only in j[2]]
    jobs.sort(key=lambda j: -j[3])
    budget = 780 if tier == 'quick' else 5400
    end = t0 + budget
    why = 'time budget of the check exhausted'
    results = {}
    tmp = tempfile.mkdtemp(prefix='pyvc-')
    running = {}
    queue = list(jobs)
    try:
        while queue or running:
            while queue and len(running) < 8:
                kind, i, name, _ = queue.pop(0)
                out = os.path.join(tmp, '%s%d.json' % (kind, i))
                p = subprocess.Popen([sys.executable, os.path.join(HERE, 'check.py'), '--worker', prop, kind, str(i), tier,
                                      out], cwd=HERE, stdin=subprocess.DEVNULL,
                                     stdout=None if a.v else subprocess.DEVNULL,
                                     stderr=None if a.v else open(out + '.err', 'wb'), start_new_session=True)
                running[p] = (kind, i, name, out)
            time.sleep(0.03)
            over = time.time() > end
            for p in list(running):
                if p.poll() is None and not over:
                    continue
                kind, i, name, out = running.pop(p)
                if p.poll() is None:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    results[(kind, i)] = dict(crash=why, name=name)
                elif os.path.exists(out):
                    try:
                        results[(kind, i)] = json.load(open(out))
                    except ValueError:
                        results[(kind, i)] = dict(crash='worker output unreadable', name=name)
                else:
                    results[(kind, i)] = dict(crash='worker died with status %s: %s' % (
                        p.returncode, tail(out + '.err')), name=name)
                g = grace(results[(kind, i)])
                if g is not None and time.time() + g < end:
                    # the property is already violated: report it soon rather than after every other unit
                    end = time.time() + g
                    why = 'stopped: a violation had been found'
            if over and queue:
                for kind, i, name, _ in queue:
                    results[(kind, i)] = dict(crash='not started: ' + why, name=name)
                queue = []
    finally:
        subprocess.call(['rm', '-rf', tmp])
    return report(prop, tier, m, jobs, results, t0, a)


def report(prop, tier, m, jobs, results, t0, a):
    oblig = discharged = 0
    undecided, violations, nfif, known = [], [], [], []
    functions, targets, backends, used = set(), set(), {}, set()
    solver_s = queries = paths = cases = distinct = 0
    ev_units, ev_bounded, assumptions, proved_units = [], [], [], []
    for kind, i, name, _ in sorted(jobs):
        r = results.get((kind, i), dict(crash='no result'))
        if 'crash' in r:
            undecided.append('%s %s: machinery: %s' % (kind, name, r['crash'].strip().split('\n')[-1][:300]))
            if a.v:
                print(r['crash'])
            continue
        if kind == 'unit':
            n = sum(sum(d.values()) for d in r['summary'].values())
            p = sum(d['proved'] for d in r['summary'].values())
            # an input/iteration class the engine could not follow leaves the unit's claim open
            oblig += n
            discharged += p
            paths += r['paths']
            queries += r['queries']
            solver_s += r['solver_s']
            functions |= set(r['functions'])
            targets |= set(r['targets'])
            used |= set(r['used_contracts'])
            assumptions += r['assumptions']
            for k, v in r['by_backend'].items():
                backends[k] = backends.get(k, 0) + v
            open_ = []
            if r['unsupported']:
                open_.append('outside the engine: ' + '; '.join(r['unsupported'])[:300])
            if r['incomplete']:
                open_.append('incomplete: ' + '; '.join(r['incomplete'])[:300])
            if r['missing_covers']:
                open_.append('vacuity guard: not reached: %s' % r['missing_covers'])
            if not n:
                open_.append('vacuity guard: no obligation generated')
            conf = [f for f in r['fails'] if f['replay']]
            if r['search']:
                conf.append(dict(r['search'], obligation=r['fails'][0]['obligation']))
            for f in conf[:2]:
                violations.append(dict(f, where=name))
            if not conf:
                ref = [f for f in r['fails'] if f['status'] == 'refuted']
                unk = [f for f in r['fails'] if f['status'] == 'unknown']
                for f in ref[:3]:
                    nfif.append(dict(f, where=name))
                for f in unk[:2]:
                    open_.append('solver: %s: %s' % (f['obligation'], f['detail']))
            for o in open_:
                undecided.append('unit %s: %s' % (name, o))
            ev_units.append(dict(unit=name, obligations=n, discharged=p, paths=r['paths'], wall_s=r['wall_s'],
                                 functions=len(r['functions']), loop_invariants=r['invariants'], undecided=open_,
                                 bounded=r['bounded_note'], contracts_assumed_at_calls=r['used_contracts']))
            if not open_ and not r['fails'] and not r['bounded_note']:
                proved_units.append(name)
        else:
            cases += r['cases']
            distinct += r['distinct']
            for f in r['fails'][:2]:
                violations.append(dict(f, where=name))
            for k in r['known']:
                if k not in known:
                    known.append(k)
            for e in r['errors'][:2]:
                undecided.append('bounded %s: harness error %s' % (name, e[:300]))
            if not r['cases']:
                undecided.append('bounded %s: no case generated' % name)
            ev_bounded.append(dict(name=name, label='bounded, not counted as proved', rule=r['rule'], cases=r['cases'],
                                   distinct=r['distinct'], exhaustive=r['exhausted'], samples=r['samples'],
                                   wall_s=r['wall_s']))
    level = getattr(m, 'LEVEL', 'proof')
    cov = dict(obligations=oblig, discharged=discharged,
               checker_cmd='python3-vt check.py %s' % prop,
               trusted_base=TRUSTED + list(getattr(m, 'TRUSTED', [])),
               back_ends=backends, solver_time_s=round(solver_s, 1), solver_queries=queries, symbolic_paths=paths,
               functions_under_contract=sorted(targets), functions_executed_symbolically=sorted(functions),
               callee_contracts_used=sorted(used), units=ev_units, bounded=ev_bounded,
               evaluations=cases, distinct_nontrivial=distinct,
               rule='bounded runtime contracts: distinct by the key each check states; see coverage.bounded',
               samples=[s for b in ev_bounded for s in b['samples'][:1]][:6] or ['none'],
               undecided=undecided, known_findings=known,
               explanation=getattr(m, 'EXPLANATION', 'see DESIGN.md'))
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, coverage=cov,
              assumptions=sorted(set(assumptions + list(getattr(m, 'ASSUMPTIONS', [])))),
              wall_s=round(time.time() - t0, 1), violations=len(violations) + len(nfif))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s tier=%s: %d/%d obligations discharged in %d units (%d fully), %d bounded cases (%d distinct), %.1f s'
          % (prop, tier, discharged, oblig, len(ev_units), len(proved_units), cases, distinct, time.time() - t0))
    for u in undecided:
        print('UNDECIDED: ' + u)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if violations or nfif:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        vs = violations or nfif
        for j, v in enumerate((violations + nfif)[:8]):
            path = os.path.join('replays', '%s-%d.json' % (prop, j))
            json.dump(dict(property=prop, where=v['where'], obligation=v['obligation'], message=v.get('replay'),
                           inputs=v.get('inputs'), inputs_text=v.get('text'), verifier=v.get('detail'),
                           status=v.get('status'), back_end=v.get('backend'), smt=v.get('smt'),
                           how='python3-vt check.py --replay %s' % path),
                      open(os.path.join(HERE, path), 'w'), indent=1)
            v['path'] = path
            print('FAILED: %s / %s: %s' % (v['where'], v['obligation'], v.get('replay') or
                                           'no failing input found; model %s' % (short(v.get("text") or "none", 300),)))
        print('VIOLATION property=%s replay=%s%s' % (prop, vs[0]['path'],
                                                     '' if violations else ' no-failing-input-found'))
        return 1
    if not oblig and not cases:
        print('ERROR: nothing was decided')
        return 2
    return 0


TRUSTED = [
    'PyVC (/verif/pyvc): the symbolic interpreter of Python source and its models of CPython built-ins; cross-checked '
    'against CPython by tools/crosscheck.py',
    'z3 5.x and cvc5 as SMT back ends',
    'CPython ast module',
    'int is mathematical (exact in Python); bytes are ropes over arrays of 0..255',
]

if __name__ == '__main__':
    sys.exit(main())
