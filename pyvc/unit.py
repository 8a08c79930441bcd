"""Verification units: a contract (or lemma over contracts) for functions of /repo, and its exploration."""
import time
import traceback
import z3

from .values import *  # noqa
from . import solver
from .solver import Ctx, PathEnd, Restart, Budget, Obligation
from .interp import Interp, PyRaise, MISSING
from .models import Models


class Unit(object):
    """One deductive unit.

    name        unique id
    targets     qualified names of the functions the unit's postconditions speak about
    run(it)     builds symbolic inputs satisfying the precondition, executes the real source, states
                the postconditions as obligations
    oracle(inp) runtime form of the same contract on the real code: None if it holds, else a message
    gen(rng)    optional generator of concrete inputs for the oracle
    """
    name = None
    targets = ()
    contracts = {}
    loop_templates = ()
    unroll = 0
    termination = False
    covers = ()
    max_paths = 3000
    time_s = 200
    branch_timeout_ms = 1500
    prove_timeout_ms = 12000
    models = None
    bounded_note = None      # set when the unit is only complete up to a stated bound

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def run(self, it):
        raise NotImplementedError

    oracle = None
    gen = None


class Bounded(object):
    """A runtime contract evaluated on concrete inputs of the real code (labelled bounded, never proved).

    cases(rng, tier) yields inputs; oracle(case) returns None when the contract holds, else a message.
    exhaustive=True when cases() enumerates a finite space completely."""
    name = None
    rule = ''
    seconds = 12
    exhaustive = False

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def cases(self, rng, tier):
        raise NotImplementedError

    def oracle(self, case):
        raise NotImplementedError

    def key(self, case):
        return repr(case)


class UnitRun(object):
    houdini_timeout_ms = 3000

    def __init__(self, unit):
        self.unit = unit
        self.branch_timeout_ms = unit.branch_timeout_ms
        self.prove_timeout_ms = unit.prove_timeout_ms
        self.functions = set()
        self.loops = {}
        self.cut_keys = set()
        self.loop_inv = {}
        self.deadline = None
        self.confirm = None     # obligation -> True if its counterexample fails on the real code

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time')

    def explore(self):
        t0 = time.time()
        self.deadline = t0 + self.unit.time_s
        solver.STATS.update(queries=0, time=0.0, unknown=0)
        restarts = 0
        while True:
            try:
                res = self.explore_once()
                break
            except Restart as e:
                restarts += 1
                if restarts > 200:
                    res = dict(obligations=[], paths=0, complete=0, unsupported=['too many restarts'],
                               incomplete=[], covers=[], budget=None, notes=[], contracts=[])
                    break
            except Budget:
                res = dict(obligations=[], paths=0, complete=0, unsupported=[], incomplete=['time budget'],
                           covers=[], budget='time', notes=[], contracts=[])
                break
        res['restarts'] = restarts
        res['functions'] = sorted(self.functions)
        res['loop_invariants'] = self.loop_inv
        res['wall_s'] = round(time.time() - t0, 2)
        res['solver_queries'] = solver.STATS['queries']
        res['solver_s'] = round(solver.STATS['time'], 2)
        res['unit'] = self.unit.name
        return res

    def explore_once(self):
        unit = self.unit
        stack = [()]
        obligs, unsupported, incomplete, covers, notes, used = [], [], [], set(), set(), set()
        paths = complete = failed = 0
        t_bad = None
        budget = None
        while stack:
            if paths >= unit.max_paths:
                incomplete.append('path limit %d' % unit.max_paths)
                break
            prefix = stack.pop()
            paths += 1
            ctx = Ctx(self, prefix)
            it = Interp(ctx, unit.models or default_models(), unit.contracts, list(unit.loop_templates), unit.unroll)
            try:
                try:
                    unit.run(it)
                    r = ctx.check()
                    if r != z3.unsat:
                        complete += 1
                        covers |= ctx.covers
                        covers.add('end' if r == z3.sat else 'end?')
                except PathEnd:
                    covers |= ctx.covers
                except PyRaise as e:
                    # an exception the unit did not account for
                    ctx.prove('no unexpected exception', False) if ctx.check() != z3.unsat else None
                except Unsupported as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    unsupported.append('%s' % (e,))
                except RecursionError as e:
                    unsupported.append('recursion limit of the engine')
                except Exception as e:
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    unsupported.append('engine error %s: %s at %s:%s' % (type(e).__name__, str(e)[:200], tb.filename, tb.lineno))
            except PathEnd:
                pass
            except Budget:
                incomplete.append('time budget')
                budget = 'time'
                obligs.extend(ctx.obligs)
                it.cleanup()
                break
            finally:
                it.cleanup()
            # loops that could not be unrolled become cut points
            newcut = getattr(ctx, 'want_cut', None)
            obligs.extend(ctx.obligs)
            incomplete.extend(ctx.incomplete)
            notes |= ctx.notes
            bad = [o for o in ctx.obligs if o.status == 'refuted']
            if bad:
                # the unit has failed: a confirmed failing input ends it at once, unconfirmed ones after a few paths
                failed += 1
                t_bad = t_bad or time.time()
                if failed >= 8 or time.time() - t_bad > 40 or (self.confirm and any(self.confirm(o) for o in bad)):
                    incomplete.append('stopped at the failed obligations')
                    break
            used |= ctx.used_contracts
            stack.extend(ctx.pending)
        return dict(obligations=obligs, paths=paths, complete=complete, unsupported=unsupported,
                    incomplete=incomplete, covers=sorted(covers), budget=budget, notes=sorted(notes),
                    contracts=sorted(used))


_MODELS = None


def default_models():
    global _MODELS
    if _MODELS is None:
        _MODELS = Models()
        from asn1crypto import _types, _errors
        for f in (_types.type_name, _errors.unwrap):
            _MODELS.overrides[f.__module__ + '.' + f.__qualname__] = _MODELS.table[f]
    return _MODELS


def outcome(it, f, *args, **kwargs):
    """('ret', value) or ('exc', exception)"""
    try:
        return 'ret', it.call(f, list(args), kwargs)
    except PyRaise as e:
        return 'exc', e.exc


def summarize(res):
    by = {}
    for o in res['obligations']:
        d = by.setdefault(o.name, dict(proved=0, refuted=0, unknown=0))
        d[o.status] += 1
    return by
