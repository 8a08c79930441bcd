"""Loop cutting with automatically selected invariants.

A loop whose exit depends on symbolic data is not unrolled: its state is havocked, candidate invariants
(instances of the templates a contract file supplies, over the variables the loop modifies) are assumed,
the body is executed once, and every candidate must hold again at the back edge.  Candidates that fail
initially or are not preserved are dropped and the unit is explored again (Houdini); what survives is
inductive.  Templates name roles (a modified integer, a byte string), not source variables, so renaming
or reordering does not disturb them.
"""
import ast
import types
import z3

from .values import *  # noqa
from .values import simp
from .solver import PathEnd, Restart, Obligation, bound, zb
from . import interp as _i
from .interp import PyRaise, SymIter, assigned_names, cls_in_repo


class LoopState(object):
    def __init__(self):
        self.dropped = set()
        self.dropped_variants = set()
        self.peel = 0


class LoopEnv(object):
    """what templates see: entry values, current values, names by kind"""

    def __init__(self, ctx, entry, modified, it, node, fr):
        self.ctx, self.entry, self.it, self.node, self.fr = ctx, entry, it, node, fr
        self.cur = entry
        self.modified = modified
        self.ints = sorted(n for n in modified if isinstance(entry.get(n), (SInt, int))
                           and not isinstance(entry.get(n), bool))
        self.bytess = sorted(n for n in modified if isinstance(entry.get(n), (SBytes, bytes)))
        self.fixed_ints = sorted(n for n in entry if n not in modified and isinstance(entry[n], (SInt, int))
                                 and not isinstance(entry[n], bool))
        self.fixed_bytes = sorted(n for n in entry if n not in modified and isinstance(entry[n], (SBytes, bytes)))

    def e(self, n):
        """entry value as z3/int"""
        return bound(zi(self.entry[n]))

    def c(self, n):
        v = self.cur.get(n)
        return bound(zi(v)) if isinstance(v, (SInt, SBool, int)) else None

    def eb(self, n):
        return self.entry[n]

    def cb(self, n):
        return self.cur[n]


def loop_key(fr, node):
    return (fr.globals.get('__name__'), node.lineno, node.col_offset)


def wants_cut(it, node, fr):
    return loop_key(fr, node) in it.ctx.run.cut_keys


def visible_locals(fr):
    return dict(fr.locals)


def snapshot_lists(fr):
    out = []
    for n, v in fr.locals.items():
        if isinstance(v, (list, dict, set)):
            out.append((n, v, repr_shallow(v)))
        elif cls_in_repo(type(v)) and not isinstance(v, type):
            for a, x in getattr(v, '__dict__', {}).items():
                if isinstance(x, (list, dict, set)):
                    out.append((n + '.' + a, x, repr_shallow(x)))
    return out


def repr_shallow(v):
    if isinstance(v, dict):
        return [(k, id(x)) for k, x in v.items()]
    if isinstance(v, set):
        return len(v)
    return [id(x) for x in v]


class WriteWatch(object):
    def __init__(self, fr):
        self.objs = {}
        for n, v in fr.locals.items():
            if cls_in_repo(type(v)) and not isinstance(v, type):
                self.add(n, v, 0)
        self.writes = []

    def add(self, path, v, d):
        if id(v) in self.objs or d > 4:
            return
        self.objs[id(v)] = (path, v)
        for a, x in getattr(v, '__dict__', {}).items():
            if cls_in_repo(type(x)) and not isinstance(x, type):
                self.add(path + '.' + a, x, d + 1)

    def __call__(self, obj, name):
        if id(obj) in self.objs:
            self.writes.append((self.objs[id(obj)][0], name))


def havoc_value(it, name, v):
    c = it.ctx
    if isinstance(v, (SBool, bool)):
        return c.fresh_bool('h_' + name)
    if isinstance(v, (SInt, int)):
        return c.fresh_int('h_' + name)
    if isinstance(v, (SBytes, bytes)):
        return c.fresh_bytes('h_' + name)
    if hasattr(type(v), 'pyvc_havoc'):
        return v.pyvc_havoc(it, name)
    return None


def is_temp(name, node):
    """the body assigns the name before reading it on every iteration (straight-line prefix check)"""
    for s in node.body:
        if isinstance(s, ast.Assign):
            reads = {x.id for x in ast.walk(s.value) if isinstance(x, ast.Name)}
            if name in reads:
                return False
            for t in s.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                        return True
        reads = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        if name in reads:
            return False
    return False


class Cut(object):
    def __init__(self, it, node, fr, extra=None):
        self.it, self.node, self.fr = it, node, fr
        self.key = loop_key(fr, node)
        run = it.ctx.run
        self.state = run.loops.setdefault(self.key, LoopState())
        self.label = '%s:%d' % (fr.qualname, node.lineno)
        stmts = list(node.body)
        if isinstance(node, ast.While):
            stmts = [ast.Expr(node.test)] + stmts
        mod = assigned_names(stmts)
        if isinstance(node, ast.For):
            mod -= assigned_names([ast.Assign([node.target], ast.Constant(0))])
        self.modified = set(n for n in mod if n in fr.locals)
        if extra:
            self.modified |= set(extra)

    def setup(self, extra_vals=None):
        it, fr = self.it, self.fr
        c = it.ctx
        entry = dict(fr.locals)
        if extra_vals:
            entry.update(extra_vals)
        self.env = env = LoopEnv(c, entry, self.modified, it, self.node, fr)
        cands, variants = [], []
        for t in it.loop_rules:
            a, b = t(env)
            cands.extend(a)
            variants.extend(b)
        self.cands = [(k, f) for k, f in cands if k not in self.state.dropped]
        self.variants = [(k, f) for k, f in variants if k not in self.state.dropped_variants]
        # initiation
        self.check_all('init')
        # havoc
        for n in sorted(self.modified):
            if extra_vals and n in extra_vals:
                continue
            v = fr.locals[n]
            h = havoc_value(it, n, v)
            if h is None:
                if is_temp(n, self.node):
                    del fr.locals[n]
                    continue
                raise Unsupported('loop %s modifies %s of kind %s' % (self.label, n, type(v).__name__))
            fr.locals[n] = h
        env.cur = dict(fr.locals)
        c.loop_cut = True
        c.notes.add('loop %s cut with invariants' % self.label)

    def assume(self, extra_cur=None):
        c = self.it.ctx
        if extra_cur:
            self.env.cur.update(extra_cur)
        for k, f in self.cands:
            z = f(self.env)
            if z is not None:
                c.assume(z)
        self.var_before = []
        for k, f in self.variants:
            self.var_before.append((k, f, f(self.env)))
        c.run.loop_inv[self.label] = [k for k, _ in self.cands]

    def check_all(self, phase):
        c = self.it.ctx
        bad = []
        for k, f in self.cands:
            try:
                z = f(self.env)
            except Unsupported:
                z = False
            if z is None:
                continue
            ok = c.implied(z) if not isinstance(z, bool) else z
            if not ok and not isinstance(z, bool):
                r, _, _ = c.hard_check(z3.Not(zb(z)), c.run.houdini_timeout_ms)
                ok = r == z3.unsat
            if not ok:
                bad.append(k)
        if bad:
            self.state.dropped.update(bad)
            raise Restart('dropped %r' % (bad,))
        for k, f in self.cands:
            c.obligs.append(Obligation('%s invariant %s [%s]' % (self.label, phase, k), 'proved',
                                       path=tuple(c.decisions)))

    def back_edge(self, extra_cur=None):
        it, fr = self.it, self.fr
        c = it.ctx
        env = self.env
        env.cur = dict(fr.locals)
        if extra_cur:
            env.cur.update(extra_cur)
        self.check_all('preserved')
        bad = []
        for k, f, before in self.var_before:
            after = f(env)
            if before is None or after is None or not c.implied(z3.And(before >= 0, after < before)):
                bad.append(k)
        if bad:
            self.state.dropped_variants.update(bad)
            raise Restart('variants %r' % (bad,))
        if c.run.unit.termination and isinstance(self.node, ast.While):
            c.obligs.append(Obligation('%s terminates' % self.label, 'proved' if self.var_before else 'unknown',
                                       'no decreasing measure found among the templates',
                                       path=tuple(c.decisions)))
        raise PathEnd('back edge of %s' % self.label)


def run_body(it, cut, node, fr):
    watch = WriteWatch(fr)
    snap = snapshot_lists(fr)
    old = getattr(it, 'write_watch', ())
    it.write_watch = tuple(old) + (watch,)
    try:
        r = it.exec_block(node.body, fr)
    finally:
        it.write_watch = old
    if r is None or r[0] == 'continue':
        if watch.writes:
            raise Unsupported('loop %s writes attribute %s' % (cut.label, watch.writes[0]))
        for n, v, s in snap:
            if repr_shallow(v) != s:
                raise Unsupported('loop %s mutates container %s' % (cut.label, n))
    return r


def cut_while(it, node, fr):
    cut = Cut(it, node, fr)
    cut.setup()
    cut.assume()
    if not it.truth(it.eval(node.test, fr)):
        return it.exec_block(node.orelse, fr) if node.orelse else None
    r = run_body(it, cut, node, fr)
    if r is not None:
        if r[0] == 'break':
            return None
        if r[0] == 'return':
            return r
    cut.back_edge()


def cut_for(it, node, fr, seq):
    n = simp(seq.length)
    if isinstance(n, int):
        for i in range(n):
            it.assign(node.target, seq.item(i), fr)
            r = it.exec_block(node.body, fr)
            if r is not None:
                if r[0] == 'break':
                    return None
                if r[0] == 'return':
                    return r
        return it.exec_block(node.orelse, fr) if node.orelse else None
    # a few short cases are cheaper to unroll when the length is known to be small
    hid = '$i'
    cut = Cut(it, node, fr, extra=[hid])
    cut.setup({hid: 0})
    c = it.ctx
    i = c.fresh_z('h_idx')
    c.fact(z3.And(i >= 0, i <= bound(n)))
    cut.env.cur = dict(fr.locals)
    cut.assume({hid: SInt(i)})
    if not c.branch(i < bound(n)):
        c.fact(i == bound(n))
        return it.exec_block(node.orelse, fr) if node.orelse else None
    it.assign(node.target, seq.item(i), fr)
    r = run_body(it, cut, node, fr)
    if r is not None:
        if r[0] == 'break':
            return None
        if r[0] == 'return':
            return r
    cut.back_edge({hid: mkint(i + 1)})


def try_map_comp(it, e, fr):
    return None
