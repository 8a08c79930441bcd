"""Path context: path condition, branching by re-execution, obligations, theory terms."""
import subprocess
import tempfile
import os
import time
import z3

from .values import *  # noqa
from .values import simp

ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())
I, B = z3.IntSort(), z3.BoolSort()

# --- spec functions over byte views -------------------------------------------------------------
U256 = z3.Function('U256', ARR, I, I, I)     # unsigned big-endian value of n bytes
V128 = z3.Function('V128', ARR, I, I, I)     # base-128 value of the low 7 bits of n bytes
P2 = z3.Function('P2', I, I)                 # 2**n, n >= 0
P256 = z3.Function('P256', I, I)             # 256**n
P128 = z3.Function('P128', I, I)             # 128**n
BL = z3.Function('BL', I, I)                 # int.bit_length
I2B = z3.Function('I2B', I, I, ARR)          # int.to_bytes(v mod 256**n, n): array of n bytes


class PathEnd(EngineSignal):
    """this path is finished (infeasible, or cut at a loop back edge)"""

    def __init__(self, why):
        self.why = why


class Restart(EngineSignal):
    """loop invariant candidates were dropped; explore the unit again"""


class Budget(EngineSignal):
    pass


def bound(i):
    return z3.IntVal(i) if isinstance(i, int) else i


class Obligation(object):
    __slots__ = ('name', 'status', 'detail', 'inputs', 'backend', 'time', 'path')

    def __init__(self, name, status, detail=None, inputs=None, backend='z3', time=0.0, path=()):
        self.name, self.status, self.detail = name, status, detail
        self.inputs, self.backend, self.time, self.path = inputs, backend, time, path


STATS = dict(queries=0, time=0.0, unknown=0)


class Ctx(object):
    def __init__(self, run, prefix):
        self.run = run                  # UnitRun
        self.prefix = prefix
        self.decisions = []
        self.pending = []               # alternative prefixes discovered on this path
        self.solver = z3.Solver()
        self.solver.set('timeout', run.branch_timeout_ms)
        self.counter = {}
        self.inputs = {}                # name -> symbolic value (for models)
        self.facts_seen = set()
        self.obligs = []
        self.covers = set()
        self.incomplete = []
        self.quiet = 0
        self.p2_terms = {}
        self.notes = set()
        self.loop_cut = False
        self.used_contracts = set()
        self.const_cache = {}

    # --- fresh symbols --------------------------------------------------------------------------
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n) if n else base

    def fresh_z(self, base):
        return z3.Int(self.name(base))

    def fresh_int(self, base, lo=None, hi=None):
        z = self.fresh_z(base)
        if lo is not None:
            self.fact(z >= lo)
        if hi is not None:
            self.fact(z <= hi)
        return SInt(z)

    def fresh_bool(self, base):
        return SBool(z3.Bool(self.name(base)))

    def fresh_bytes(self, base, lo=0, hi=None, n=None):
        nm = self.name(base)
        arr = z3.Const(nm + '$arr', ARR)
        if n is None:
            ln = z3.Int(nm + '$len')
            self.fact(ln >= lo)
            if hi is not None:
                self.fact(ln <= hi)
        else:
            ln = n
        return SBytes([View(arr, 0, ln)]) if not (isinstance(ln, int) and ln == 0) else b''

    # --- inputs ----------------------------------------------------------------------------------
    def input(self, name, v):
        self.inputs[name] = v
        return v

    def in_int(self, name, lo=None, hi=None):
        return self.input(name, self.fresh_int(name, lo, hi))

    def in_bool(self, name):
        return self.input(name, self.fresh_bool(name))

    def in_bytes(self, name, lo=0, hi=None, n=None):
        return self.input(name, self.fresh_bytes(name, lo, hi, n))

    # --- solver ----------------------------------------------------------------------------------
    def check(self, *assump, **kw):
        self.run.tick()
        t = time.time()
        self.solver.push()
        try:
            for a in assump:
                self.solver.add(a)
            r = self.solver.check()
        finally:
            self.solver.pop()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        return r

    def fact(self, z):
        if isinstance(z, bool):
            if not z:
                raise PathEnd('contradictory fact')
            return
        key = z.get_id()
        if (key, ) in self.facts_seen:
            return
        self.facts_seen.add((key, ))
        self._keep = getattr(self, '_keep', [])
        self._keep.append(z)
        self.solver.add(z)

    def assume(self, z):
        z = simp(zb(z))
        if z is True:
            return
        if z is False:
            raise PathEnd('assumption false')
        self.fact(z)

    def assume_feasible(self, z):
        self.assume(z)
        if len(self.decisions) >= len(self.prefix) and self.check() == z3.unsat:
            raise PathEnd('infeasible')

    def implied(self, z):
        z = simp(zb(z))
        if isinstance(z, bool):
            return z
        return self.check(z3.Not(z)) == z3.unsat

    def branch(self, z):
        """decide a condition on this path; forks when both outcomes are feasible"""
        z = simp(zb(z))
        if isinstance(z, bool):
            return z
        k = len(self.decisions)
        if k < len(self.prefix):
            d = self.prefix[k]
            self.decisions.append(d)
            self.fact(z if d else z3.Not(z))
            return d
        rt = self.check(z)
        if rt == z3.unsat:
            self.decisions.append(False)
            self.fact(z3.Not(z))
            return False
        rf = self.check(z3.Not(z))
        if rf == z3.unsat:
            self.decisions.append(True)
            self.fact(z)
            return True
        if rt == z3.unknown and rf == z3.unknown:
            self.notes.add('unknown branch feasibility treated as feasible')
        self.pending.append(tuple(self.decisions) + (False,))
        self.decisions.append(True)
        self.fact(z)
        return True

    def choose(self, n, label='choice'):
        """nondeterministic choice 0..n-1 (all explored)"""
        for i in range(n - 1):
            k = len(self.decisions)
            if k < len(self.prefix):
                d = self.prefix[k]
                self.decisions.append(d)
                if d:
                    return i
            else:
                self.pending.append(tuple(self.decisions) + (False,))
                self.decisions.append(True)
                return i
        return n - 1

    def concretize(self, z, values):
        """fork an integer over an explicit finite list of values (must be exhaustive on the path)"""
        z = simp(zi(z))
        if isinstance(z, int):
            return z
        for v in values[:-1]:
            if self.branch(z == v):
                return v
        v = values[-1]
        if self.branch(z == v):
            return v
        raise PathEnd('concretize: value outside the list')

    # --- obligations -----------------------------------------------------------------------------
    def prove(self, name, z, timeout_ms=None):
        """discharge an obligation under the current path condition"""
        z = simp(zb(z))
        t0 = time.time()
        backend = 'z3'
        detail = None
        if z is True:
            st = 'proved'
        else:
            if z is False:
                r = self.check()
                neg = z3.BoolVal(True)
            else:
                neg = z3.Not(z)
                r = self.check(neg)
            if r == z3.unknown:
                r, backend, detail = self.hard_check(neg, timeout_ms)
            st = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
        if st != 'proved':
            inputs = None
            if st == 'refuted':
                try:
                    inputs, detail = self.model_inputs(neg)
                except EngineSignal:
                    raise
                except Exception as e:
                    detail = 'no model: %r' % (e,)
        else:
            inputs = None
        self.obligs.append(Obligation(name, st, detail, inputs, backend, time.time() - t0,
                                      tuple(self.decisions)))
        if st != 'proved' and not isinstance(z, bool):
            self.fact(z)
        elif z is False and st != 'proved':
            raise PathEnd('failed obligation')
        return st == 'proved'

    def hard_check(self, neg, timeout_ms=None):
        s = z3.Solver()
        s.set('timeout', timeout_ms or self.run.prove_timeout_ms)
        s.add(self.solver.assertions())
        s.add(neg)
        t = time.time()
        r = s.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        if r != z3.unknown:
            return r, 'z3', None
        r2 = cvc5_check(s, (timeout_ms or self.run.prove_timeout_ms))
        if r2 is not None:
            return r2, 'cvc5', None
        STATS['unknown'] += 1
        return z3.unknown, 'z3+cvc5', s.reason_unknown()

    def model_inputs(self, neg=None):
        s = z3.Solver()
        s.set('timeout', self.run.prove_timeout_ms)
        s.add(self.solver.assertions())
        if neg is not None:
            s.add(neg)
        # prefer small models
        small = []
        for v in self.inputs.values():
            for t in size_terms(v):
                small.append(t <= 300)
        r = s.check(*small) if small else s.check()
        if r != z3.sat:
            r = s.check()
        if r != z3.sat:
            return None, 'model query %s' % r
        m = s.model()
        return dict((k, concretise(m, v)) for k, v in self.inputs.items()), None

    def cover(self, name):
        self.covers.add(name)

    # --- theory helpers --------------------------------------------------------------------------
    def byte(self, arr, idx):
        z = z3.Select(arr, bound(idx))
        self.fact(z3.And(z >= 0, z <= 255))
        return z

    def p2(self, n):
        """2**n for n >= 0, with the facts relating it to every other power on the path"""
        n = simp(n)
        if isinstance(n, int):
            return 1 << n
        base, k = split_const(n)
        if k != 0:
            # 2**(base+k): anchored at the smallest offset seen for this base
            pass
        t = P2(n)
        key = n.get_id()
        if key not in self.p2_terms:
            self.fact(t >= 1)
            self.fact(t > n)
            for m, tm in list(self.p2_terms.values()):
                d = simp(n - m)
                if isinstance(d, int):
                    if d >= 0:
                        self.fact(t == tm * (1 << d))
                    else:
                        self.fact(tm == t * (1 << -d))
                else:
                    self.fact(z3.Implies(n <= m - 1, 2 * t <= tm))
                    self.fact(z3.Implies(m <= n - 1, 2 * tm <= t))
                    self.fact(z3.Implies(m == n, tm == t))
            for k in (0, 7, 8, 16, 24, 32, 40, 48, 56, 64, 1024):
                self.fact(z3.And(z3.Implies(n >= k, t >= 1 << k), z3.Implies(n <= k, t <= 1 << k)))
            self.fact(z3.Implies(n >= 1, t % 2 == 0))
            self.fact(z3.Implies(n >= 8, t % 256 == 0))
            self.p2_terms[key] = (n, t)
        return t

    def p256(self, n):
        n = simp(n)
        if isinstance(n, int):
            return 256 ** n
        return self.p2(simp(8 * n))

    def bit_length(self, v):
        v = simp(v)
        if isinstance(v, int):
            return v.bit_length()
        b = BL(v)
        av = z3.If(v >= 0, v, -v)
        self.fact(b >= 0)
        self.fact((b == 0) == (v == 0))
        hi = self.p2(b)
        lo = self.p2(simp(b - 1))
        self.fact(z3.Implies(v != 0, z3.And(lo <= av, av < hi, hi == 2 * lo)))
        return b

    def const_of(self, n, limit=64):
        """n itself, or the constant the path condition forces it to be"""
        n = simp(n)
        if isinstance(n, int):
            return n
        key = n.get_id()
        hit = self.const_cache.get(key)
        if hit is not None:
            return hit[1]
        self.solver.push()
        try:
            self.solver.add(n >= 0, n <= limit)
            r = self.solver.check()
            STATS['queries'] += 1
            v = self.solver.model().eval(n, model_completion=True).as_long() if r == z3.sat else None
        finally:
            self.solver.pop()
        if v is not None and self.check(n != v) == z3.unsat:
            self.const_cache[key] = (n, v)
            return v
        return n

    # value of a byte rope, unsigned big endian
    def u256_view(self, arr, off, n):
        n, off = self.const_of(n), simp(off)
        src = i2b_source(arr)
        whole = src is not None and isinstance(off, int) and off == 0 and (
            simp(self.const_of(src[1]) - n) == 0 if isinstance(n, int) or simp(src[1] - n) == 0 else False)
        if isinstance(n, int):
            if n <= 16:
                t = 0
                for i in range(n):
                    t = t * 256 + self.byte(arr, addz(off, i))
                t = simp(t)
                if whole:
                    self.fact(bound(t) == src[0])
                return t
        if whole:
            # value of the whole int.to_bytes output
            v, w = src
            t = U256(arr, bound(off), bound(n))
            self.fact(t == v)
            return t
        t = U256(arr, bound(off), bound(n))
        p = self.p256(n)
        self.fact(z3.And(t >= 0, t < p))
        self.fact(z3.Implies(n == 0, t == 0))
        # leading byte decides the top: t in [a0*256^(n-1), (a0+1)*256^(n-1))
        if not isinstance(n, int):
            a0 = self.byte(arr, off)
            q = self.p256(simp(n - 1))
            self.fact(z3.Implies(n >= 1, z3.And(p == 256 * q)))
            for k in (0, 1, 127, 128, 255):
                self.fact(z3.Implies(z3.And(n >= 1, a0 >= k), t >= k * q))
                self.fact(z3.Implies(z3.And(n >= 1, a0 <= k), t < (k + 1) * q))
        else:
            a0 = self.byte(arr, off)
            q = 256 ** (n - 1)
            self.fact(z3.And(t >= a0 * q, t < (a0 + 1) * q))
        return t

    def u256(self, v):
        t = 0
        for a in atoms_of(v):
            n = a.n()
            if isinstance(a, Lit):
                x = int.from_bytes(a.b, 'big')
            elif isinstance(a, Byt):
                x = a.z
            elif isinstance(a, View):
                x = self.u256_view(a.arr, a.off, a.len)
            elif isinstance(a, Rep):
                if isinstance(a.z, int) and a.z == 0:
                    x = 0
                elif isinstance(a.z, int) and a.z == 255:
                    x = simp(self.p256(a.cnt) - 1)
                else:
                    raise Unsupported('value of repeated byte')
            if isinstance(t, int) and t == 0:
                t = x
            else:
                t = simp(t * self.p256(n) + x)
        return t

    def to_bytes(self, v, n):
        """int.to_bytes for 0 <= v < 256**n (caller established the range)"""
        v, n = simp(v), simp(n)
        if isinstance(v, int) and isinstance(n, int):
            return v.to_bytes(n, 'big')
        if isinstance(n, int) and n <= 8:
            return mkbytes([Byt(simp((v / (256 ** (n - 1 - i))) % 256 if i < n - 1 else v % 256)) for i in range(n)])
        if isinstance(v, int) and v == 0:
            return mkbytes([Rep(0, n)])
        arr = I2B(bound(v), bound(n))
        t = U256(arr, z3.IntVal(0), bound(n))
        self.fact(t == v)
        r = SBytes([View(arr, 0, n)])
        # leading byte facts
        a0 = self.byte(arr, 0)
        q = self.p256(simp(n - 1))
        if not isinstance(n, int):
            p = self.p256(n)
            self.fact(z3.Implies(n >= 1, p == 256 * q))
        for k in (0, 1, 127, 128, 255):
            self.fact(z3.Implies(n >= 1, z3.And(z3.Implies(a0 >= k, v >= k * q),
                                              z3.Implies(a0 <= k, v < (k + 1) * q))))
        return r


def i2b_source(arr):
    if z3.is_app(arr) and arr.decl().name() == 'I2B':
        return arr.arg(0), arr.arg(1)
    return None


def split_const(n):
    if z3.is_add(n):
        k = 0
        for c in n.children():
            if z3.is_int_value(c):
                k += c.as_long()
        return n, k
    return n, 0


def zb(v):
    if isinstance(v, SBool):
        return v.z
    return v


def size_terms(v):
    if isinstance(v, SInt):
        return []
    if isinstance(v, SBytes):
        return [a.n() for a in v.atoms if not isinstance(a.n(), int)]
    if isinstance(v, (list, tuple)):
        return [t for x in v for t in size_terms(x)]
    return []


def _num(m, z):
    if isinstance(z, int):
        return z
    return m.eval(z, model_completion=True).as_long()


MAX_CONCRETE = 1 << 21


def concretise(m, v):
    """model value of a symbolic input, as a plain Python value"""
    if isinstance(v, SInt):
        return _num(m, v.z)
    if isinstance(v, SBool):
        return z3.is_true(m.eval(v.z, model_completion=True))
    if isinstance(v, SBytes):
        out = []
        for a in v.atoms:
            if isinstance(a, Lit):
                out.append(a.b)
            elif isinstance(a, Byt):
                out.append(bytes([_num(m, a.z) % 256]))
            elif isinstance(a, Rep):
                out.append(bytes([_num(m, a.z) % 256]) * min(_num(m, a.cnt), MAX_CONCRETE))
            else:
                off, n = _num(m, a.off), _num(m, a.len)
                if n > MAX_CONCRETE:
                    raise ValueError('model too large (%d bytes)' % n)
                arr = m.eval(a.arr, model_completion=True)
                if n > 4096:
                    head = [_num(m, z3.Select(arr, off + i)) % 256 for i in range(4096)]
                    out.append(bytes(head) + bytes(n - 4096))
                else:
                    out.append(bytes(_num(m, z3.Select(arr, off + i)) % 256 for i in range(n)))
        return b''.join(out)
    if isinstance(v, list):
        return [concretise(m, x) for x in v]
    if isinstance(v, tuple):
        return tuple(concretise(m, x) for x in v)
    if isinstance(v, dict):
        return dict((k, concretise(m, x)) for k, x in v.items())
    if is_sym(v):
        return repr(v)
    return v


def cvc5_check(s, timeout_ms):
    """second back end; returns z3.sat/unsat or None"""
    try:
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', ''))
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-ext-tplanes', f.name],
                               capture_output=True, text=True, timeout=timeout_ms / 1000.0 + 5)
            out = p.stdout.strip().split('\n')[0]
            return z3.unsat if out == 'unsat' else None
        finally:
            os.unlink(f.name)
    except Exception:
        return None
