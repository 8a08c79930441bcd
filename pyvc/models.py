"""Models of Python operators, builtins and library functions on symbolic values.

Everything here is trusted: it states what CPython's int, bytes, str, list, dict and the few library
functions used by the code do.  Concrete arguments never reach these models - they are evaluated by
CPython itself - and tools/crosscheck.py compares interpreter and CPython on concrete inputs.
"""
import ast
import builtins
import copy
import io
import math
import operator
import re
import types
import z3

from .values import *  # noqa
from .values import simp, addz
from .solver import PathEnd, zb, bound, i2b_source
from . import interp as _i
from .interp import (PyRaise, BoundMethod, SymMethod, InterpFunction, SymIter, Generator, MISSING, is_concrete, pytype,
                     cls_in_repo)
from . import times

OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift,
       ast.RShift: operator.rshift, ast.BitOr: operator.or_, ast.BitAnd: operator.and_, ast.BitXor: operator.xor,
       ast.MatMult: operator.matmul}
CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
       ast.GtE: operator.ge}
REFLECT = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__', ast.Eq: '__eq__',
           ast.NotEq: '__ne__'}
BINDUNDER = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__')}


def Z_(v):
    return v.z if isinstance(v, Sym) else z3.BoolVal(v)


def numeric(v):
    return isinstance(v, (SInt, SBool, int))


class Models(object):
    def __init__(self):
        self.table = {}
        self.overrides = {}
        self.sym_methods = {}
        self.sym_attrs = {}
        self.container_ok = {
            list: {'append', 'extend', 'insert', 'pop', 'reverse', 'clear', 'copy', '__len__', '__iter__'},
            dict: {'get', 'keys', 'values', 'items', 'pop', 'setdefault', 'update', 'clear', 'copy', '__contains__'},
            set: {'add', 'clear', 'copy'},
            tuple: {'__len__'},
        }
        install(self)

    # ---- registry
    def lookup(self, it, f):
        try:
            return self.table.get(f)
        except TypeError:
            return None

    def override(self, qn):
        return self.overrides.get(qn)

    def class_write(self, it, cls, name):
        # class-level caches (_reverse_map, _field_map, ...) are idempotent; allow
        pass

    # ---- truth
    def str_truth(self, it, v):
        c = it.ctx
        conds = []
        for p in v.parts:
            if isinstance(p, str) and p:
                return True
            if isinstance(p, DecText):
                return True
            if isinstance(p, OpaqueText) and p.len is not None:
                conds.append(zi(p.len) > 0)
            else:
                raise Unsupported('truth of opaque text')
        return c.branch(z3.Or(*conds)) if conds else False

    def sym_truth(self, it, v):
        raise Unsupported('truth of %r' % (v,))

    # ---- integers
    def nonneg_lt_pow2(self, it, z, k):
        return it.ctx.implied(z3.And(z >= 0, z < (1 << k))) if not isinstance(z, int) else 0 <= z < (1 << k)

    def bitop(self, it, op, a, b):
        c = it.ctx
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        if op is ast.BitAnd and isinstance(b, int):
            if b >= 0 and (b & (b + 1)) == 0:                       # 2**k - 1
                return mkint(a % (b + 1)) if b else 0
            if b < 0 and ((~b) & (~b + 1)) == 0:                    # ~(2**k-1)
                m = (~b) + 1
                return mkint(a - a % m)
            if b > 0:
                # contiguous or sparse mask on a non-negative value
                terms = []
                for i in range(b.bit_length()):
                    if b >> i & 1:
                        terms.append(((a / (1 << i)) % 2) * (1 << i))
                return mkint(z3.Sum(*terms) if len(terms) > 1 else terms[0])
        if op is ast.BitOr or op is ast.BitXor:
            if isinstance(b, int) and b == 0:
                return mkint(a)
            for k in ((b.bit_length(),) if isinstance(b, int) and b > 0 else ()):
                # b sits below a
                if c.implied(a % (1 << k) == 0):
                    return mkint(a + b)
            if isinstance(b, int) and b > 0:
                low = (b & -b).bit_length() - 1
                if low and c.implied(z3.And(a >= 0, a < (1 << low))):
                    return mkint(a + b)
            if not isinstance(b, int) and not isinstance(a, int):
                for k in (1, 2, 3, 4, 5, 6, 7, 8, 16):
                    if c.implied(z3.And(b >= 0, b < (1 << k), a % (1 << k) == 0)):
                        return mkint(a + b)
                    if c.implied(z3.And(a >= 0, a < (1 << k), b % (1 << k) == 0)):
                        return mkint(a + b)
            r = self.shift_or(it, a, b)
            if r is not None:
                return r
        for k in (1, 8, 16):
            if c.implied(z3.And(a >= 0, a < (1 << k), bound(b) >= 0, bound(b) < (1 << k))):
                terms = []
                for i in range(k):
                    x, y = (a / (1 << i)) % 2, (bound(b) / (1 << i)) % 2
                    if op is ast.BitAnd:
                        t = z3.If(z3.And(x == 1, y == 1), 1, 0)
                    elif op is ast.BitOr:
                        t = z3.If(z3.Or(x == 1, y == 1), 1, 0)
                    else:
                        t = z3.If(x != y, 1, 0)
                    terms.append(t * (1 << i))
                return mkint(z3.Sum(*terms))
        r = self.mask_and(it, op, a, b)
        if r is not None:
            return r
        raise Unsupported('bit operation on unbounded integers: %s %s %s' % (a, op.__name__, b))

    def mask_and(self, it, op, a, b):
        """a & (2**n - 1) with symbolic n"""
        if op is not ast.BitAnd:
            return None
        for x, y in ((a, b), (b, a)):
            y1 = simp(bound(y) + 1)
            for n, t in list(it.ctx.p2_terms.values()):
                if not isinstance(y1, int) and it.ctx.implied(y1 == t):
                    return mkint(self.mod_p2(it, x, n))
        return None

    def mod_p2(self, it, x, n):
        """x mod 2**n, n symbolic >= 0"""
        c = it.ctx
        if isinstance(n, int):
            return simp(bound(x) % (1 << n))
        p = c.p2(n)
        q, r = self.divmod_pos(it, bound(x), p)
        return r

    def divmod_pos(self, it, x, d):
        """floor division by a positive divisor: fresh q, r with x == q*d + r, 0 <= r < d"""
        c = it.ctx
        key = ('divmod', z3.simplify(bound(x)).get_id(), z3.simplify(bound(d)).get_id())
        memo = c.__dict__.setdefault('divmemo', {})
        if key in memo:
            return memo[key][:2]
        q, r = c.fresh_z('q'), c.fresh_z('r')
        c.fact(z3.And(bound(x) == q * d + r, r >= 0, r < d))
        c.fact(z3.Implies(bound(x) >= 0, z3.And(q >= 0, q <= bound(x))))
        c.fact(z3.Implies(z3.And(bound(x) >= 0, bound(x) < d), z3.And(q == 0, r == bound(x))))
        c.fact(z3.Implies(bound(x) < 0, q < 0))
        memo[key] = (q, r, x, d)
        return q, r

    def shift_or(self, it, a, b):
        """(x << n) | y with 0 <= y < 2**n and symbolic n"""
        c = it.ctx
        shl = c.__dict__.get('shl_terms', {})
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                continue
            n = shl.get(x.get_id())
            if n is not None:
                if c.implied(z3.And(bound(y) >= 0, bound(y) < c.p2(n[1]))):
                    return mkint(x + y)
        return None

    def binop_int(self, it, op, a, b):
        c = it.ctx
        a, b = zi(a), zi(b)
        if op is ast.Add:
            return mkint(a + b)
        if op is ast.Sub:
            return mkint(a - b)
        if op is ast.Mult:
            return mkint(a * b)
        if op in (ast.FloorDiv, ast.Mod):
            if isinstance(b, int) and b == 0:
                raise PyRaise(ZeroDivisionError('integer division or modulo by zero'))
            if isinstance(b, int) and b > 0:
                return mkint(bound(a) / b if op is ast.FloorDiv else bound(a) % b)
            if not isinstance(b, int):
                if c.branch(b == 0):
                    raise PyRaise(ZeroDivisionError('integer division or modulo by zero'))
                if c.branch(b > 0):
                    q, r = self.divmod_pos(it, a, b)
                    return mkint(q if op is ast.FloorDiv else r)
            raise Unsupported('division by a negative symbolic value')
        if op is ast.Div:
            if isinstance(b, int) and b > 0:
                it.ctx.notes.add('true division of ints treated as exact (holds while |a| < 2**53)')
                return SReal(a, b)
            raise Unsupported('true division')
        if op is ast.LShift:
            if isinstance(b, int):
                if b < 0:
                    raise PyRaise(ValueError('negative shift count'))
                return mkint(a * (1 << b))
            if c.branch(b < 0):
                raise PyRaise(ValueError('negative shift count'))
            p = c.p2(b)
            if isinstance(a, int) and a == 1:
                return mkint(p)
            r = simp(a * p)
            if not isinstance(r, int):
                c.__dict__.setdefault('shl_terms', {})[r.get_id()] = (r, b)
            return mkint(r)
        if op is ast.RShift:
            if isinstance(b, int):
                if b < 0:
                    raise PyRaise(ValueError('negative shift count'))
                return mkint(bound(a) / (1 << b))
            if c.branch(b < 0):
                raise PyRaise(ValueError('negative shift count'))
            q, r = self.divmod_pos(it, a, c.p2(b))
            return mkint(q)
        if op is ast.Pow:
            if isinstance(a, int) and a == 2:
                if c.branch(bound(b) < 0):
                    raise Unsupported('negative power')
                return mkint(c.p2(b))
            if isinstance(b, int) and 0 <= b <= 4:
                t = 1
                for _ in range(b):
                    t = t * a
                return mkint(t)
            raise Unsupported('power')
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if isinstance(a, int) and isinstance(b, int):
                return OPS[op](a, b)
            return self.bitop(it, op, a, b)
        raise Unsupported('int op %s' % op.__name__)

    def binop(self, it, opn, a, b):
        op = type(opn)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if op is ast.Mod and isinstance(a, (str, bytes)):
                args = b if isinstance(b, tuple) else (b,)
                if all(is_concrete(x) for x in args):
                    return it.native(operator.mod, [a, b], {})
                return self.percent(it, a, args)
            if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
                if op is ast.Add and type(a) is type(b):
                    return a + b
                if op is ast.Mult:
                    return it.native(operator.mul, [a, b], {})
            for x, y, d in ((a, b, 0), (b, a, 1)):
                if cls_in_repo(type(x)) or hasattr(type(x), '_pyvc_type'):
                    names = BINDUNDER.get(op)
                    if hasattr(type(x), 'pyvc_binop'):
                        r = x.pyvc_binop(it, op, y, d)
                        if r is not MISSING:
                            return r
                    if names:
                        m = it.mro_lookup(type(x), names[d])
                        if isinstance(m, types.FunctionType):
                            r = it.call(BoundMethod(m, x), [y], {})
                            if r is not NotImplemented:
                                return r
            if is_concrete(a) and is_concrete(b):
                return it.native(OPS[op], [a, b], {})
            raise Unsupported('binary operation on %s, %s' % (type(a).__name__, type(b).__name__))
        if numeric(a) and numeric(b):
            return self.binop_int(it, op, a, b)
        ta, tb = pytype(a), pytype(b)
        if op is ast.Add and issubclass(ta, (bytes, bytearray)) and issubclass(tb, (bytes, bytearray)):
            return mkbytes(atoms_of(a) + atoms_of(b))
        if op is ast.Add and ta is str and tb is str:
            return self.str_concat(it, [a, b])
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if issubclass(pytype(x), bytes) and numeric(y):
                    return self.repeat_bytes(it, x, y)
                if isinstance(x, (list, tuple)) and isinstance(y, SInt):
                    return self.repeat_list(it, x, y)
                if pytype(x) is str and numeric(y):
                    return self.repeat_str(it, x, y)
        if op is ast.Mod and ta is str:
            return self.percent(it, a, b if isinstance(b, tuple) else (b,))
        if isinstance(a, SReal) or isinstance(b, SReal):
            return self.binop_real(it, op, a, b)
        h = getattr(self, 'binop_hook', None)
        if h:
            r = h(it, op, a, b)
            if r is not MISSING:
                return r
        for x, y, d in ((a, b, 0), (b, a, 1)):
            if hasattr(type(x), 'pyvc_binop'):
                r = x.pyvc_binop(it, op, y, d)
                if r is not MISSING:
                    return r
        if op is ast.Add and (issubclass(ta, bytes) != issubclass(tb, bytes)) or (ta in (int, str, bytes) and tb in (
                int, str, bytes) and ta is not tb and op in (ast.Add, ast.Sub)):
            raise PyRaise(TypeError('unsupported operand type(s)'))
        raise Unsupported('binary operation %s on %s, %s' % (op.__name__, ta.__name__, tb.__name__))

    def binop_real(self, it, op, a, b):
        raise Unsupported('float arithmetic')

    def repeat_bytes(self, it, x, y):
        if isinstance(y, int):
            return mkbytes(atoms_of(x) * max(0, y))
        c = it.ctx
        n = zi(y)
        if c.branch(n <= 0):
            return b''
        if isinstance(x, bytes) and len(x) == 1:
            return SBytes([Rep(x[0], n)])
        raise Unsupported('repeat bytes')

    def repeat_list(self, it, x, y):
        if isinstance(y, SInt):
            c = it.ctx
            if c.branch(y.z <= 0):
                return x * 0
            if c.implied(y.z <= 8):
                return x * c.concretize(y.z, list(range(1, 9)))
        raise Unsupported('list repeated a symbolic number of times')

    def repeat_str(self, it, x, y):
        if x == '0' and isinstance(y, SInt):
            c = it.ctx
            if c.branch(y.z <= 0):
                return ''
            if c.implied(y.z <= 8):
                return '0' * c.concretize(y.z, list(range(1, 9)))
            return SStr([BitText(0, y.z)])
        raise Unsupported('text repeated a symbolic number of times')

    # ---- text
    def str_concat(self, it, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out.extend(p.parts)
            elif isinstance(p, str):
                out.append(p)
            else:
                raise PyRaise(TypeError('can only concatenate str'))
        return mkstr(out)

    def format_value(self, it, x, spec='', conversion=-1):
        if is_concrete(x):
            if conversion == 114:
                x = repr(x)
            elif conversion == 115:
                x = str(x)
            return it.native(format, [x, spec], {})
        if isinstance(x, SStr) and isinstance(spec, str) and not spec:
            return x
        if isinstance(x, SInt) and isinstance(spec, str) and spec in ('', 'd'):
            return SStr([DecText(x.z)])
        if isinstance(x, SInt) and isinstance(spec, str) and spec[:1] == '0' and spec[-1:] == 'b' and spec[1:-1].isdigit():
            return self.format_bits(it, x, int(spec[1:-1]))
        if isinstance(x, SInt) and isinstance(spec, SStr) and len(spec.parts) == 3 and spec.parts[0] == '0' and \
                spec.parts[2] == 'b' and isinstance(spec.parts[1], DecText):
            return self.format_bits(it, x, mkint(spec.parts[1].z))
        if not isinstance(spec, str):
            raise Unsupported('format spec')
        return self.opaque_text(it, 'fmt')

    def simple_format(self, it, fmt, args, kwargs):
        """str.format with fields that carry no conversion and no format spec"""
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            out.append(lit)
            if field is None:
                continue
            if spec or conv:
                return None
            if field == '':
                x, auto = args[auto], auto + 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kwargs:
                x = kwargs[field]
            else:
                return None
            if not (is_concrete(x) or isinstance(x, (SInt, SStr))):
                return None
            out.append(self.format_value(it, x))
        return self.str_concat(it, out)

    def format_bits(self, it, x, width):
        """format(x, '0<width>b') of an integer"""
        c = it.ctx
        if c.branch(x.z < 0):
            raise Unsupported('binary text of a negative number')
        n = zi(width)
        if c.branch(bound(n) >= 1):
            if c.branch(x.z < bound(c.p2(simp(n)))):
                return mkstr([BitText(x.z, n)])
        n = c.bit_length(x.z)
        return mkstr([BitText(x.z, zi(n))]) if not c.branch(x.z == 0) else '0'

    def opaque_text(self, it, why):
        return SStr([OpaqueText(it.ctx.name('text_' + why))])

    def percent(self, it, a, args):
        """'%s' formatting; %s of text and %d of ints stay structured, anything else becomes opaque"""
        if not isinstance(a, str):
            return self.opaque_text(it, 'percent')
        out, pos, i = [], 0, 0
        if len(args) == 1 and isinstance(args[0], dict) and '%(' in a:
            return self.opaque_text(it, 'percent')
        for m in re.finditer(r'%([0 +-]?)(\d*)(?:\.\d+)?([sdrxXfi%])', a):
            out.append(a[pos:m.start()])
            pos = m.end()
            k = m.group(3)
            if k == '%':
                out.append('%')
                continue
            if i >= len(args):
                raise PyRaise(TypeError('not enough arguments for format string'))
            x = args[i]
            i += 1
            if is_concrete(x):
                out.append(it.native(operator.mod, [m.group(0), (x,)], {}))
            elif k == 's' and isinstance(x, SStr) and not m.group(2):
                out.append(x)
            elif k in 'sd' and isinstance(x, SInt) and (not m.group(2) or m.group(1) == '0'):
                out.append(SStr([DecText(x.z, int(m.group(2) or 0))]))
            elif k in 'dixX' and not issubclass(pytype(x), (int, float)):
                raise PyRaise(TypeError('%d format: a number is required'))
            else:
                out.append(self.opaque_text(it, 'percent'))
        out.append(a[pos:])
        if i < len(args):
            raise PyRaise(TypeError('not all arguments converted during string formatting'))
        return self.str_concat(it, out)

    # ---- comparison
    def bytes_eq(self, it, a, b):
        """SBool/bool: a == b for byte strings"""
        c = it.ctx
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
            return a == b
        hook = getattr(it, 'bytes_eq_hook', None)
        if hook is not None:
            r = hook(a, b)
            if r is not None:
                return r
        la, lb = blen(a), blen(b)
        conds = []
        d = simp(la - lb) if not (isinstance(la, int) and isinstance(lb, int)) else la - lb
        if isinstance(d, int):
            if d != 0:
                return False
        else:
            if not c.implied(la == lb):
                if c.implied(la != lb):
                    return False
                conds.append(la == lb)
        # align atoms under the assumption of equal lengths
        xs, ys = list(atoms_of(a)), list(atoms_of(b))
        assum = z3.And(*conds) if conds else None

        def known(z):
            z = simp(z)
            if isinstance(z, bool):
                return z
            if assum is not None:
                return c.implied(z3.Implies(assum, z))
            return c.implied(z)
        while xs and ys:
            x, y = xs[0], ys[0]
            nx, ny = x.n(), y.n()
            if len(xs) == 1 and len(ys) == 1 or known(bound(nx) == bound(ny)):
                conds.append(self.atom_eq(it, x, y))
                xs.pop(0)
                ys.pop(0)
            elif not isinstance(nx, int) and isinstance(y, Lit) or not isinstance(ny, int) and isinstance(x, Lit):
                conds.append(self.general_eq(it, xs, ys))
                xs = ys = []
            elif known(bound(nx) <= bound(ny)):
                y1, y2 = self.split_atom(y, nx)
                conds.append(self.atom_eq(it, x, y1))
                xs.pop(0)
                ys[0] = y2
            elif known(bound(ny) <= bound(nx)):
                x1, x2 = self.split_atom(x, ny)
                conds.append(self.atom_eq(it, x1, y))
                ys.pop(0)
                xs[0] = x2
            else:
                conds.append(self.general_eq(it, xs, ys))
                xs = ys = []
        for rest in (xs, ys):
            for x in rest:
                conds.append(bound(x.n()) == 0)
        conds = [z for z in conds if not (isinstance(z, bool) and z)]
        if any(isinstance(z, bool) and not z for z in conds):
            return False
        if not conds:
            return True
        return mkbool(z3.And(*conds))

    def split_atom(self, x, n):
        if isinstance(x, Lit):
            if not isinstance(n, int):
                raise Unsupported('split literal at symbolic offset')
            return Lit(x.b[:n]), Lit(x.b[n:])
        if isinstance(x, View):
            return View(x.arr, x.off, n), View(x.arr, addz(x.off, n), simp(x.len - n))
        if isinstance(x, Rep):
            return Rep(x.z, n), Rep(x.z, simp(x.cnt - n))
        raise Unsupported('split byte')

    def atom_at(self, it, x, i):
        if isinstance(x, Lit):
            if isinstance(i, int):
                return x.b[i]
            t = z3.IntVal(x.b[-1])
            for k in range(len(x.b) - 2, -1, -1):
                t = z3.If(i == k, z3.IntVal(x.b[k]), t)
            return t
        if isinstance(x, Byt) or isinstance(x, Rep):
            return x.z
        return it.ctx.byte(x.arr, addz(x.off, i))

    def atom_eq(self, it, x, y):
        nx = simp(x.n())
        ny = simp(y.n())
        n = nx if isinstance(nx, int) else ny
        if isinstance(nx, int) and isinstance(ny, int) and nx != ny:
            return False
        if isinstance(x, View) and isinstance(y, View) and x.arr.eq(y.arr):
            d = simp(bound(x.off) - bound(y.off))
            if isinstance(d, int) and d == 0:
                return True if simp(bound(nx) == bound(ny)) is True else bound(nx) == bound(ny)
        if isinstance(n, int) and n <= 64:
            cs = []
            for i in range(n):
                a, b = self.atom_at(it, x, i), self.atom_at(it, y, i)
                if isinstance(a, int) and isinstance(b, int):
                    if a != b:
                        return False
                    continue
                cs.append(bound(a) == bound(b))
            if not (isinstance(nx, int) and isinstance(ny, int)):
                cs.append(bound(nx) == bound(ny))
            return z3.And(*cs) if cs else True
        if isinstance(x, View) and isinstance(y, View):
            h = getattr(it.ctx, 'view_eq_hook', None)
            if h is not None:
                r = h(x, y)
                if r is not None:
                    return r
        k = z3.Int(it.ctx.name('k'))
        a, b = self._sel(x, k), self._sel(y, k)
        return z3.And(bound(nx) == bound(ny), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < bound(nx)), a == b)))

    def _sel(self, x, k):
        if isinstance(x, Lit):
            t = z3.IntVal(x.b[-1])
            for j in range(len(x.b) - 2, -1, -1):
                t = z3.If(k == j, z3.IntVal(x.b[j]), t)
            return t
        if isinstance(x, (Byt, Rep)):
            return bound(x.z)
        return z3.Select(x.arr, bound(x.off) + k)

    def sel(self, v, k):
        """byte k of v as a term, for any term k within v (no branching: k may be a bound variable)"""
        t, start, pos = None, 0, []
        for x in atoms_of(v):
            pos.append((start, x))
            start = addz(start, x.n())
        for s, x in reversed(pos):
            b = self._sel(x, simp(bound(k) - bound(s)))
            t = b if t is None else z3.If(bound(k) < bound(addz(s, x.n())), b, t)
        return z3.IntVal(-1) if t is None else t

    def general_eq(self, it, xs, ys):
        k = z3.Int(it.ctx.name('k'))

        def at(atoms):
            t = z3.IntVal(-1)
            start = 0
            pos = []
            for x in atoms:
                pos.append((start, x))
                start = addz(start, x.n())
            for s, x in reversed(pos):
                t = z3.If(k >= bound(s), self._sel(x, simp(k - s)), t) if t is None else z3.If(
                    z3.And(k >= bound(s), k < bound(addz(s, x.n()))), self._sel(x, simp(k - s)), t)
            return t, start
        ta, na = at(xs)
        tb, nb = at(ys)
        m = na if isinstance(na, int) else nb
        if isinstance(m, int) and m <= 64:
            return z3.And([bound(na) == bound(nb)] +
                          [z3.substitute(bound(ta) == bound(tb), (k, z3.IntVal(i))) for i in range(m)])
        return z3.And(bound(na) == bound(nb),
                      z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < bound(na)), ta == tb)))

    def eq(self, it, a, b):
        """value of a == b (bool or SBool)"""
        if a is b and not isinstance(a, (SReal,)):
            if not (cls_in_repo(type(a)) and not isinstance(a, type)):
                return True
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if isinstance(a, list) != isinstance(b, list):
                    return False
                if len(a) != len(b):
                    return False
                res = True
                for x, y in zip(a, b):
                    r = self.eq(it, x, y)
                    if r is False:
                        return False
                    if r is not True:
                        if not it.truth(r):
                            return False
                return res
            if isinstance(a, dict) and isinstance(b, dict) and not (is_concrete(a) and is_concrete(b)):
                if set(a.keys()) != set(b.keys()):
                    return False
                for k in a:
                    if not it.truth(self.eq(it, a[k], b[k])):
                        return False
                return True
            if isinstance(a, type) or isinstance(b, type) or a is None or b is None:
                if (a is None or isinstance(a, type)) and (b is None or isinstance(b, type)):
                    return a is b
            for x, y in ((a, b), (b, a)):
                if hasattr(type(x), 'pyvc_eq'):
                    r = x.pyvc_eq(it, y)
                    if r is not NotImplemented:
                        return r
                if cls_in_repo(type(x)):
                    m = it.mro_lookup(type(x), '__eq__')
                    if isinstance(m, types.FunctionType):
                        r = it.call(BoundMethod(m, x), [y], {})
                        if r is not NotImplemented:
                            return r
            if cls_in_repo(type(a)) or cls_in_repo(type(b)) or hasattr(type(a), '_pyvc_type') \
                    or hasattr(type(b), '_pyvc_type'):
                return a is b
            if isinstance(a, (types.FunctionType, BoundMethod, InterpFunction)):
                return a is b
            if is_concrete(a) and is_concrete(b):
                return it.native(operator.eq, [a, b], {})
            raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))
        if numeric(a) and numeric(b):
            return mkbool(bound(zi(a)) == bound(zi(b)))
        ta, tb = pytype(a), pytype(b)
        if issubclass(ta, bytes) and issubclass(tb, bytes):
            return self.bytes_eq(it, a, b)
        if ta is str and tb is str:
            return self.str_eq(it, a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (SObj,)):
                r = self.obj_eq(it, x, y)
                if r is not MISSING:
                    return r
            if cls_in_repo(type(x)):
                m = it.mro_lookup(type(x), '__eq__')
                if isinstance(m, types.FunctionType):
                    r = it.call(BoundMethod(m, x), [y], {})
                    if r is not NotImplemented:
                        return r
        if isinstance(a, SReal) or isinstance(b, SReal):
            return self.cmp_real(it, ast.Eq, a, b)
        # different Python types that never compare equal
        prim = (int, bytes, str, list, tuple, dict, set, type(None), bool, type)
        if ta in prim and tb in prim and not (issubclass(ta, int) and issubclass(tb, int)) and ta is not tb:
            return False
        if cls_in_repo(ta) or cls_in_repo(tb):
            return False
        raise Unsupported('equality of %s and %s' % (ta.__name__, tb.__name__))

    def obj_eq(self, it, x, y):
        if isinstance(y, SObj):
            if x.key == y.key:
                return True
        return MISSING

    def str_eq(self, it, a, b):
        pa = a.parts if isinstance(a, SStr) else ((a,) if a else ())
        pb = b.parts if isinstance(b, SStr) else ((b,) if b else ())
        if len(pa) == len(pb):
            conds = []
            ok = True
            for x, y in zip(pa, pb):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        ok = False
                        break
                elif isinstance(x, OpaqueText) and isinstance(y, OpaqueText) and x.key == y.key:
                    continue
                elif isinstance(x, DecText) and isinstance(y, DecText) and x.pad == y.pad and all(
                        not isinstance(p, OpaqueText) and not (isinstance(p, str) and any(ch.isdigit() or ch == '-' for ch in p))
                        for p in pa) and all(isinstance(p, str) != isinstance(q, str) for p, q in zip(pa, pa[1:])):
                    # pieces delimited by text without digits: the split is unique
                    conds.append(bound(x.z) == bound(y.z))
                else:
                    ok = False
                    break
            if ok:
                return mkbool(z3.And(*conds)) if conds else True
        return self.text_eq_opaque(it, pa, pb)

    def text_eq_opaque(self, it, pa, pb):
        """equality of uninterpreted text: one boolean per unordered pair, decided consistently on a path"""
        k1 = repr(pa)
        k2 = repr(pb)
        if k2 < k1:
            k1, k2 = k2, k1
        # '' against text of known positive length
        for p in (pa, pb):
            if not p:
                q = pb if p is pa else pa
                conds = []
                for x in q:
                    if isinstance(x, (str, DecText)):
                        return False
                    if isinstance(x, BitText):
                        conds.append(bound(x.n) == 0)
                        continue
                    if x.len is None:
                        raise Unsupported('emptiness of opaque text')
                    conds.append(zi(x.len) == 0)
                return mkbool(z3.And(*conds))
        return SBool(z3.Bool('texteq(%s|%s)' % (k1, k2)))

    def cmp_real(self, it, op, a, b):
        def parts(v):
            return (v.num, v.den) if isinstance(v, SReal) else (zi(v), 1)
        (na, da), (nb, db) = parts(a), parts(b)
        x, y = bound(na) * db, bound(nb) * da
        return mkbool({ast.Eq: x == y, ast.NotEq: x != y, ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y,
                       ast.GtE: x >= y}[op])

    def compare(self, it, opn, a, b):
        op = type(opn)
        if op is ast.Is or op is ast.IsNot:
            if isinstance(a, SBool) or isinstance(b, SBool):
                if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, SBool) and isinstance(b, SBool)):
                    r = mkbool(bound_b(zb(a)) == bound_b(zb(b)))
                else:
                    r = False
            elif isinstance(a, Sym) or isinstance(b, Sym):
                if a is None or b is None or isinstance(a, type) or isinstance(b, type):
                    r = a is b
                elif a is b:
                    r = True
                elif pytype(a) is not pytype(b):
                    r = False
                elif pytype(a) in (bytes, str):
                    # whether equal strings are one object is open; one object has one value
                    e = self.eq(it, a, b)
                    if e is False:
                        r = False
                    else:
                        r = it.ctx.fresh_bool('same object')
                        it.ctx.fact(z3.Implies(r.z, Z_(e)))
                else:
                    raise Unsupported('identity of symbolic values')
            else:
                r = a is b
            return r if op is ast.Is else self.not_(r)
        if op is ast.In or op is ast.NotIn:
            r = self.contains(it, b, a)
            return r if op is ast.In else self.not_(r)
        if op is ast.Eq:
            return self.eq(it, a, b)
        if op is ast.NotEq:
            for x, y in ((a, b), (b, a)):
                if cls_in_repo(type(x)) and not isinstance(x, type):
                    m = it.mro_lookup(type(x), '__ne__')
                    if isinstance(m, types.FunctionType):
                        r = it.call(BoundMethod(m, x), [y], {})
                        if r is not NotImplemented:
                            return r
            return self.not_(self.eq(it, a, b))
        if numeric(a) and numeric(b) and (isinstance(a, Sym) or isinstance(b, Sym)):
            x, y = bound(zi(a)), bound(zi(b))
            return mkbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op])
        if isinstance(a, SReal) or isinstance(b, SReal):
            return self.cmp_real(it, op, a, b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (SBytes, bytes)) and isinstance(b, (SBytes, bytes)) and getattr(it, 'bytes_order', None):
                x, y = it.bytes_order(it, a), it.bytes_order(it, b)
                return mkbool({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op])
            for x, y, rf in ((a, b, False), (b, a, True)):
                if hasattr(type(x), 'pyvc_cmp'):
                    return x.pyvc_cmp(it, op, y, rf)
            raise self.order_error(a, b)
        for x, y, rf in ((a, b, False), (b, a, True)):
            if hasattr(type(x), 'pyvc_cmp'):
                r = x.pyvc_cmp(it, op, y, rf)
                if r is not MISSING:
                    return r
            if cls_in_repo(type(x)) and not isinstance(x, type):
                o2 = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[op] if rf else op
                m = it.mro_lookup(type(x), REFLECT[o2])
                if isinstance(m, types.FunctionType):
                    r = it.call(BoundMethod(m, x), [y], {})
                    if r is not NotImplemented:
                        return r
        if isinstance(a, (tuple, list)) and type(a) is type(b) and not (is_concrete(a) and is_concrete(b)):
            for x, y in zip(a, b):
                if it.truth(self.eq(it, x, y)):
                    continue
                strict = {ast.Lt: ast.Lt, ast.LtE: ast.Lt, ast.Gt: ast.Gt, ast.GtE: ast.Gt}[op]
                return self.compare(it, strict(), x, y)
            return CMP[op](len(a), len(b))
        if is_concrete(a) and is_concrete(b):
            return it.native(CMP[op], [a, b], {})
        raise Unsupported('comparison of %s and %s' % (type(a).__name__, type(b).__name__))

    def order_error(self, a, b):
        ta, tb = pytype(a), pytype(b)
        if ta in (bytes, str) and ta is tb:
            return Unsupported('ordering of symbolic %s' % ta.__name__)
        if (ta in (int, bytes, str, type(None)) and tb in (int, bytes, str, type(None))):
            return PyRaise(TypeError("'<' not supported between instances of '%s' and '%s'"
                                     % (ta.__name__, tb.__name__)))
        return Unsupported('ordering of %s and %s' % (ta.__name__, tb.__name__))

    def not_(self, r):
        if isinstance(r, SBool):
            return mkbool(z3.Not(r.z))
        return not r

    def contains(self, it, cont, x):
        if hasattr(type(cont), 'pyvc_contains'):
            return cont.pyvc_contains(it, x)
        if isinstance(cont, Sym):
            return self.sym_contains(it, cont, x)
        if cls_in_repo(type(cont)):
            m = it.mro_lookup(type(cont), '__contains__')
            if isinstance(m, types.FunctionType):
                return it.call(BoundMethod(m, cont), [x], {})
        if isinstance(x, SStr) and isinstance(cont, (dict, set, frozenset)):
            return self.text_in(it, cont, x)
        if isinstance(x, Sym) or not is_concrete(cont) or not is_concrete(x):
            if isinstance(cont, dict) and is_concrete(x):
                return it.native(operator.contains, [cont, x], {})
            if isinstance(cont, (list, tuple, set, frozenset, dict)):
                if numeric(x) and isinstance(x, Sym):
                    ks = [k for k in cont if numeric(k)]
                    if not ks:
                        return False
                    return mkbool(z3.Or(*[bound(zi(x)) == bound(zi(k)) for k in ks]))
                for k in cont:
                    if it.truth(self.eq(it, k, x)):
                        return True
                return False
            if isinstance(cont, range) and isinstance(x, SInt) and cont.step == 1:
                return mkbool(z3.And(x.z >= cont.start, x.z < cont.stop))
            raise Unsupported('membership')
        return it.native(operator.contains, [cont, x], {})

    def text_in(self, it, cont, x):
        for k in cont:
            if isinstance(k, (str, SStr)) and it.truth(self.eq(it, k, x)):
                return True
        return False

    def sym_contains(self, it, cont, x):
        if isinstance(cont, SBytes):
            n = cont.zlen()
            if isinstance(n, int) and n <= 32 and numeric(x):
                return mkbool(z3.Or(*[bound(self.byte_at(it, cont, i)) == bound(zi(x)) for i in range(n)]))
        raise Unsupported('membership in symbolic %s' % pytype(cont).__name__)

    # ---- subscripts
    def byte_at(self, it, v, i):
        """z3/int of byte i (0 <= i < len established)"""
        c = it.ctx
        start = 0
        atoms = atoms_of(v)
        for j, x in enumerate(atoms):
            end = addz(start, x.n())
            last = j == len(atoms) - 1
            if last or c.branch(bound(i) < bound(end)):
                return self.atom_at(it, x, simp(bound(i) - bound(start)) if not (
                    isinstance(i, int) and isinstance(start, int)) else i - start)
            start = end
        raise PathEnd('byte_at')

    def index(self, it, k, n):
        """normalise an index; raises IndexError"""
        c = it.ctx
        k = zi(k)
        if isinstance(k, int) and isinstance(n, int):
            if -n <= k < n:
                return k if k >= 0 else k + n
            raise PyRaise(IndexError('index out of range'))
        neg = k < 0 if isinstance(k, int) else c.branch(k < 0)
        if neg:
            k = addz(k, n)
            if not c.branch(bound(k) >= 0):
                raise PyRaise(IndexError('index out of range'))
            return k
        if not c.branch(bound(k) < bound(n)):
            raise PyRaise(IndexError('index out of range'))
        return k

    def slice_bound(self, it, k, n, default):
        c = it.ctx
        if k is None:
            return default
        k = zi(k)
        if isinstance(k, int) and isinstance(n, int):
            return slice(k, None).indices(n)[0]
        neg = k < 0 if isinstance(k, int) else c.branch(k < 0)
        if neg:
            k = addz(k, n)
            if not c.branch(bound(k) >= 0):
                return 0
            return k
        if isinstance(k, int) and k == 0:
            return 0
        if c.branch(bound(k) <= bound(n)):
            return k
        return n

    def cut(self, it, atoms, pos):
        c = it.ctx
        left, right = [], []
        start = 0
        atoms = list(atoms)
        if isinstance(pos, int) and pos == 0:
            return [], atoms
        for j, x in enumerate(atoms):
            end = addz(start, x.n())
            d = simp(bound(pos) - bound(start))
            if (isinstance(d, int) and d <= 0) or (not isinstance(d, int) and right):
                right.append(x)
                start = end
                continue
            e = simp(bound(end) - bound(pos))
            if isinstance(e, int) and e <= 0:
                left.append(x)
            elif c.branch(bound(pos) <= bound(start)):
                right.append(x)
            elif c.branch(bound(pos) >= bound(end)):
                left.append(x)
            else:
                if isinstance(x, Lit) and not isinstance(d, int):
                    d = it.ctx.concretize(d, list(range(1, len(x.b))))
                l, r = self.split_atom(x, d)
                left.append(l)
                right.append(r)
            start = end
        return left, right

    def slice_bytes(self, it, v, sl):
        if sl.step not in (None, 1):
            n = blen(v)
            if sl.step == -1 and sl.start is None and sl.stop is None and isinstance(n, int):
                return mkbytes([Byt(self.byte_at(it, v, i)) for i in range(n - 1, -1, -1)])
            raise Unsupported('slice step')
        n = blen(v)
        a = self.slice_bound(it, sl.start, n, 0)
        b = self.slice_bound(it, sl.stop, n, n)
        if not (isinstance(a, int) and isinstance(b, int) and a <= b):
            d = simp(bound(b) - bound(a))
            if isinstance(d, int):
                if d <= 0:
                    return b''
            elif not it.ctx.branch(bound(a) <= bound(b)):
                return b''
        elif a == b:
            return b''
        _, right = self.cut(it, atoms_of(v), a)
        dl = simp(bound(b) - bound(a))
        if isinstance(b, int) and isinstance(n, int) and b == n or (not isinstance(b, int) and b is n):
            return mkbytes(right)
        if simp(bound(b) == bound(n)) is True:
            return mkbytes(right)
        left, _ = self.cut(it, right, dl)
        return mkbytes(left)

    def getitem(self, it, o, k):
        if hasattr(type(o), 'pyvc_getitem'):
            return o.pyvc_getitem(it, k)
        if isinstance(o, (SBytes, bytes)) and (isinstance(o, SBytes) or not is_concrete(
                (k.start, k.stop, k.step) if isinstance(k, slice) else k)):
            if isinstance(k, slice):
                return self.slice_bytes(it, o, k)
            if not numeric(k):
                raise PyRaise(TypeError('byte indices must be integers or slices'))
            i = self.index(it, k, blen(o))
            return mkint(self.byte_at(it, o, i))
        if isinstance(o, Sym):
            return self.sym_getitem(it, o, k)
        if isinstance(o, type):
            return it.native(operator.getitem, [o, k], {})
        if cls_in_repo(type(o)):
            m = it.mro_lookup(type(o), '__getitem__')
            if isinstance(m, types.FunctionType):
                return it.call(BoundMethod(m, o), [k], {})
        if isinstance(o, dict):
            return self.dict_get(it, o, k, MISSING)
        if isinstance(o, (list, tuple)):
            if isinstance(k, SInt):
                i = self.index(it, k, len(o))
                i = it.ctx.concretize(i, list(range(len(o))))
                return o[i]
            if isinstance(k, slice):
                k = slice(*[self.concrete_index(it, x, len(o)) for x in (k.start, k.stop, k.step)])
            return it.native(operator.getitem, [o, k], {})
        if is_concrete(k) and (is_concrete(o) or isinstance(o, (list, tuple, dict))):
            return it.native(operator.getitem, [o, k], {})
        raise Unsupported('subscript of %s' % type(o).__name__)

    def concrete_index(self, it, x, n):
        if isinstance(x, SInt):
            if it.ctx.branch(x.z >= n):
                return n
            if it.ctx.branch(x.z < 0):
                if it.ctx.branch(x.z <= -n):
                    return 0
                return it.ctx.concretize(x.z, list(range(-n + 1, 0)))
            return it.ctx.concretize(x.z, list(range(n)))
        return x

    def sym_getitem(self, it, o, k):
        raise Unsupported('subscript of symbolic %s' % pytype(o).__name__)

    def dict_get(self, it, d, k, default):
        """d[k] / d.get(k, default); symbolic integer keys are case-split over the dictionary"""
        if isinstance(k, Sym) or not is_concrete(k):
            if isinstance(k, (SInt, SBool)):
                for kk in list(d.keys()):
                    if numeric(kk) and it.ctx.branch(bound(zi(k)) == bound(zi(kk))):
                        return d[kk]
            elif isinstance(k, (SBytes, SStr, tuple, SObj)):
                for kk in list(d.keys()):
                    if type(kk) is pytype(k) or isinstance(kk, Sym):
                        if it.truth(self.eq(it, kk, k)):
                            return d[kk]
            elif isinstance(k, Sym):
                raise Unsupported('dictionary key %r' % (k,))
            else:
                try:
                    if k in d:
                        return d[k]
                except TypeError as e:
                    raise PyRaise(e)
            if default is MISSING:
                raise PyRaise(KeyError('symbolic key'))
            return default
        try:
            if k in d:
                return d[k]
        except TypeError as e:
            raise PyRaise(e)
        if default is MISSING:
            raise PyRaise(KeyError(k))
        return default

    def setitem(self, it, o, k, v):
        if hasattr(type(o), 'pyvc_setitem'):
            return o.pyvc_setitem(it, k, v)
        if cls_in_repo(type(o)):
            m = it.mro_lookup(type(o), '__setitem__')
            if isinstance(m, types.FunctionType):
                return it.call(BoundMethod(m, o), [k, v], {})
        if isinstance(o, dict):
            if isinstance(k, Sym):
                return self.dict_set_sym(it, o, k, v)
            try:
                o[k] = v
            except TypeError as e:
                raise PyRaise(e)
            return
        if isinstance(o, list):
            if isinstance(k, SInt):
                i = self.index(it, k, len(o))
                k = it.ctx.concretize(i, list(range(len(o))))
            try:
                o[k] = v
            except (IndexError, TypeError) as e:
                raise PyRaise(e)
            return
        if isinstance(o, (tuple, str, bytes, Sym)):
            raise PyRaise(TypeError('object does not support item assignment'))
        raise Unsupported('item assignment on %s' % type(o).__name__)

    def dict_set_sym(self, it, o, k, v):
        raise Unsupported('symbolic dictionary key')

    def delitem(self, it, o, k):
        if cls_in_repo(type(o)):
            m = it.mro_lookup(type(o), '__delitem__')
            if isinstance(m, types.FunctionType):
                return it.call(BoundMethod(m, o), [k], {})
        if isinstance(o, list) and isinstance(k, SInt):
            i = self.index(it, k, len(o))
            k = it.ctx.concretize(i, list(range(len(o))))
        if isinstance(o, (list, dict)) and is_concrete(k):
            return it.native(operator.delitem, [o, k], {})
        raise Unsupported('del item')

    def make_set(self, it, items):
        if all(is_concrete(x) for x in items):
            return it.native(set, [items], {})
        return SymSet(items)

    # ---- iteration
    def to_iter(self, it, v):
        if isinstance(v, SymIter) or isinstance(v, Generator):
            return v
        if hasattr(type(v), 'pyvc_iter'):
            return v.pyvc_iter(it)
        if isinstance(v, SBytes):
            n = v.zlen()
            if isinstance(n, int):
                return [mkint(self.byte_at(it, v, i)) for i in range(n)]
            return SymIter(n, lambda i: mkint(self.byte_at(it, v, i)), 'bytes')
        if isinstance(v, Sym):
            r = self.sym_iter(it, v)
            if r is not MISSING:
                return r
            if numeric(v):
                raise PyRaise(TypeError("'int' object is not iterable"))
            raise Unsupported('iterate symbolic %s' % pytype(v).__name__)
        return v

    def sym_iter(self, it, v):
        return MISSING

    # ---- attributes and methods of symbolic values
    def sym_getattr(self, it, o, name):
        if isinstance(o, SObj):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__class__':
                return o.pyt
            f = self.sym_attrs.get((o.pyt, name))
            if f is not None:
                return f(it, o)
            return SymMethod(o, name)
        if name == '__class__':
            return pytype(o)
        if not hasattr(pytype(o), name):
            raise PyRaise(AttributeError("'%s' object has no attribute '%s'" % (pytype(o).__name__, name)))
        return SymMethod(o, name)

    def sym_call(self, it, o, name, args, kwargs):
        f = self.sym_methods.get((pytype(o), name))
        if f is None:
            raise Unsupported('method %s.%s on a symbolic value' % (pytype(o).__name__, name))
        return f(it, o, *args, **kwargs)

    def builtin_method(self, it, f, slf, args, kwargs):
        """methods of concrete containers with symbolic arguments or contents"""
        name = getattr(f, '__name__', '')
        if slf is None:
            # unbound: dict.get etc. - not used
            return MISSING
        if isinstance(slf, types.ModuleType):
            return MISSING
        t = type(slf)
        if isinstance(slf, dict) and name in ('get', 'pop', 'setdefault') and args and (
                isinstance(args[0], Sym) or isinstance(args[0], tuple) and not is_concrete(args[0])):
            if name == 'get':
                if getattr(it, 'raising', 0) and len(args) == 1 or (len(args) == 2 and isinstance(args[1], (str, Sym))):
                    # part of an error message: which text it is does not matter
                    if slf and all(isinstance(x, str) for x in slf.values()) and getattr(it, 'raising', 0):
                        return self.opaque_text(it, 'lookup')
                return self.dict_get(it, slf, args[0], args[1] if len(args) > 1 else None)
            raise Unsupported('dict.%s with a symbolic key' % name)
        for base, ok in self.container_ok.items():
            if isinstance(slf, base) and name in ok:
                if name in ('extend', 'update') and args:
                    if isinstance(slf, list):
                        slf.extend(it.iterate(args[0]))
                        return None
                    if isinstance(slf, set):
                        return MISSING
                if name == 'insert' and isinstance(args[0], Sym):
                    return MISSING
                if name == 'pop' and args and isinstance(args[0], Sym):
                    return MISSING
                if base is set and not is_concrete(args):
                    return MISSING
                return it.native(f, args, kwargs)
        if isinstance(slf, list) and name == 'sort' and (not is_concrete(slf) or not is_concrete(kwargs)):
            slf[:] = self.sorted_(it, slf, **kwargs)
            return None
        if isinstance(slf, list) and name in ('index', 'count', 'remove') and not (is_concrete(slf) and is_concrete(args)):
            idxs = [i for i, x in enumerate(list(slf)) if it.truth(self.eq(it, x, args[0]))]
            if name == 'count':
                return len(idxs)
            if not idxs:
                raise PyRaise(ValueError('not in list'))
            if name == 'index':
                return idxs[0]
            del slf[idxs[0]]
            return None
        if isinstance(slf, (bytes, str)) and name == 'join' and isinstance(args[0], OpaqueList):
            o = args[0]
            if o.tail or not isinstance(slf, str):
                raise Unsupported('join of an opaque list with a tail')
            return SStr([OpaqueText('join(%r,%s)' % (slf, o.key), None, ('join', slf, o))])
        if isinstance(slf, (bytes, str)) and name == 'join' and not isinstance(args[0], BitChars):
            items = list(it.iterate(args[0]))
            if not all(is_concrete(x) for x in items):
                return self.join(it, slf, items)
            return it.native(f, [items], {})
        if isinstance(slf, str) and name == 'join' and slf == '' and isinstance(args[0], BitChars):
            return mkstr([BitText(args[0].v, args[0].n)])
        if isinstance(slf, (str,)) and name == 'format':
            if not (is_concrete(args) and is_concrete(kwargs)):
                r = self.simple_format(it, slf, args, kwargs)
                if r is not None:
                    return r
                return self.opaque_text(it, 'format')
        if isinstance(slf, re.Pattern) and not is_concrete(args):
            return times.regex(it, slf, name, args)
        if isinstance(slf, (bytes, str)) and not is_concrete(args):
            m = self.sym_methods.get((type(slf), name))
            if m is not None:
                return m(it, slf, *args, **kwargs)
        if isinstance(slf, int) and not isinstance(slf, bool) and not is_concrete(args):
            m = self.sym_methods.get((int, name))
            if m is not None:
                return m(it, slf, *args, **kwargs)
        return MISSING

    def join(self, it, sep, items):
        out = []
        for i, x in enumerate(items):
            if pytype(x) is not type(sep):
                raise PyRaise(TypeError('sequence item %d: expected %s instance' % (i, type(sep).__name__)))
            if i and sep:
                out.append(sep)
            out.append(x)
        if isinstance(sep, str):
            return self.str_concat(it, out)
        atoms = ()
        for x in out:
            atoms += atoms_of(x)
        return mkbytes(atoms)

    def sorted_(self, it, items, key=None, reverse=False):
        """insertion sort by interpreted comparison: exact semantics of a stable sort on all paths"""
        items = list(it.iterate(items))
        ks = [it.call(key, [x], {}) if key is not None else x for x in items]
        if all(is_concrete(k) for k in ks):
            order = it.native(sorted, [range(len(items))], {'key': lambda i: ks[i], 'reverse': bool(reverse)})
            return [items[i] for i in order]
        out = []
        for i in range(len(items)):
            j = len(out)
            while j > 0 and it.truth(self.compare(it, ast.Gt() if reverse else ast.Lt(), ks[i], ks[out[j - 1]])):
                j -= 1
            out.insert(j, i)
        return [items[i] for i in out]


def bound_b(z):
    return z3.BoolVal(z) if isinstance(z, bool) else z


class SymSet(object):
    """a set with symbolic members, kept as a list; only iteration, len-free use and membership"""
    _pyvc_type = set

    def __init__(self, items):
        self.items = list(items)

    def pyvc_iter(self, it):
        return list(self.items)

    def pyvc_contains(self, it, x):
        for k in self.items:
            if it.truth(it.models.eq(it, k, x)):
                return True
        return False

    def pyvc_getattr(self, it, name):
        raise Unsupported('set.%s on symbolic set' % name)


class SymSeq(object):
    """list of symbolic length: item(i) for 0 <= i < n"""

    _pyvc_type = list

    def __init__(self, n, item, desc='sequence'):
        self.n, self.item, self.desc = n, item, desc

    def pyvc_len(self, it):
        return mkint(self.n)

    def pyvc_iter(self, it):
        return SymIter(self.n, self.item, self.desc)

    def sym_truth(self, it):
        return it.ctx.branch(bound(simp(self.n)) > 0)

    def pyvc_getitem(self, it, k):
        k = it.models.index(it, k, self.n)
        return self.item(simp(k))

    def pyvc_getattr(self, it, name):
        raise Unsupported('list.%s on %s' % (name, self.desc))


def bits_of(it, v):
    """a text of binary digits as one BitText"""
    val, n = 0, 0
    for p in v.parts:
        if isinstance(p, str):
            pv, pn = int(p, 2), len(p)
        else:
            pv, pn = p.v, p.n
        val = pv if isinstance(val, int) and val == 0 else simp(bound(val) * bound(it.ctx.p2(simp(pn))) + pv)
        n = addz(n, pn)
    return BitText(val, n)


class BitChars(object):
    """iterator over the characters of a BitText"""
    _pyvc_type = map

    def __init__(self, v, n):
        self.v, self.n = v, n

    def pyvc_iter(self, it):
        return SymIter(self.n, lambda i: Unsupported('one digit'), 'binary digits')


class BitSeq(object):
    """tuple of n bits denoting v in base 2, most significant first"""
    _pyvc_type = tuple

    def __init__(self, v, n):
        self.v, self.n = v, n

    def bit(self, it, k):
        return mkint((bound(self.v) / bound(it.ctx.p2(simp(self.n - 1 - k)))) % 2)

    def pyvc_len(self, it):
        return mkint(self.n)

    def sym_truth(self, it):
        return it.ctx.branch(bound(simp(self.n)) > 0)

    def pyvc_iter(self, it):
        n = simp(self.n)
        if isinstance(n, int):
            return [self.bit(it, k) for k in range(n)]
        return SymIter(n, lambda i: self.bit(it, i), 'bits')

    def pyvc_getitem(self, it, k):
        if not isinstance(k, (int, SInt)):
            raise Unsupported('slice of bits')
        k = it.models.index(it, k, self.n)
        return self.bit(it, simp(k))

    def pyvc_getattr(self, it, name):
        if name == '__class__':
            return tuple
        raise Unsupported('tuple.%s of bits' % name)


class OpaqueList(object):
    """non-empty list known only by name, followed by known items"""

    _pyvc_type = list

    def __init__(self, key, n, tail=()):
        self.key, self.n, self.tail = key, n, list(tail)

    def pyvc_len(self, it):
        return mkint(addz(self.n, len(self.tail)))

    def sym_truth(self, it):
        return True

    def pyvc_getattr(self, it, name):
        if name == 'append':
            return OLMethod(self, name)
        if name == 'extend':
            return OLMethod(self, name)
        raise Unsupported('list.%s on an opaque list' % name)

    def pyvc_iter(self, it):
        raise Unsupported('iteration over an opaque list')


class OLMethod(object):
    _pyvc_type = types.FunctionType

    def __init__(self, o, name):
        self.o, self.name = o, name

    def pyvc_call(self, it, args, kwargs):
        if self.name == 'append':
            self.o.tail.append(args[0])
        else:
            self.o.tail.extend(it.iterate(args[0]))


class PyBytesIO(object):
    """io.BytesIO for appending writes and reading back"""
    _pyvc_type = io.BytesIO

    def __init__(self, init=b''):
        self.buf = init
        self.pos = 0

    def pyvc_getattr(self, it, name):
        return BIOMethod(self, name)


class BIOMethod(object):
    _pyvc_type = types.BuiltinFunctionType

    def __init__(self, o, name):
        self.o, self.name = o, name

    def pyvc_call(self, it, args, kwargs):
        o = self.o
        if self.name == 'write':
            if o.pos != 'end' and not (isinstance(o.buf, bytes) and o.buf == b''):
                raise Unsupported('BytesIO.write at an offset')
            x = args[0]
            if not issubclass(pytype(x), bytes):
                raise PyRaise(TypeError('a bytes-like object is required'))
            o.buf = mkbytes(atoms_of(o.buf) + atoms_of(x))
            o.pos = 'end'
            return it.models.table[len](it, x)
        if self.name == 'getvalue':
            return o.buf
        raise Unsupported('BytesIO.%s' % self.name)


def install(M):
    T = M.table
    SM = M.sym_methods

    def model(*fs):
        def deco(g):
            for f in fs:
                T[f] = g
            return g
        return deco

    @model(len)
    def m_len(it, v):
        if isinstance(v, SBytes):
            return mkint(v.zlen())
        if isinstance(v, SStr):
            return M.str_len(it, v)
        if hasattr(type(v), 'pyvc_len'):
            return v.pyvc_len(it)
        if isinstance(v, Sym):
            if numeric(v):
                raise PyRaise(TypeError('object has no len()'))
            r = M.sym_len(it, v) if hasattr(M, 'sym_len') else MISSING
            if r is not MISSING:
                return r
            raise Unsupported('len of %r' % (v,))
        if cls_in_repo(type(v)):
            m = it.mro_lookup(type(v), '__len__')
            if isinstance(m, types.FunctionType):
                return it.call(BoundMethod(m, v), [], {})
        return it.native(len, [v], {})

    def str_len(it, v):
        t = 0
        for p in v.parts:
            if isinstance(p, str):
                t = addz(t, len(p))
            elif isinstance(p, OpaqueText) and p.len is not None:
                t = addz(t, zi(p.len))
            elif isinstance(p, BitText):
                t = addz(t, p.n)
            elif isinstance(p, DecText) and p.pad:
                t = addz(t, times.widths(it, SStr([p]))[0][1])
            else:
                raise Unsupported('length of opaque text')
        return mkint(t)
    M.str_len = str_len

    @model(isinstance)
    def m_isinstance(it, v, t):
        ts = t if isinstance(t, tuple) else (t,)
        flat = []
        for x in ts:
            flat.extend(x) if isinstance(x, tuple) else flat.append(x)
        if isinstance(v, Sym) or hasattr(type(v), '_pyvc_type') or isinstance(v, (InterpFunction, BoundMethod)):
            p = pytype(v)
            return any(issubclass(p, x) for x in flat)
        return it.native(isinstance, [v, t], {})

    @model(type)
    def m_type(it, *a):
        if len(a) != 1:
            return it.native(type, list(a), {})
        return pytype(a[0])

    @model(int)
    def m_int(it, v=0, base=None):
        if base is not None and not (is_concrete(v) and is_concrete(base)):
            return M.int_of_text(it, v, base)
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return mkint(zi(v))
        if isinstance(v, SReal):
            # truncation toward zero
            q = bound(v.num) / v.den
            return mkint(z3.If(z3.Or(bound(v.num) >= 0, bound(v.num) % v.den == 0), q, q + 1))
        if isinstance(v, SStr):
            return M.int_of_text(it, v, 10)
        if isinstance(v, Sym):
            raise Unsupported('int(%r)' % (v,))
        if hasattr(type(v), 'pyvc_int'):
            return v.pyvc_int(it)
        if cls_in_repo(type(v)):
            m = it.mro_lookup(type(v), '__int__')
            if isinstance(m, types.FunctionType):
                return it.call(BoundMethod(m, v), [], {})
        return it.native(int, [v] if base is None else [v, base], {})

    def int_of_text(it, v, base):
        if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], DecText) and base == 10:
            return mkint(v.parts[0].z)
        if isinstance(v, SStr) and base == 2 and all(isinstance(p, BitText) or not p.strip('01') for p in v.parts):
            b = bits_of(it, v)
            if it.ctx.branch(bound(b.n) == 0):
                raise PyRaise(ValueError('invalid literal for int() with base 2'))
            return mkint(b.v)
        if isinstance(v, SStr) and base == 10 and all(isinstance(p, (str, DecText)) for p in v.parts):
            return times.digits_value(it, v)
        raise Unsupported('int() of text')
    M.int_of_text = int_of_text

    @model(bool)
    def m_bool(it, v=False):
        if isinstance(v, SBool):
            return v
        if isinstance(v, SInt):
            return mkbool(v.z != 0)
        return it.truth(v)

    @model(abs)
    def m_abs(it, v):
        if isinstance(v, (SInt, SBool)):
            z = zi(v)
            return mkint(z3.If(z >= 0, z, -z))
        return it.native(abs, [v], {})

    @model(ord)
    def m_ord(it, v):
        if isinstance(v, SBytes):
            n = v.zlen()
            if not it.ctx.branch(bound(n) == 1):
                raise PyRaise(TypeError('ord() expected a character'))
            return mkint(M.byte_at(it, v, 0))
        return it.native(ord, [v], {})

    @model(chr)
    def m_chr(it, v):
        if isinstance(v, Sym):
            raise Unsupported('chr of symbolic')
        return it.native(chr, [v], {})

    @model(bytes)
    def m_bytes(it, v=b'', *a, **k):
        if isinstance(v, SBytes):
            return v
        if isinstance(v, SInt):
            n = v.z
            if it.ctx.branch(n < 0):
                raise PyRaise(ValueError('negative count'))
            return SBytes([Rep(0, n)])
        if isinstance(v, (list, tuple)) or isinstance(v, Generator):
            items = list(it.iterate(v))
            if is_concrete(items):
                return it.native(bytes, [items], {})
            out = []
            for x in items:
                if not numeric(x):
                    raise PyRaise(TypeError('an integer is required'))
                z = zi(x)
                if not it.ctx.branch(z3.And(bound(z) >= 0, bound(z) <= 255)):
                    raise PyRaise(ValueError('bytes must be in range(0, 256)'))
                out.append(Byt(z))
            return mkbytes(out)
        if cls_in_repo(type(v)):
            m = it.mro_lookup(type(v), '__bytes__')
            if isinstance(m, types.FunctionType):
                return it.call(BoundMethod(m, v), [], {})
        if not is_concrete(v):
            return MISSING_unsup('bytes()')
        return it.native(bytes, [v] + list(a), k)

    def MISSING_unsup(s):
        raise Unsupported(s)

    @model(bytearray)
    def m_bytearray(it, v=b''):
        if isinstance(v, (Sym, list)) and not is_concrete(v):
            raise Unsupported('bytearray of symbolic')
        return it.native(bytearray, [v], {})

    @model(str)
    def m_str(it, v='', *a, **k):
        if isinstance(v, SStr):
            return v
        if isinstance(v, SInt):
            return SStr([DecText(v.z)])
        if isinstance(v, SBool):
            return 'True' if it.truth(v) else 'False'
        if isinstance(v, Sym):
            return M.opaque_text(it, 'str')
        if cls_in_repo(type(v)) and not isinstance(v, BaseException):
            m = it.mro_lookup(type(v), '__str__')
            if isinstance(m, types.FunctionType):
                return it.call(BoundMethod(m, v), [], {})
            m = it.mro_lookup(type(v), '__unicode__')
        if not is_concrete(v):
            return M.opaque_text(it, 'str')
        return it.native(str, [v] + list(a), k)

    @model(repr)
    def m_repr(it, v):
        if not is_concrete(v):
            return M.opaque_text(it, 'repr')
        return it.native(repr, [v], {})

    @model(min, max)
    def _dummy(it, *a):
        raise Unsupported('min/max')

    def minmax(ismax):
        def f(it, *args, **kw):
            items = list(it.iterate(args[0])) if len(args) == 1 else list(args)
            key = kw.get('key')
            if is_concrete(items) and key is None:
                return it.native(max if ismax else min, [items], kw)
            if not items:
                if 'default' in kw:
                    return kw['default']
                raise PyRaise(ValueError('empty sequence'))
            best = items[0]
            bk = it.call(key, [best], {}) if key else best
            for x in items[1:]:
                xk = it.call(key, [x], {}) if key else x
                if numeric(xk) and numeric(bk) and key is None:
                    p, q = bound(zi(xk)), bound(zi(bk))
                    best = bk = mkint(z3.If(p > q, p, q) if ismax else z3.If(p < q, p, q))
                elif it.truth(M.compare(it, ast.Gt() if ismax else ast.Lt(), xk, bk)):
                    best, bk = x, xk
            return best
        return f
    T[max] = minmax(True)
    T[min] = minmax(False)

    @model(range)
    def m_range(it, *a):
        if is_concrete(a):
            return it.native(range, list(a), {})
        if len(a) == 1:
            lo, hi, st = 0, zi(a[0]), 1
        else:
            lo, hi = zi(a[0]), zi(a[1])
            st = a[2] if len(a) > 2 else 1
        if st == 0:
            raise PyRaise(ValueError('range() arg 3 must not be zero'))
        if not isinstance(st, int):
            raise Unsupported('range step')
        if st > 0:
            d = bound(hi) - bound(lo)
            n = simp(z3.If(d > 0, (d + (st - 1)) / st, 0))
        else:
            d = bound(lo) - bound(hi)
            n = simp(z3.If(d > 0, (d + (-st - 1)) / (-st), 0))
        return SymIter(n, lambda i: mkint(bound(lo) + bound(i) * st), 'range')

    @model(enumerate)
    def m_enumerate(it, v, start=0):
        v = M.to_iter(it, v)
        if isinstance(v, SymIter):
            return SymIter(v.length, lambda i: (mkint(bound(i) + bound(zi(start))), v.item(i)), 'enumerate')
        return [(start + i, x) for i, x in enumerate(it.py_iter(v))]

    @model(zip)
    def m_zip(it, *vs, **kw):
        vs = [M.to_iter(it, v) for v in vs]
        if any(isinstance(v, SymIter) for v in vs):
            n = None
            for v in vs:
                ln = v.length if isinstance(v, SymIter) else len(list(v))
                n = ln if n is None else simp(z3.If(bound(n) < bound(ln), bound(n), bound(ln)))
            ls = [v.item if isinstance(v, SymIter) else None for v in vs]
            if any(x is None for x in ls):
                raise Unsupported('zip of mixed')
            return SymIter(n, lambda i: tuple(f(i) for f in ls), 'zip')
        return list(zip(*[list(it.py_iter(v)) for v in vs]))

    @model(list)
    def m_list(it, v=()):
        return list(it.iterate(v))

    @model(tuple)
    def m_tuple(it, v=()):
        if isinstance(v, BitSeq):
            return v
        v2 = M.to_iter(it, v)
        if isinstance(v2, SymIter) and hasattr(v2, 'as_tuple'):
            return v2.as_tuple()
        return tuple(it.py_iter(v2))

    @model(set, frozenset)
    def m_set(it, v=()):
        items = list(it.iterate(v))
        return M.make_set(it, items)

    @model(dict)
    def m_dict(it, *a, **k):
        d = {}
        if a:
            src = a[0]
            if isinstance(src, dict):
                d.update(src)
            else:
                for kv in it.iterate(src):
                    kk, vv = list(it.iterate(kv))
                    it.setitem(d, kk, vv)
        d.update(k)
        return d

    @model(sorted)
    def m_sorted(it, v, key=None, reverse=False):
        return M.sorted_(it, v, key=key, reverse=reverse)

    @model(reversed)
    def m_reversed(it, v):
        return list(reversed(list(it.iterate(v))))

    @model(any)
    def m_any(it, v):
        for x in it.iterate(v):
            if it.truth(x):
                return True
        return False

    @model(all)
    def m_all(it, v):
        for x in it.iterate(v):
            if not it.truth(x):
                return False
        return True

    @model(sum)
    def m_sum(it, v, start=0):
        t = start
        for x in it.iterate(v):
            t = M.binop(it, ast.Add(), t, x)
        return t

    @model(format)
    def m_format(it, v, spec=''):
        return M.format_value(it, v, spec)

    @model(map)
    def m_map(it, f, *vs):
        if len(vs) == 1 and f is str and isinstance(vs[0], BitSeq):
            return BitChars(vs[0].v, vs[0].n)
        if len(vs) == 1 and f is int and isinstance(vs[0], SStr) and any(isinstance(p, BitText) for p in vs[0].parts):
            b = bits_of(it, vs[0])
            return BitSeq(b.v, b.n)
        if len(vs) == 1:
            return [it.call(f, [x], {}) for x in it.iterate(vs[0])]
        return [it.call(f, list(xs), {}) for xs in zip(*[list(it.iterate(v)) for v in vs])]

    @model(filter)
    def m_filter(it, f, v):
        return [x for x in it.iterate(v) if it.truth(x if f is None else it.call(f, [x], {}))]

    @model(hasattr)
    def m_hasattr(it, o, n):
        try:
            it.getattr(o, n)
            return True
        except PyRaise as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    @model(getattr)
    def m_getattr(it, o, n, *d):
        try:
            return it.getattr(o, n)
        except PyRaise as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    @model(setattr)
    def m_setattr(it, o, n, v):
        it.setattr(o, n, v)

    @model(iter)
    def m_iter(it, v):
        v = M.to_iter(it, v)
        if isinstance(v, (SymIter, Generator)):
            return v
        return PyIter(it.py_iter(v))

    @model(next)
    def m_next(it, v, *d):
        try:
            if isinstance(v, Generator):
                return v.next()
            if isinstance(v, PyIter):
                try:
                    return next(v.g)
                except StopIteration as e:
                    raise PyRaise(StopIteration())
            if isinstance(v, list):          # generator expressions are evaluated to lists
                if v:
                    return v.pop(0)
                raise PyRaise(StopIteration())
            return it.native(next, [v], {})
        except PyRaise as e:
            if d and isinstance(e.exc, StopIteration):
                return d[0]
            raise

    @model(divmod)
    def m_divmod(it, a, b):
        if is_concrete(a) and is_concrete(b):
            return it.native(divmod, [a, b], {})
        return (M.binop(it, ast.FloorDiv(), a, b), M.binop(it, ast.Mod(), a, b))

    @model(pow)
    def m_pow(it, a, b, *m):
        if is_concrete((a, b, m)):
            return it.native(pow, [a, b] + list(m), {})
        return M.binop(it, ast.Pow(), a, b)

    @model(id)
    def m_id(it, v):
        return id(v)

    @model(callable)
    def m_callable(it, v):
        return isinstance(v, (InterpFunction, BoundMethod, SymMethod)) or callable(v)

    @model(hash)
    def m_hash(it, v):
        if is_concrete(v) and not cls_in_repo(type(v)):
            return it.native(hash, [v], {})
        if hasattr(type(v), 'pyvc_hash'):
            return v.pyvc_hash(it)
        if cls_in_repo(type(v)) and not isinstance(v, type):
            m = it.mro_lookup(type(v), '__hash__')
            if isinstance(m, types.FunctionType):
                return it.call(BoundMethod(m, v), [], {})
        if is_concrete(v):
            return it.native(hash, [v], {})
        raise Unsupported('hash')

    @model(math.ceil)
    def m_ceil(it, v):
        if isinstance(v, SReal):
            return mkint((bound(v.num) + (v.den - 1)) / v.den)
        if isinstance(v, SInt):
            return v
        return it.native(math.ceil, [v], {})

    @model(math.floor)
    def m_floor(it, v):
        if isinstance(v, SReal):
            return mkint(bound(v.num) / v.den)
        if isinstance(v, SInt):
            return v
        return it.native(math.floor, [v], {})

    @model(io.BytesIO)
    def m_bytesio(it, init=b''):
        return PyBytesIO(init)

    from asn1crypto import _types

    @model(_types.type_name)
    def m_type_name(it, v):
        if isinstance(v, type):
            return it.native(_types.type_name, [v], {})
        c = pytype(v)
        if c.__module__ in ('builtins', '__builtin__'):
            return c.__name__
        return '%s.%s' % (c.__module__, c.__name__)

    from asn1crypto import _errors

    @model(_errors.unwrap)
    def m_unwrap(it, s, *params):
        if is_concrete(s) and is_concrete(params):
            return it.native(_errors.unwrap, [s] + list(params), {})
        # the message text is irrelevant, but formatting errors are not
        if isinstance(s, str):
            M.percent(it, s, params) if params else None
        return M.opaque_text(it, 'unwrap')

    @model(copy.deepcopy)
    def m_deepcopy(it, v, memo=None):
        return M.do_copy(it, v, {} if memo is None else memo, True)

    @model(copy.copy)
    def m_copy(it, v):
        return M.do_copy(it, v, {}, False)

    def do_copy(it, v, memo, deep):
        if isinstance(v, (Sym, int, str, bytes, float, type(None), type, types.FunctionType, BitSeq)):
            return v
        if id(v) in memo and deep:
            return memo[id(v)]
        if hasattr(type(v), 'pyvc_copy'):
            return v.pyvc_copy(it, deep)
        if cls_in_repo(type(v)):
            m = it.mro_lookup(type(v), '__deepcopy__' if deep else '__copy__')
            if isinstance(m, types.FunctionType):
                r = it.call(BoundMethod(m, v), [memo] if deep else [], {})
                memo[id(v)] = r
                return r
            new = object.__new__(type(v)) if not isinstance(v, dict) else type(v)()
            memo[id(v)] = new
            if isinstance(v, dict):
                for k, x in v.items():
                    new[k] = do_copy(it, x, memo, deep) if deep else x
                return new
            for k, x in v.__dict__.items():
                new.__dict__[k] = do_copy(it, x, memo, deep) if deep else x
            return new
        if isinstance(v, list):
            new = []
            memo[id(v)] = new
            new.extend(do_copy(it, x, memo, deep) if deep else x for x in v)
            return new
        if type(v) is tuple:
            return tuple(do_copy(it, x, memo, deep) if deep else x for x in v)
        if isinstance(v, dict):
            new = type(v)()
            memo[id(v)] = new
            for k, x in v.items():
                new[do_copy(it, k, memo, deep) if deep else k] = do_copy(it, x, memo, deep) if deep else x
            return new
        if isinstance(v, set) or is_concrete(v):
            return it.native(copy.deepcopy if deep else copy.copy, [v], {})
        raise Unsupported('copy of %s' % type(v).__name__)
    M.do_copy = do_copy

    # ---- int methods
    def int_to_bytes(it, v, length=1, byteorder='big', *, signed=False):
        c = it.ctx
        if byteorder != 'big':
            raise Unsupported('byteorder')
        n = zi(length)
        z = c.const_of(zi(v), 255)
        if not isinstance(n, int) and c.branch(n < 0) or isinstance(n, int) and n < 0:
            raise PyRaise(ValueError('length argument must be non-negative'))
        if it.truth(signed):
            if not isinstance(n, int) and c.branch(n == 0) or isinstance(n, int) and n == 0:
                if c.branch(bound(z) == 0) or c.branch(bound(z) == -1):
                    # CPython: (0).to_bytes(0, signed=True) == b'' and (-1) too
                    return b''
                raise PyRaise(OverflowError('int too big to convert'))
            half = c.p2(simp(8 * n - 1) if not isinstance(n, int) else 8 * n - 1)
            if not c.branch(z3.And(bound(z) < half, bound(z) >= -half)):
                raise PyRaise(OverflowError('int too big to convert'))
            if c.branch(bound(z) < 0):
                full = c.p256(n)
                u = simp(bound(z) + full)
                r = c.to_bytes(u, n)
            else:
                r = c.to_bytes(z, n)
            return r
        if c.branch(bound(z) < 0):
            raise PyRaise(OverflowError("can't convert negative int to unsigned"))
        if not c.branch(bound(z) < bound(c.p256(n))):
            raise PyRaise(OverflowError('int too big to convert'))
        return c.to_bytes(z, n)
    SM[(int, 'to_bytes')] = int_to_bytes

    def m_bit_length(it, v):
        return mkint(it.ctx.bit_length(it.ctx.const_of(zi(v), 255)))
    SM[(int, 'bit_length')] = m_bit_length
    SM[(bool, 'bit_length')] = m_bit_length

    def m_from_bytes(it, v, byteorder='big', *, signed=False):
        c = it.ctx
        if byteorder != 'big':
            raise Unsupported('byteorder')
        if isinstance(v, (list, tuple)):
            v = m_bytes(it, v)
        if not issubclass(pytype(v), (bytes, bytearray)):
            raise PyRaise(TypeError('cannot convert to bytes'))
        u = c.u256(v)
        if not it.truth(signed):
            return mkint(u)
        n = blen(v)
        if isinstance(n, int) and n == 0 or not isinstance(n, int) and c.branch(bound(n) == 0):
            return 0
        a0 = M.byte_at(it, v, 0)
        half = c.p2(simp(8 * n - 1) if not isinstance(n, int) else 8 * n - 1)
        neg = c.branch(bound(a0) >= 128)
        # sign bit of the leading byte and magnitude of the value agree (lemma of positional notation)
        c.fact((bound(u) >= half) if neg else (bound(u) < half))
        if neg:
            return mkint(bound(u) - bound(c.p256(n)))
        return mkint(u)
    T[int.from_bytes] = m_from_bytes

    # ---- bytes methods
    def b_ljust(it, v, w, fill=b' '):
        n = blen(v)
        if it.ctx.branch(bound(n) >= bound(zi(w))):
            return v
        return mkbytes(atoms_of(v) + (Rep(fill[0], simp(bound(zi(w)) - bound(n))),))

    def b_rjust(it, v, w, fill=b' '):
        n = blen(v)
        if it.ctx.branch(bound(n) >= bound(zi(w))):
            return v
        return mkbytes((Rep(fill[0], simp(bound(zi(w)) - bound(n))),) + atoms_of(v))
    SM[(bytes, 'ljust')] = b_ljust
    SM[(bytes, 'rjust')] = b_rjust

    def b_decode(it, v, encoding='utf-8', errors='strict'):
        return M.codec_decode(it, v, encoding)
    SM[(bytes, 'decode')] = b_decode

    def b_find(it, v, x):
        if not isinstance(x, bytes) or len(x) != 1:
            raise Unsupported('bytes.find of %r' % (x,))
        n = bound(blen(v))
        r = it.ctx.fresh_int('found').z
        j = z3.FreshConst(z3.IntSort(), 'j')
        val = lambda i: M.sel(v, i)
        b = val(j)
        it.ctx.fact(z3.And(r >= -1, r < n))
        it.ctx.fact(z3.Implies(r >= 0, val(r) == x[0]))
        it.ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, z3.Or(r == -1, j < r)), b != x[0])))
        return SInt(r)
    SM[(bytes, 'find')] = b_find

    def b_rfind(it, v, x):
        if not isinstance(x, bytes) or len(x) != 1:
            raise Unsupported('bytes.rfind of %r' % (x,))
        n = bound(blen(v))
        r = it.ctx.fresh_int('last').z
        j = z3.FreshConst(z3.IntSort(), 'j')
        val = lambda i: M.sel(v, i)
        b = val(j)
        it.ctx.fact(z3.And(r >= -1, r < n))
        it.ctx.fact(z3.Implies(r >= 0, val(r) == x[0]))
        it.ctx.fact(z3.ForAll([j], z3.Implies(z3.And(j > r, j >= 0, j < n), b != x[0])))
        return SInt(r)
    SM[(bytes, 'rfind')] = b_rfind

    def around(it, v, r):
        return (M.slice_bytes(it, v, slice(0, mkint(r))), M.slice_bytes(it, v, slice(mkint(r + 1), None)))

    def b_contains(it, v, x):
        return it.ctx.branch(bound(zi(b_find(it, v, x))) >= 0)

    def b_rsplit(it, v, sep=None, maxsplit=-1):
        if maxsplit != 1:
            raise Unsupported('bytes.rsplit')
        r = b_rfind(it, v, sep).z
        if not it.ctx.branch(r >= 0):
            return [v]
        return list(around(it, v, r))
    SM[(bytes, 'rsplit')] = b_rsplit

    def b_split(it, v, sep=None, maxsplit=-1):
        if maxsplit != 1:
            raise Unsupported('bytes.split')
        r = b_find(it, v, sep).z
        if not it.ctx.branch(r >= 0):
            return [v]
        return list(around(it, v, r))
    SM[(bytes, 'split')] = b_split

    def b_rpartition(it, v, sep):
        r = b_rfind(it, v, sep).z
        if not it.ctx.branch(r >= 0):
            return (b'', b'', v)
        a, b = around(it, v, r)
        return (a, sep, b)
    SM[(bytes, 'rpartition')] = b_rpartition

    def b_partition(it, v, sep):
        r = b_find(it, v, sep).z
        if not it.ctx.branch(r >= 0):
            return (v, b'', b'')
        a, b = around(it, v, r)
        return (a, sep, b)
    SM[(bytes, 'partition')] = b_partition

    def b_lower(it, v):
        c = it.ctx
        n = blen(v)
        if isinstance(n, int) and n == 0:
            return b''
        w = c.fresh_bytes('lower', n=n)
        j = z3.FreshConst(z3.IntSort(), 'j')
        x, y = M.sel(v, j), M.sel(w, j)
        c.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < bound(n)),
                                         y == z3.If(z3.And(x >= 65, x <= 90), x + 32, x))))
        return w
    SM[(bytes, 'lower')] = b_lower

    def b_splitlines(it, v, keepends=False):
        h = getattr(it, 'splitlines_hook', None)
        if h is None:
            raise Unsupported('splitlines')
        return h(v, keepends)
    SM[(bytes, 'splitlines')] = b_splitlines

    def b_startswith(it, v, p):
        if isinstance(p, tuple):
            return any(it.truth(b_startswith(it, v, x)) for x in p)
        return M.eq(it, M.slice_bytes(it, v, slice(0, mkint(blen(p)))), p)
    SM[(bytes, 'startswith')] = b_startswith

    def b_join(it, v, items):
        return M.join(it, v, list(it.iterate(items)))
    SM[(bytes, 'join')] = b_join
    SM[(str, 'join')] = b_join

    def s_split(it, v, sep=None, maxsplit=-1):
        if isinstance(v, SStr) and isinstance(sep, str) and len(sep) == 1 and not sep.isdigit() and sep != '-' \
                and maxsplit == -1:
            if len(v.parts) == 1 and isinstance(v.parts[0], OpaqueText) and v.parts[0].info \
                    and v.parts[0].info[0] == 'pieces' and v.parts[0].info[1] == sep:
                _, _, n, item = v.parts[0].info
                return SymSeq(n, item, 'pieces of text')
            if all(isinstance(p, (str, DecText)) for p in v.parts):
                out = [[]]
                for p in v.parts:
                    if isinstance(p, str):
                        bits = p.split(sep)
                        out[-1].append(bits[0])
                        out.extend([b] for b in bits[1:])
                    else:
                        out[-1].append(p)
                return [mkstr(x) for x in out]
        raise Unsupported('split of opaque text')
    SM[(str, 'split')] = s_split

    def s_encode(it, v, encoding='utf-8', errors='strict'):
        return M.codec_encode(it, v, encoding)
    SM[(str, 'encode')] = s_encode

    def s_zfill(it, v, w):
        if isinstance(v, SStr) and len(v.parts) == 1 and isinstance(v.parts[0], DecText) and isinstance(w, int) and \
                it.ctx.branch(bound(zi(v.parts[0].z)) >= 0):
            return SStr([DecText(v.parts[0].z, max(w, v.parts[0].pad))])
        raise Unsupported('zfill of opaque text')
    SM[(str, 'zfill')] = s_zfill

    def s_rstrip(it, v, chars=None):
        if isinstance(v, SStr) and chars == '0' and isinstance(v.parts[-1], DecText):
            times.widths(it, SStr([v.parts[-1]]))
            p = v.parts[-1]
            for k in range(p.pad):
                if it.ctx.branch(bound(zi(p.z)) % 10**(k + 1) != 0):
                    return mkstr(list(v.parts[:-1]) + [DecText(simp(bound(zi(p.z)) / 10**k), p.pad - k)])
            rest = mkstr(v.parts[:-1])
            return s_rstrip(it, rest, chars) if isinstance(rest, SStr) else rest.rstrip('0')
        raise Unsupported('rstrip of opaque text')
    SM[(str, 'rstrip')] = s_rstrip

    DEC = {}

    def codec_name(e):
        import codecs
        if not isinstance(e, str):
            raise Unsupported('symbolic codec name')
        try:
            return codecs.lookup(e).name
        except LookupError as ex:
            raise PyRaise(ex)

    def codec_encode(it, v, encoding):
        """text -> bytes: uninterpreted, injective (the codec's decoder is its left inverse)"""
        cn = codec_name(encoding)
        c = it.ctx
        key = repr(v.parts)
        memo = c.__dict__.setdefault('codec_enc', {})
        k = (cn, key)
        if k not in memo:
            ok = z3.Bool('encodable(%s,%s)' % (cn, key))
            arr = z3.Const('enc(%s,%s)' % (cn, key), z3.ArraySort(z3.IntSort(), z3.IntSort()))
            ln = z3.Int('enclen(%s,%s)' % (cn, key))
            c.fact(ln >= 0)
            memo[k] = (ok, SBytes([View(arr, 0, ln)]), v)
        ok, b, _ = memo[k]
        if not c.branch(ok):
            raise PyRaise(UnicodeEncodeError(cn, 'x', 0, 1, 'not encodable'))
        return b
    M.codec_encode = codec_encode

    def codec_decode(it, v, encoding):
        cn = codec_name(encoding)
        c = it.ctx
        if isinstance(v, bytes):
            return it.native(v.decode, [encoding], {})
        # decode(encode(t)) == t
        for (cn2, key), (ok, b, t) in c.__dict__.get('codec_enc', {}).items():
            if cn2 == cn and b.atoms and v.atoms and len(v.atoms) == 1:
                a, x = b.atoms[0], v.atoms[0]
                if isinstance(x, View) and x.arr.eq(a.arr) and simp(bound(x.off) == 0) is True \
                        and simp(bound(x.len) == bound(a.len)) is True:
                    return t
        key = repr(v.atoms)
        ok = z3.Bool('decodable(%s,%s)' % (cn, key))
        if not c.branch(ok):
            raise PyRaise(UnicodeDecodeError(cn, b'x', 0, 1, 'not decodable'))
        return SStr([OpaqueText('dec(%s,%s)' % (cn, key), None, ('dec', cn, v))])
    M.codec_decode = codec_decode


class PyIter(object):
    _pyvc_type = object

    def __init__(self, g):
        self.g = g

    def pyvc_iter(self, it):
        return self.g

    def pyvc_getattr(self, it, name):
        raise Unsupported('iterator attribute %s' % name)
