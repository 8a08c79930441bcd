"""Symbolic Python values.

SInt   mathematical integer (exact for Python ints)
SBool  boolean
SBytes immutable byte string: a rope of atoms (literals, single bytes, views into
       uninterpreted byte arrays, repeated bytes)
SStr   text: a rope of literals and opaque pieces (structured where a contract needs it)
SReal  exact rational num/den, produced only by true division of ints
SObj   opaque value with a Python type (used for uninterpreted external results)

None of these supports native Python operations: if one leaks into natively executed code the
engine raises Unsupported, it never silently computes something else.
"""
import z3


class EngineSignal(BaseException):
    """Base of everything the interpreted program must not be able to catch."""


class Unsupported(EngineSignal):
    pass


def _leak(name):
    def f(self, *a, **k):
        raise Unsupported('symbolic %s leaked into native code (%s)' % (type(self).__name__, name))
    return f


class Sym(object):
    __slots__ = ()
    pytype = object


for _n in ('__bool__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__hash__', '__index__', '__int__',
           '__len__', '__iter__', '__getitem__', '__contains__', '__add__', '__radd__', '__sub__', '__rsub__',
           '__mul__', '__rmul__', '__mod__', '__rmod__', '__and__', '__or__', '__xor__', '__lshift__', '__rshift__',
           '__rlshift__', '__neg__', '__str__', '__format__', '__bytes__', '__float__', '__truediv__', '__floordiv__'):
    setattr(Sym, _n, _leak(_n))


class SInt(Sym):
    __slots__ = ('z',)
    pytype = int

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SInt(%s)' % (self.z,)


class SBool(Sym):
    __slots__ = ('z',)
    pytype = bool

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'SBool(%s)' % (self.z,)


class SReal(Sym):
    """num / den, den a positive Python int"""
    __slots__ = ('num', 'den')
    pytype = float

    def __init__(self, num, den):
        self.num = num
        self.den = den

    def __repr__(self):
        return 'SReal(%s/%s)' % (self.num, self.den)


class Lit(object):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def n(self):
        return len(self.b)

    def __repr__(self):
        return 'Lit(%r)' % (self.b,)


class Byt(object):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def n(self):
        return 1

    def __repr__(self):
        return 'Byt(%s)' % (self.z,)


class View(object):
    """len bytes of array arr (z3 Array Int->Int) starting at off; off/len z3 or int"""
    __slots__ = ('arr', 'off', 'len')

    def __init__(self, arr, off, ln):
        self.arr = arr
        self.off = off
        self.len = ln

    def n(self):
        return self.len

    def __repr__(self):
        return 'View(%s,%s,%s)' % (self.arr, self.off, self.len)


class Rep(object):
    __slots__ = ('z', 'cnt')

    def __init__(self, z, cnt):
        self.z = z
        self.cnt = cnt

    def n(self):
        return self.cnt

    def __repr__(self):
        return 'Rep(%s,%s)' % (self.z, self.cnt)


def simp(z):
    """simplify; numerals become Python ints"""
    if isinstance(z, (int, bool)):
        return z
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return z


def zi(v):
    """value -> z3 Int / python int"""
    if isinstance(v, SInt):
        return v.z
    if isinstance(v, SBool):
        return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if z3.is_expr(v):
        return v
    raise Unsupported('not an integer: %r' % (type(v),))


def mkint(z):
    z = simp(z)
    if isinstance(z, bool):
        return int(z)
    return z if isinstance(z, int) else SInt(z)


def mkbool(z):
    z = simp(z)
    return z if isinstance(z, bool) else SBool(z)


def addz(*xs):
    t = 0
    for x in xs:
        if isinstance(t, int) and isinstance(x, int):
            t = t + x
        else:
            t = t + x
    return simp(t)


class SBytes(Sym):
    __slots__ = ('atoms',)
    pytype = bytes

    def __init__(self, atoms):
        out = []
        for a in atoms:
            n = a.n()
            if isinstance(n, int) and n <= 0:
                continue
            if isinstance(a, Byt) and isinstance(a.z, int):
                a = Lit(bytes([a.z]))
            if out:
                p = out[-1]
                if isinstance(p, Lit) and isinstance(a, Lit):
                    out[-1] = Lit(p.b + a.b)
                    continue
                if isinstance(p, View) and isinstance(a, View) and p.arr.eq(a.arr):
                    d = simp(p.off + p.len - a.off)
                    if isinstance(d, int) and d == 0:
                        out[-1] = View(p.arr, p.off, addz(p.len, a.len))
                        continue
            out.append(a)
        self.atoms = tuple(out)

    def zlen(self):
        return addz(*[a.n() for a in self.atoms]) if self.atoms else 0

    def concrete(self):
        """bytes if fully literal, else None"""
        if not self.atoms:
            return b''
        if len(self.atoms) == 1 and isinstance(self.atoms[0], Lit):
            return self.atoms[0].b
        return None

    def __repr__(self):
        return 'SBytes(%r)' % (list(self.atoms),)


def mkbytes(atoms):
    s = SBytes(atoms)
    c = s.concrete()
    return c if c is not None else s


def atoms_of(v):
    if isinstance(v, SBytes):
        return v.atoms
    if isinstance(v, (bytes, bytearray)):
        return (Lit(bytes(v)),) if v else ()
    raise Unsupported('not bytes: %r' % (type(v),))


def blen(v):
    return v.zlen() if isinstance(v, SBytes) else len(v)


class SStr(Sym):
    """text; parts are Python str or OpaqueText"""
    __slots__ = ('parts',)
    pytype = str

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return 'SStr(%r)' % (list(self.parts),)


class OpaqueText(object):
    """an uninterpreted piece of text, identified by key; length is an SInt or None (unknown)"""
    __slots__ = ('key', 'len', 'info')

    def __init__(self, key, ln=None, info=None):
        self.key = key
        self.len = ln
        self.info = info

    def __repr__(self):
        return '<%s>' % (self.key,)


class DecText(object):
    """decimal rendering of an integer, zero padded to at least `pad` digits"""
    __slots__ = ('z', 'pad')

    def __init__(self, z, pad=0):
        self.z = z
        self.pad = pad

    def __repr__(self):
        return '<dec %s pad %s>' % (self.z, self.pad)


class BitText(object):
    """text of n characters '0'/'1' denoting the integer v in base 2: 0 <= v < 2**n"""
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v = v
        self.n = n

    def __repr__(self):
        return '<bits %s len %s>' % (self.v, self.n)


def mkstr(parts):
    s = SStr(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


class SObj(Sym):
    """opaque value of a given Python type; attrs is a dict of modelled attributes"""
    __slots__ = ('pyt', 'key', 'attrs')

    def __init__(self, pyt, key, attrs=None):
        self.pyt = pyt
        self.key = key
        self.attrs = attrs or {}

    @property
    def pytype(self):
        return self.pyt

    def __repr__(self):
        return 'SObj(%s,%s)' % (self.pyt.__name__, self.key)


def is_sym(v):
    return isinstance(v, Sym)
