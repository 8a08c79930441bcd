"""C04: integers encode as minimal two's complement and decode to the same number."""
from .common import *  # noqa
from .c01 import enc_templates, dec_templates
from oracle import x690
from asn1crypto import _int

LEN = 1 << 60


def twos(n, v):
    """reference: shortest two's complement"""
    return None


def ref_bytes(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
        n += 1
    return bytes(((v >> (8 * (n - 1 - i))) & 255) for i in range(n))


def ref_int(b):
    v = 0
    for x in b:
        v = v * 256 + x
    return v - (1 << (8 * len(b))) if b and b[0] >= 128 else v


def signed_value(it, b):
    """two's complement value of a non-empty byte string"""
    c = it.ctx
    u = bound(c.u256(b))
    return z3.If(at(it, b, 0) >= 128, u - bound(c.p256(blen(b))), u)


def prove_minimal_signed(it, name, r, v):
    c = it.ctx
    if not is_bytes(r):
        c.prove(name + ': bytes', False)
    n = bound(blen(r))
    c.prove(name + ': at least one octet', n >= 1)
    c.prove(name + ': value', signed_value(it, r) == Z(v))
    if c.branch(n >= 2):
        q = bound(c.p2(simp(8 * n - 9)))
        c.prove(name + ': no shorter form holds it', z3.Not(z3.And(Z(v) >= -q, Z(v) < q)))


class IntToBytesSigned(Unit):
    name = 'util.int_to_bytes signed, minimal'
    targets = ('asn1crypto.util.int_to_bytes',)

    def run(self, it):
        c = it.ctx
        v = c.in_int('value')
        k, r = outcome(it, util.int_to_bytes, v, signed=True)
        c.prove('no exception', k == 'ret')
        prove_minimal_signed(it, 'contents', r, v)

    def oracle(self, i):
        v = i['value']
        r = util.int_to_bytes(v, signed=True)
        return None if r == ref_bytes(v) else 'int_to_bytes(%d, signed=True) == %s, not %s' % (v, r.hex(), ref_bytes(v).hex())


class IntToBytesUnsigned(Unit):
    name = 'util.int_to_bytes unsigned'
    targets = ('asn1crypto.util.int_to_bytes',)
    covers = ('fixed width', 'minimal', 'too wide')

    def run(self, it):
        c = it.ctx
        v = c.in_int('value', 0)
        if c.choose(2):
            w = c.in_int('width', 1, 1 << 40)
            k, r = outcome(it, util.int_to_bytes, v, False, w)
            p = bound(c.p256(w.z))
            if k == 'exc':
                c.cover('too wide')
                c.prove('refused only when it does not fit', v.z >= p)
                c.prove('refused with OverflowError or ValueError', isinstance(r, (OverflowError, ValueError)))
                return
            c.cover('fixed width')
            c.prove('fits', v.z < p)
            c.prove('exact width', bound(blen(r)) == w.z)
            c.prove('value', bound(c.u256(r)) == v.z)
        else:
            k, r = outcome(it, util.int_to_bytes, v)
            c.prove('no exception', k == 'ret')
            c.cover('minimal')
            n = bound(blen(r))
            c.prove('at least one octet', n >= 1)
            c.prove('value', bound(c.u256(r)) == v.z)
            c.prove('shortest', z3.Implies(n >= 2, at(it, r, 0) != 0))
        k, back = outcome(it, util.int_from_bytes, r)
        c.prove('int_from_bytes inverts', k == 'ret')
        c.prove('int_from_bytes gives the value', Z(back) == v.z)

    def oracle(self, i):
        return chk_unsigned(i['value'], i.get('width'))


class IntToBytesSignedWidth(Unit):
    name = 'util.int_to_bytes signed, fixed width'
    targets = ('asn1crypto.util.int_to_bytes',)
    covers = ('fits', 'too wide')

    def run(self, it):
        c = it.ctx
        v = c.in_int('value')
        w = c.in_int('width', 1, 1 << 40)
        k, r = outcome(it, util.int_to_bytes, v, True, w)
        h = bound(c.p2(simp(8 * w.z - 1)))
        fits = z3.And(v.z >= -h, v.z < h)
        if k == 'exc':
            c.cover('too wide')
            c.prove('refused only when it does not fit', z3.Not(fits))
            return
        c.cover('fits')
        c.prove('fits', fits)
        c.prove('exact width', bound(blen(r)) == w.z)
        c.prove('value', signed_value(it, r) == v.z)
        k, back = outcome(it, util.int_from_bytes, r, signed=True)
        c.prove('int_from_bytes inverts', k == 'ret')
        c.prove('int_from_bytes gives the value', Z(back) == v.z)

    def oracle(self, i):
        v, w = i['value'], i['width']
        if w > 10 ** 6:
            return None
        try:
            r = util.int_to_bytes(v, True, w)
        except (OverflowError, ValueError):
            return None if not -(1 << 8 * w - 1) <= v < 1 << 8 * w - 1 else 'int_to_bytes(%d, True, %d) refused' % (v, w)
        if len(r) != w or ref_int(r) != v or util.int_from_bytes(r, signed=True) != v:
            return 'int_to_bytes(%d, True, %d) == %s' % (v, w, r.hex())


def chk_unsigned(v, w):
    if w is not None and w > 10 ** 6:
        return None
    try:
        r = util.int_to_bytes(v, False, w)
    except (OverflowError, ValueError) as e:
        return None if w is not None and v >= 1 << 8 * w else 'int_to_bytes(%d, width=%r) refused: %r' % (v, w, e)
    n = w if w is not None else max(1, (v.bit_length() + 7) // 8)
    if len(r) != n or sum(x << 8 * (n - 1 - i) for i, x in enumerate(r)) != v:
        return 'int_to_bytes(%d, width=%r) == %s' % (v, w, r.hex())
    if util.int_from_bytes(r) != v:
        return 'int_from_bytes(int_to_bytes(%d)) == %d' % (v, util.int_from_bytes(r))


class IntFromBytes(Unit):
    name = 'util.int_from_bytes'
    targets = ('asn1crypto.util.int_from_bytes',)

    def run(self, it):
        c = it.ctx
        b = c.in_bytes('b', 1)
        k, r = outcome(it, util.int_from_bytes, b)
        c.prove('no exception', k == 'ret')
        c.prove('unsigned value', Z(r) == bound(c.u256(b)))
        k, r = outcome(it, util.int_from_bytes, b, signed=True)
        c.prove('no exception signed', k == 'ret')
        c.prove('signed value', Z(r) == signed_value(it, b))

    def oracle(self, i):
        b = i['b']
        if util.int_from_bytes(b, signed=True) != ref_int(b) or util.int_from_bytes(b) != int(b.hex(), 16):
            return 'int_from_bytes(%s) wrong' % b.hex()


class Mapped(core.Integer):
    _map = {0: 'zero', 1: 'one', 5: 'five', -3: 'minus', 300: 'big'}


class MappedEnum(core.Enumerated):
    _map = {0: 'zero', 1: 'one', 5: 'five', -3: 'minus', 300: 'big'}


class IntegerSet(Unit):
    targets = ('asn1crypto.core.Integer.set', 'asn1crypto.core.Integer.__int__', 'asn1crypto.core.Integer.native',
               'asn1crypto.core.Asn1Value.dump', 'asn1crypto.core.Primitive.dump', 'asn1crypto.core.Primitive.__init__',
               'asn1crypto.core.Asn1Value.__init__')
    loop_templates = (enc_templates, dec_templates)

    def __init__(self, cls):
        self.cls = cls
        self.name = '%s: set, read, dump, load' % cls.__name__
        if issubclass(cls, core.Enumerated):
            self.targets = ('asn1crypto.core.Enumerated.set', 'asn1crypto.core.Enumerated.native') + self.targets

    def expect(self, it, v):
        """native value the class assigns to the integer v (forks)"""
        for k, name in (self.cls._map or {}).items():
            if it.ctx.branch(Z(v) == k):
                return name
        return None if issubclass(self.cls, core.Enumerated) else v

    def same(self, got, want):
        if isinstance(want, str) or want is None:
            return z3.BoolVal(isinstance(got, str) and got == want)
        return Z(got) == Z(want) if is_int(got) and not isinstance(got, str) else z3.BoolVal(False)

    def run(self, it):
        c = it.ctx
        v = c.in_int('value')
        c.assume(c.bit_length(v.z) <= 1 << 50)
        cls = self.cls
        # either a fresh object or one that already held a (read) value
        if c.choose(2):
            k, o = outcome(it, cls, 1)
            it.getattr(o, 'native')
            it.call(it.getattr(o, 'dump'), [], {})
            k, r = outcome(it, it.getattr(o, 'set'), v)
        else:
            k, o = outcome(it, cls, v)
            r = o
        want = self.expect(it, v)
        if want is None:
            c.prove('unknown number refused', k == 'exc')
            c.prove('refused with ValueError', isinstance(r, (ValueError, TypeError)))
            return
        c.prove('accepted', k == 'ret')
        prove_minimal_signed(it, 'contents', it.getattr(o, 'contents'), v)
        c.prove('native', self.same(it.getattr(o, 'native'), want))
        k, r = outcome(it, it.getattr(o, '__int__'))
        c.prove('int()', k == 'ret' and Z(r) == v.z)
        k, d = outcome(it, it.getattr(o, 'dump'))
        c.prove('dump succeeds', k == 'ret')
        con = it.getattr(o, 'contents')
        hl = simp(bound(blen(d)) - bound(blen(con)))
        c.prove('dump ends with the contents', beq(it, slc(it, d, hl, None), con))
        c.prove('dump starts with the tag', at(it, d, 0) == cls.tag)
        k, o2 = outcome(it, cls.load, d, strict=True)
        c.prove('loads again', k == 'ret')
        c.prove('same native after load', self.same(it.getattr(o2, 'native'), want))
        k, d2 = outcome(it, it.getattr(o2, 'dump'), True)
        c.prove('forced dump', k == 'ret')
        c.prove('forced dump is the same encoding', beq(it, d2, d))

    def oracle(self, i):
        return chk_integer(self.cls, i['value'])


class IntegerLoad(Unit):
    targets = ('asn1crypto.core.Integer.native', 'asn1crypto.core.Asn1Value.load', 'asn1crypto.core._parse_build',
               'asn1crypto.core._build')
    loop_templates = (enc_templates, dec_templates)

    def __init__(self, cls):
        self.cls = cls
        self.name = '%s: contents octets decode to the integer they denote' % cls.__name__

    def run(self, it):
        c = it.ctx
        con = c.in_bytes('contents', 1, 120)
        n = bound(blen(con))
        data = concat(bytes([self.cls.tag]), SBytes([Byt(n)]), con)
        k, o = outcome(it, self.cls.load, data)
        c.prove('loads', k == 'ret')
        v = SInt(signed_value(it, con))
        r = it.call(it.getattr(o, '__int__'), [], {})
        c.prove('int()', Z(r) == v.z)
        u = IntegerSet(self.cls)
        want = u.expect(it, v)
        k, r = getp(it, o, 'native')
        if want is None:
            c.prove('unknown enumeration number refused with ValueError', k == 'exc' and isinstance(r, ValueError))
        else:
            c.prove('native readable', k == 'ret')
            c.prove('native', u.same(r, want))

    def oracle(self, i):
        return chk_contents(self.cls, i['contents'])


class Refused(Unit):
    name = 'Integer/Enumerated: wrong types and unknown names'
    targets = ('asn1crypto.core.Integer.set', 'asn1crypto.core.Enumerated.set')

    def run(self, it):
        c = it.ctx
        cls = [core.Integer, Mapped, MappedEnum][c.choose(3)]
        bad = [b'x', 1.5, [], (), {}, 'nope', '', c.fresh_bytes('b', 1, 5)]
        v = bad[c.choose(len(bad))]
        k, r = outcome(it, cls, v)
        c.prove('refused', k == 'exc')
        c.prove('with ValueError or TypeError', isinstance(r, (ValueError, TypeError)))
        k, o = outcome(it, cls, 1)
        before = it.getattr(o, 'contents')
        k, r = outcome(it, it.getattr(o, 'set'), v)
        c.prove('set refused', k == 'exc' and isinstance(r, (ValueError, TypeError)))
        c.prove('value kept', beq(it, it.getattr(o, 'contents'), before))


def chk_integer(cls, v):
    m = cls._map or {}
    want = m.get(v, v)
    enum = issubclass(cls, core.Enumerated)
    con = ref_bytes(v)
    for how in (0, 1):
        try:
            if how:
                o = cls(sorted(m)[0] if m else 1)
                o.native, o.dump()
                o.set(v)
            else:
                o = cls(v)
        except (ValueError, TypeError) as e:
            if enum and v not in m:
                continue
            return '%s(%d) refused: %r' % (cls.__name__, v, e)
        if enum and v not in m:
            return '%s(%d) accepted' % (cls.__name__, v)
        d = x690.emit(0, 0, cls.tag, con)
        if o.contents != con or o.dump() != d:
            return '%s(%d) encodes as %s, not %s' % (cls.__name__, v, o.dump().hex(), d.hex())
        if o.native != want or int(o) != v:
            return '%s(%d).native == %r' % (cls.__name__, v, o.native)
        o2 = cls.load(d, strict=True)
        if o2.native != want or int(o2) != v or o2.dump(force=True) != d:
            return '%s(%d) loads back as %r' % (cls.__name__, v, o2.native)
        if isinstance(want, str):
            o3 = cls(want)
            if o3.dump() != d or o3.native != want or int(o3) != v:
                return '%s(%r) does not encode as %d' % (cls.__name__, want, v)


def chk_contents(cls, con):
    v = ref_int(con)
    m = cls._map or {}
    try:
        got = cls.load(x690.emit(0, 0, cls.tag, con)).native
    except ValueError as e:
        if issubclass(cls, core.Enumerated) and v not in m:
            return None
        return '%s contents %s refused: %r' % (cls.__name__, con.hex(), e)
    if issubclass(cls, core.Enumerated) and v not in m:
        return '%s contents %s (unknown number %d) gave %r' % (cls.__name__, con.hex(), v, got)
    if got != m.get(v, v) or int(cls.load(x690.emit(0, 0, cls.tag, con))) != v:
        return '%s contents %s decode to %r, denote %d' % (cls.__name__, con.hex(), got, v)


def mapped_classes():
    from pyvc.repo import all_classes
    return [c for c in all_classes() if issubclass(c, core.Integer) and c._map and c.__module__.startswith('asn1crypto')]


class IntegerCases(Bounded):
    name = 'Integer and Enumerated round trips'
    rule = 'all of -70000..70000, every boundary around powers of two, random widths; contents octets up to 3 exhaustively ' \
           'for one octet; distinct by (class, value)'
    seconds = 8

    def cases(self, rng, tier):
        for v in gen.BOUNDARY_INTS:
            for cls in (core.Integer, Mapped, MappedEnum):
                yield 'set', cls, v
        for a in range(256):
            yield 'con', core.Integer, bytes([a])
            for b in (0, 1, 127, 128, 129, 254, 255):
                yield 'con', core.Integer, bytes([a, b])
                yield 'con', core.Integer, bytes([a, b, a])
        for a in range(256):
            yield 'con', MappedEnum, bytes([a])
            yield 'con', Mapped, bytes([a])
        yield 'con', MappedEnum, b'\x01\x2c'
        yield 'con', MappedEnum, b'\x00\x05'
        for v in range(-1200, 1200):
            yield 'set', core.Integer, v
        for v in range(32000, 33600):
            yield 'set', core.Integer, v
            yield 'set', core.Integer, -v
        for w in range(1, 20):
            for v in gen.BOUNDARY_INTS[len(gen.BOUNDARY_INTS) // 2:]:
                if v.bit_length() < 200:
                    yield 'uns', w, v
                    yield 'sig', w, v
                    yield 'sig', w, -v
        while True:
            yield 'set', core.Integer, gen.rint(rng)
            yield 'con', core.Integer, gen.rbytes(rng, rng.randrange(1, 40))
            yield 'uns', rng.choice([None, rng.randrange(1, 40)]), abs(gen.rint(rng))
            yield 'sig', rng.randrange(1, 40), gen.rint(rng)

    def oracle(self, case):
        kind, a, b = case
        if kind == 'set':
            return chk_integer(a, b)
        if kind == 'con':
            return chk_contents(a, b)
        if kind == 'uns':
            return chk_unsigned(b, a)
        return IntToBytesSignedWidth().oracle(dict(value=b, width=a))


class MapTables(Bounded):
    name = 'every mapped Integer/Enumerated class of the library, every name and number'
    rule = 'all classes with _map, all entries plus neighbouring numbers: complete enumeration; distinct by (class, number)'
    exhaustive = True

    def cases(self, rng, tier):
        for cls in mapped_classes():
            for v in sorted(cls._map):
                for d in (0, 1, -1):
                    yield cls, v + d

    def oracle(self, case):
        cls, v = case
        m = chk_integer(cls, v) or chk_contents(cls, ref_bytes(v))
        if m:
            return m
        if len(set(cls._map.values())) != len(cls._map):
            return '%s maps two numbers to one name' % cls.__name__
        for bad in ('no such name', ''):
            try:
                cls(bad)
            except (ValueError, TypeError):
                continue
            return '%s(%r) accepted' % (cls.__name__, bad)


class FillWidth(Unit):
    name = '_int.fill_width'
    targets = ('asn1crypto._int.fill_width',)

    @staticmethod
    def templates(env):
        out, var = [], []
        for h in env.bytess:
            for w in env.fixed_ints:
                out.append(('%s <= max(entry, %s)' % (h, w), lambda e, h=h, w=w: z3.And(
                    bound(blen(e.cb(h))) >= bound(blen(e.eb(h))),
                    z3.Or(bound(blen(e.cb(h))) <= e.c(w), bound(blen(e.cb(h))) == bound(blen(e.eb(h)))))))
                var.append(('%s' % h, lambda e, h=h, w=w: e.c(w) - bound(blen(e.cb(h)))))
            out.append(('%s value' % h, lambda e, h=h: bound(e.ctx.u256(e.cb(h))) == bound(e.ctx.u256(e.eb(h)))))
        return out, var
    loop_templates = (templates.__func__,)
    termination = True

    def run(self, it):
        c = it.ctx
        b = c.in_bytes('b', 1)
        w = c.in_int('width', 0, 1 << 40)
        k, r = outcome(it, _int.fill_width, b, w)
        c.prove('no exception', k == 'ret')
        n = bound(blen(b))
        c.prove('width', bound(blen(r)) == z3.If(n >= w.z, n, w.z))
        c.prove('value unchanged', bound(c.u256(r)) == bound(c.u256(b)))

    def oracle(self, i):
        if i['width'] > 10 ** 6:
            return None
        r = _int.fill_width(i['b'], i['width'])
        return None if r == i['b'].rjust(i['width'], b'\x00') else 'fill_width(%r, %d) == %r' % (i['b'], i['width'], r)


UNITS = [IntToBytesSigned, IntToBytesUnsigned, IntToBytesSignedWidth, IntFromBytes, IntegerSet(core.Integer), IntegerSet(Mapped),
         IntegerSet(MappedEnum), IntegerLoad(core.Integer), IntegerLoad(Mapped), IntegerLoad(MappedEnum), Refused, FillWidth]
BOUNDED = [IntegerCases, MapTables]
