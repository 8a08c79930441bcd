"""C06: bit strings preserve every bit, the bit count and the unused-bit count."""
from .common import *  # noqa
from oracle import x690
from pyvc.models import BitSeq
from pyvc.repo import all_classes

LEN = 1 << 40


# ---- reference

def ref_contents(bits, named=False):
    bits = list(bits)
    while named and bits and not bits[-1]:
        bits.pop()
    pad = -len(bits) % 8
    bits += [0] * pad
    out = bytearray([pad])
    for i in range(0, len(bits), 8):
        v = 0
        for b in bits[i:i + 8]:
            v = v * 2 + b
        out.append(v)
    return bytes(out)


def ref_bits(con):
    """(used bits, padding bits) of primitive contents, None when X.690 8.6.2 forbids them"""
    if not con or con[0] > 7 or (con[0] and len(con) == 1):
        return None
    bits = [(x >> (7 - i)) & 1 for x in con[1:] for i in range(8)]
    n = len(bits) - con[0]
    return tuple(bits[:n]), tuple(bits[n:])


# ---- symbolic units

class SetBits(Unit):
    """a tuple of any number of bits; v is the integer the bits denote"""
    name = 'BitString.set: a tuple of any number of bits'
    targets = ('asn1crypto.core.BitString.set',)
    covers = ('no padding', 'padding', 'empty')

    def run(self, it):
        c = it.ctx
        n = c.in_int('bits', 0, LEN)
        v = c.in_int('value', 0)
        c.assume(v.z < bound(c.p2(n.z)))
        for j in range(1, 8):
            c.p2(simp(n.z + j))      # instantiates 2**(n+j) == 2**j * 2**n
        how = c.choose(2) * 2
        if how == 2:
            o = core.BitString.load(b'\x23\x80\x03\x02\x00\x41\x00\x00')
        else:
            o = core.BitString()
        if how:
            o.native, o.unused_bits
        value = BitSeq(v.z, n.z)
        k, r = meth(it, o, 'set', value)
        c.prove('every tuple of bits accepted', k == 'ret')
        con = it.getattr(o, 'contents')
        c.prove('contents are bytes', is_bytes(con))
        m = bound(blen(con))
        pad = at(it, con, 0)
        c.cover('empty' if c.branch(n.z == 0) else 'padding' if c.branch(bound(pad) > 0) else 'no padding')
        c.prove('one leading octet', m >= 1)
        c.prove('unused bits below 8', z3.And(bound(pad) >= 0, bound(pad) <= 7))
        c.prove('bit count', 8 * (m - 1) - pad == n.z)
        u = c.concretize(pad, list(range(8)))
        c.prove('bits', bound(c.u256(slc(it, con, 1, None))) == v.z * (1 << u))
        c.prove('definite afterwards', z3.And(z3.BoolVal(o.__dict__.get('_indefinite', False) is False),
                                              z3.BoolVal(it.getattr(o, 'method') == 0)))
        k, t = getp(it, o, 'native')
        c.prove('native is the value set', k == 'ret' and t is value)
        k, t = getp(it, o, 'unused_bits')
        c.prove('unused bits are the padding', k == 'ret' and isinstance(t, tuple) and t == (0,) * u)
        if how:
            return
        # decode what was encoded
        p = core.BitString()
        it.setattr(p, 'contents', con)
        k, t = getp(it, p, 'native')
        c.prove('decodes', k == 'ret' and (isinstance(t, BitSeq) or t == ()))
        if isinstance(t, BitSeq):
            c.prove('decodes to the same bits', z3.And(bound(t.n) == n.z, bound(t.v) == v.z))
        else:
            c.prove('decodes to no bits', n.z == 0)

    def oracle(self, i):
        n = i['bits']
        if n > 100000:
            return None
        return chk_bits(tuple(int(x) for x in format(i['value'], '0%db' % n)) if n else ())


class Chunk(Unit):
    """any primitive contents, read through each of the three classes"""
    targets = ('asn1crypto.core._IntegerBitString._as_chunk', 'asn1crypto.core.OctetBitString._as_chunk',
               'asn1crypto.core._int_to_bit_tuple')
    covers = ('accepted', 'refused')

    def __init__(self, cls):
        self.cls = cls
        self.name = cls + ': any primitive contents'

    def run(self, it):
        c = it.ctx
        case = c.choose(10)
        if case == 9:
            con = b''
        elif case == 8:
            con = c.in_bytes('contents', 1)
            c.assume(at(it, con, 0) > 7)
        else:
            con = concat(bytes([c.input('u', case)]), c.in_bytes('rest', 0))
        m = bound(blen(con))
        cls = getattr(core, self.cls)
        o = cls()
        it.setattr(o, 'contents', con)
        k, r = getp(it, o, 'native')
        first = bound(at(it, con, 0)) if c.branch(m >= 1) else None
        if first is None:
            ok = False
        else:
            ok = c.branch(z3.And(first <= 7, z3.Or(first == 0, m >= 2)))
        if k == 'exc':
            c.cover('refused')
            c.prove('refused with ValueError', isinstance(r, ValueError))
            c.prove('only invalid contents refused', not ok)
            return
        c.prove('invalid contents refused', ok)
        c.cover('accepted')
        u = c.concretize(first, list(range(8)))
        n = simp(8 * (m - 1) - u)
        full = bound(c.u256(slc(it, con, 1, None)))
        val = simp(full / (1 << u))
        k, ub = getp(it, o, 'unused_bits')
        c.prove('unused bits readable', k == 'ret')
        if u == 0:
            c.prove('no unused bits', isinstance(ub, tuple) and ub == ())
        else:
            last = bound(at(it, con, simp(m - 1)))
            c.prove('unused bits', isinstance(ub, BitSeq) and
                    z3.And(bound(ub.n) == u, bound(ub.v) == full % (1 << u) if self.cls != 'OctetBitString' else
                           bound(ub.v) == last % (1 << u)))
        if self.cls == 'BitString':
            c.prove('is a tuple', isinstance(r, (BitSeq, tuple)))
            if isinstance(r, tuple):
                c.prove('no bits', z3.And(z3.BoolVal(r == ()), n == 0))
            else:
                c.prove('bit count', bound(r.n) == n)
                c.prove('bits', bound(r.v) == val)
                key = c.in_int('key', 0)
                k, b = meth(it, o, '__getitem__', key)
                c.prove('one bit readable', k == 'ret')
                if c.branch(key.z < n):
                    c.prove('one bit', Z(it.truth_value(b)) == (bound(r.bit(it, key.z).z) == 1)
                            if hasattr(it, 'truth_value') else Z(b) == (bound(r.bit(it, key.z).z) == 1))
                else:
                    c.prove('bits beyond the end are unset', z3.Not(Z(b)))
        elif self.cls == 'IntegerBitString':
            c.prove('integer', is_int(r))
            c.prove('value', Z(r) == val)
        else:
            c.prove('bytes', is_bytes(r))
            c.prove('length', bound(blen(r)) == m - 1)
            if c.branch(m >= 2):
                c.prove('octets before the last', beq(it, slc(it, r, 0, simp(m - 2)), slc(it, con, 1, simp(m - 1))))
                last = bound(at(it, con, simp(m - 1)))
                c.prove('padding zeroed in the last octet',
                        bound(at(it, r, simp(m - 2))) == last - last % (1 << u))

    def oracle(self, i):
        return chk_contents(i['contents'] if 'contents' in i else bytes([i.get('u', 0)]) + i['rest'] if 'rest' in i else b'')


class SetOther(Unit):
    name = 'OctetBitString.set, IntegerBitString.set: any bytes, any integer'
    targets = ('asn1crypto.core.OctetBitString.set', 'asn1crypto.core.IntegerBitString.set')
    covers = ('bytes', 'integer', 'negative')

    def run(self, it):
        c = it.ctx
        if c.choose(2):
            b = c.in_bytes('bytes', 0)
            o = core.OctetBitString() if c.choose(2) else core.OctetBitString.load(b'\x23\x80\x03\x02\x04\xf0\x00\x00')
            o.native
            k, r = meth(it, o, 'set', b)
            c.cover('bytes')
            c.prove('bytes accepted', k == 'ret')
            con = it.getattr(o, 'contents')
            c.prove('contents', beq(it, con, concat(b'\x00', b)))
            k, r = getp(it, o, 'native')
            c.prove('native', k == 'ret' and beq(it, r, b))
            k, r = getp(it, o, 'unused_bits')
            c.prove('no unused bits', k == 'ret' and isinstance(r, tuple) and r == ())
            return
        v = c.in_int('integer')
        o = core.IntegerBitString() if c.choose(2) else core.IntegerBitString.load(b'\x23\x80\x03\x02\x04\xf0\x00\x00')
        o.native
        k, r = meth(it, o, 'set', v)
        if k == 'exc':
            c.cover('negative')
            c.prove('refused with ValueError', isinstance(r, ValueError))
            c.prove('only negative integers refused', v.z < 0)
            return
        c.cover('integer')
        c.prove('negative integers refused', v.z >= 0)
        con = it.getattr(o, 'contents')
        c.prove('no unused bits recorded', z3.And(bound(blen(con)) >= 1, bound(at(it, con, 0)) == 0))
        c.prove('value', bound(c.u256(slc(it, con, 1, None))) == v.z)
        k, r = getp(it, o, 'native')
        c.prove('native', k == 'ret' and is_int(r) and Z(r) == v.z)
        p = core.IntegerBitString()
        it.setattr(p, 'contents', con)
        k, r = getp(it, p, 'native')
        c.prove('decodes to the value', k == 'ret' and Z(r) == v.z)

    def oracle(self, i):
        if 'bytes' in i:
            return chk_octets(i['bytes'])
        return chk_integer(i['integer'])


# ---- runtime contracts

class Gap(core.BitString):
    _map = {0: 'a', 2: 'c', 5: 'f', 9: 'j'}


class One(core.BitString):
    _map = {0: 'only'}


def named_classes():
    return [Gap, One] + [c for c in all_classes() if issubclass(c, core.BitString) and c._map and
                         c.__module__.startswith('asn1crypto')]


PRIORS = [lambda C: C(), lambda C: C.load(b'\x03\x02\x05\xbf'), lambda C: C.load(b'\x23\x80\x03\x02\x00\xa5\x03\x02\x03\xff\x00\x00'),
          lambda C: C.load(b'\x03\x01\x00')]


def same(o, C, con, bits, unused, native):
    d = x690.emit(0, 0, 3, con)
    if o.contents != con:
        return 'contents %s, not %s' % (o.contents.hex(), con.hex())
    if o.native != native:
        return 'native %r, not %r' % (o.native, native)
    if o.unused_bits != unused:
        return 'unused_bits %r, not %r' % (o.unused_bits, unused)
    if o.dump() != d:
        return 'dump %s, not %s' % (o.dump().hex(), d.hex())
    for k in range(len(bits) + 3):
        if o[k] is not (k < len(bits) and bits[k] == 1):
            return 'bit %d reads %r' % (k, o[k])
    if C._map:
        for k, name in C._map.items():
            if o[name] is not (k < len(bits) and bits[k] == 1):
                return 'bit %r reads %r' % (name, o[name])
    return None


def native_of(C, bits):
    return set(C._map.get(k, k) for k, b in enumerate(bits) if b) if C._map else tuple(bits)


def chk_bits(bits, C=core.BitString, as_set=False):
    """set a value on objects with different histories"""
    con = ref_contents(bits, bool(C._map))
    pad = (0,) * con[0]
    native = native_of(C, bits)
    for j, prior in enumerate(PRIORS):
        o = prior(C)
        if j:
            o.native, o.unused_bits, o.dump()
        value = set(native) if as_set else tuple(bits)
        o.set(value)
        m = same(o, C, con, bits, pad, native)
        if m:
            return '%s.set(%r) after history %d: %s' % (C.__name__, value, j, m)
        if as_set:
            value.add('junk')
            if o.native != native:
                return '%s shares the set it was given' % C.__name__
    o = C(set(native) if as_set else tuple(bits))
    m = same(o, C, con, bits, pad, native) or same(C.load(o.dump(), strict=True), C, con, bits, pad, native)
    if m:
        return '%s(%r): %s' % (C.__name__, bits, m)
    f = C.load(o.dump())
    if f.dump(force=True) != o.dump():
        return '%s(%r): forced dump %s' % (C.__name__, bits, f.dump(force=True).hex())


def chk_octets(b):
    for C in (core.OctetBitString, core.ParsableOctetBitString):
        for j, prior in enumerate([PRIORS[0], lambda C: C.load(b'\x03\x02\x00\xbf'),
                                   lambda C: C.load(b'\x23\x80\x03\x02\x00\xa5\x03\x02\x00\xff\x00\x00')]):
            o = prior(C)
            if j:
                o.native, bytes(o)
            o.set(b)
            if (o.contents, bytes(o), o.dump()) != (b'\x00' + b, b, x690.emit(0, 0, 3, b'\x00' + b)):
                return '%s.set(%r) gives %s' % (C.__name__, b, o.dump().hex())
            if C is core.OctetBitString and (o.native != b or o.unused_bits != ()):
                return '%s.set(%r): native %r unused %r' % (C.__name__, b, o.native, o.unused_bits)
            if bytes(C.load(o.dump())) != b:
                return '%s(%r) loads as %r' % (C.__name__, b, bytes(C.load(o.dump())))


def chk_integer(v):
    o = core.IntegerBitString.load(b'\x23\x80\x03\x02\x00\xa5\x03\x02\x03\xff\x00\x00')
    o.native
    for p in (o, core.IntegerBitString()):
        try:
            p.set(v)
        except ValueError:
            if v >= 0:
                return 'IntegerBitString.set(%d) refused' % v
            continue
        if v < 0:
            return 'IntegerBitString accepted %d' % v
        r = ref_bits(p.contents)
        if r is None or r[1] or int('0' + ''.join(map(str, r[0])), 2) != v or p.native != v or p.unused_bits != ():
            return 'IntegerBitString.set(%d): contents %s native %r' % (v, p.contents.hex(), p.native)
        if p.dump() != x690.emit(0, 0, 3, p.contents) or core.IntegerBitString.load(p.dump()).native != v:
            return 'IntegerBitString(%d) encodes as %s' % (v, p.dump().hex())


def chk_contents(con, classes=None):
    r = ref_bits(con)
    d = x690.emit(0, 0, 3, con)
    for C in classes or (core.BitString, Gap, x509.KeyUsage, core.OctetBitString, core.IntegerBitString):
        for first in ('native', 'unused_bits'):
            o = C.load(d)
            try:
                getattr(o, first)
            except ValueError:
                if r is not None:
                    return '%s refuses contents %s' % (C.__name__, con.hex())
                continue
            if r is None:
                return '%s accepts contents %s as %r' % (C.__name__, con.hex(), o.native)
            bits, unused = r
            if issubclass(C, core.BitString):
                m = same(o, C, con, bits, unused, native_of(C, bits))
                if m:
                    return '%s contents %s: %s' % (C.__name__, con.hex(), m)
                if o.dump(force=True) != x690.emit(0, 0, 3, ref_contents(bits, bool(C._map))):
                    return '%s contents %s: forced dump %s' % (C.__name__, con.hex(), o.dump(force=True).hex())
            elif issubclass(C, core.IntegerBitString):
                v = int('0' + ''.join(map(str, bits)), 2)
                if o.native != v or o.unused_bits != unused or o.dump() != d:
                    return 'IntegerBitString contents %s: %r %r' % (con.hex(), o.native, o.unused_bits)
            else:
                b = ref_contents(bits)[1:]
                if o.native != b or bytes(o) != b or o.unused_bits != unused or o.dump() != d:
                    return 'OctetBitString contents %s: %r %r' % (con.hex(), o.native, o.unused_bits)


def chk_edit(con, edits, C):
    """change single bits of a loaded value"""
    bits, unused = ref_bits(con)
    bits = list(bits)
    o = C.load(x690.emit(0, 0, 3, con))
    for k, name, v in edits:
        o[C._map[k] if name and C._map and k in C._map else k] = v
        bits += [0] * (k + 1 - len(bits))
        bits[k] = 1 if v else 0
        want = ref_contents(bits, bool(C._map))
        m = same(o, C, want, bits, (0,) * want[0], native_of(C, bits)) or \
            same(C.load(o.dump()), C, want, bits, (0,) * want[0], native_of(C, bits))
        if m:
            return '%s contents %s after [%r] = %r: %s' % (C.__name__, con.hex(), k, v, m)


class BitCases(Bounded):
    name = 'bit strings of every class'
    rule = ('all bit tuples up to 10 bits, all primitive contents up to 2 octets, boundary and random longer ones, random '
            'single-bit edits; distinct by input')
    seconds = 14

    def cases(self, rng, tier):
        for n in range(11):
            for v in range(1 << n):
                yield 'bits', tuple((v >> (n - 1 - i)) & 1 for i in range(n))
        yield 'con', b''
        for a in range(256):
            yield 'con', bytes([a])
            for b in (range(256) if a < 10 else (0, 1, 127, 128, 255)):
                yield 'con', bytes([a, b])
        for v in list(range(300)) + gen.BOUNDARY_INTS:
            yield 'int', v
        for n in (0, 1, 2, 126, 127, 128, 255, 256, 257):
            yield 'oct', bytes(n)
        while True:
            n = rng.choice([rng.randrange(40), rng.randrange(40), 8 * rng.randrange(20), rng.randrange(1100)])
            yield 'bits', tuple(rng.randrange(2) for _ in range(n))
            yield 'bits', (0,) * rng.randrange(30) + tuple(rng.randrange(2) for _ in range(n % 20))
            yield 'con', bytes([rng.choice([rng.randrange(9), rng.randrange(256)])]) + gen.rbytes(rng, rng.randrange(9))
            yield 'oct', gen.rbytes(rng, rng.randrange(20))
            yield 'int', gen.rint(rng)
            c = bytes([rng.randrange(8)]) + gen.rbytes(rng, rng.randrange(1, 4))
            yield 'edit', (c, tuple((rng.randrange(28), rng.randrange(2), rng.randrange(2))
                                    for _ in range(rng.randrange(1, 5))), rng.randrange(4))

    def oracle(self, case):
        k, v = case
        if k == 'bits':
            return chk_bits(v)
        if k == 'con':
            return chk_contents(v)
        if k == 'oct':
            return chk_octets(v)
        if k == 'int':
            return chk_integer(v)
        return chk_edit(v[0], v[1], (core.BitString, Gap, One, x509.KeyUsage)[v[2]])


class NamedSets(Bounded):
    name = 'every named bit string class of the library: every set of names'
    rule = 'all subsets of the names (classes with at most 10 names), as set and as tuple; larger classes: all subsets of size <= 2'
    exhaustive = True

    def cases(self, rng, tier):
        import itertools
        for C in named_classes():
            ks = sorted(C._map)
            if len(ks) <= 10:
                subs = itertools.chain.from_iterable(itertools.combinations(ks, r) for r in range(len(ks) + 1))
            else:
                subs = itertools.chain.from_iterable(itertools.combinations(ks, r) for r in (0, 1, 2, len(ks) - 1, len(ks)))
            for s in subs:
                yield C, s

    def oracle(self, case):
        C, s = case
        if len(set(C._map.values())) != len(C._map):
            return '%s maps two bits to one name' % C.__name__
        bits = [1 if k in s else 0 for k in range(max(s) + 1)] if s else []
        full = bits + [0] * (max(C._map) + 1 - len(bits))
        m = chk_bits(bits, C, True) or chk_bits(full, C) or chk_bits(bits, C)
        if m:
            return m
        for bad in ({'no such name'}, {-1}, set(C._map.values()) | {'x'}, tuple(full) + (0,)):
            o = C(set())
            try:
                o.set(bad)
            except ValueError:
                if o.contents != b'\x00':
                    return '%s: refused set changed the contents' % C.__name__
                continue
            return '%s accepted %r' % (C.__name__, bad)
        for k in ('no such name', ''):
            o = C(set())
            try:
                o[k] = True
            except ValueError:
                pass
            else:
                return '%s: bit %r set' % (C.__name__, k)
            try:
                o[k]
            except ValueError:
                continue
            return '%s: bit %r read' % (C.__name__, k)


class WrongTypes(Bounded):
    name = 'bit strings refuse values of the wrong type'
    rule = 'fixed list'
    exhaustive = True
    VALUES = ['101', b'\x00', 5, 1.5, None, [1, 0], {'a': 1}, object(), (2,), (1, -1), ('x',), ((1,),), frozenset()]

    def cases(self, rng, tier):
        for C in (core.BitString, Gap, core.OctetBitString, core.IntegerBitString, core.ParsableOctetBitString):
            for i in range(len(self.VALUES)):
                yield C, i

    def oracle(self, case):
        C, i = case
        v = self.VALUES[i]
        if C is core.IntegerBitString and isinstance(v, int):
            return
        if issubclass(C, (core.OctetBitString, core.ParsableOctetBitString)) and isinstance(v, bytes):
            return
        if v is None:
            return
        o = C()
        try:
            o.set(v)
        except (TypeError, ValueError):
            if issubclass(C, core.BitString) and C._map is None and o.contents is not None:
                return '%s: refused value left contents' % C.__name__
            return
        return '%s accepted %r' % (C.__name__, v)


UNITS = [SetBits, Chunk('BitString'), Chunk('OctetBitString'), Chunk('IntegerBitString'), SetOther]
BOUNDED = [BitCases, NamedSets, WrongTypes]
