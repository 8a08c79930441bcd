"""C21: signature, EC point and key-size conversions are exact for every integer."""
import ast
from .common import *  # noqa
from asn1crypto import _int
from .c05 import PathEndNow
from .c08 import assigned_names
from .c04 import chk_unsigned
from oracle.curves import CURVES
from pyvc.interp import Unsupported
from pyvc.values import Rep


def octets(v):
    return max(1, (v.bit_length() + 7) // 8)


def attempt(f):
    try:
        return 'ret', f()
    except (ValueError, TypeError, OverflowError) as e:
        return 'exc', e


# ------------------------------------------------------------------------------------------ runtime contracts
def chk_sig(case):
    r, s, width = case
    o = algos.DSASignature({'r': r, 's': s})
    w = max(octets(r), octets(s))
    for src in (o, algos.DSASignature.load(o.dump())):
        k, b = attempt(lambda: src.to_p1363())
        if k != 'ret' or b != r.to_bytes(w, 'big') + s.to_bytes(w, 'big'):
            return 'to_p1363 of (%d, %d): %r' % (r, s, b)
        if width is not None:
            k, x = attempt(lambda: src.to_p1363(width=width))
            if width < w:
                if k != 'exc' or not isinstance(x, ValueError):
                    return 'width %d: %r' % (width, x)
            elif k != 'ret' or x != r.to_bytes(width, 'big') + s.to_bytes(width, 'big'):
                return 'width %d: %r' % (width, x)
            else:
                b = x
        z = algos.DSASignature.from_p1363(b)
        if (z['r'].native, z['s'].native) != (r, s) or z.dump() != o.dump():
            return 'from_p1363 of (%d, %d): (%r, %r)' % (r, s, z['r'].native, z['s'].native)
    return None


def chk_from(d):
    k, o = attempt(lambda: algos.DSASignature.from_p1363(d))
    if len(d) % 2:
        return None if k == 'exc' and isinstance(o, ValueError) else 'odd length accepted'
    h = len(d) // 2
    want = (int.from_bytes(d[:h], 'big'), int.from_bytes(d[h:], 'big'))
    if k != 'ret' or (o['r'].native, o['s'].native) != want:
        return 'from_p1363(%s): %r' % (d.hex(), o)
    return None if o.to_p1363(width=max(h, 1)) == (d or b'\0\0') else 'to_p1363 of from_p1363(%s)' % d.hex()


def chk_point(case):
    x, y = case
    w = max(octets(x), octets(y))
    b = b'\x04' + x.to_bytes(w, 'big') + y.to_bytes(w, 'big')
    for cls in (keys.ECPoint, keys.ECPointBitString):
        k, p = attempt(lambda: cls.from_coords(x, y))
        if k != 'ret' or p.native != b:
            return '%s.from_coords(%d, %d): %r' % (cls.__name__, x, y, p)
        if type(p) is not cls:
            return 'a %s' % type(p).__name__
        for q in (p, cls.load(p.dump()), cls(b)):
            if q.to_coords() != (x, y):
                return '%s.to_coords of (%d, %d): %r' % (cls.__name__, x, y, q.to_coords())
    return None


def chk_coords(d):
    for cls in (keys.ECPoint, keys.ECPointBitString):
        k, r = attempt(lambda: cls(d).to_coords())
        if d[:1] == b'\x04' and len(d) > 1 and len(d) % 2:
            h = len(d) // 2
            if k != 'ret' or r != (int.from_bytes(d[1:1 + h], 'big'), int.from_bytes(d[1 + h:], 'big')):
                return '%s.to_coords of %s: %r' % (cls.__name__, d.hex(), r)
        elif k != 'exc' or not isinstance(r, ValueError):
            return '%s of %s accepted: %r' % (cls.__name__, d.hex(), r)
    return None


def sized(o, n):
    if o.bit_size != 8 * n or o.byte_size != n or type(o.bit_size) is not int or type(o.byte_size) is not int:
        return 'sizes %r bits, %r bytes, not %d' % (o.bit_size, o.byte_size, n)


def rsa_pub(m):
    return keys.RSAPublicKey({'modulus': m, 'public_exponent': 3})


def rsa_priv(m):
    return keys.RSAPrivateKey(dict(version=0, modulus=m, public_exponent=3, private_exponent=m - 1, prime1=m // 3, prime2=3, exponent1=1,
                                   exponent2=1, coefficient=1))


def chk_rsa(m):
    n = octets(m)
    for a in ('rsa', 'rsassa_pss'):
        for o in (keys.PublicKeyInfo.wrap(rsa_pub(m), a), keys.PrivateKeyInfo.wrap(rsa_priv(m), a)):
            for x in (o, type(o).load(o.dump())):
                r = sized(x, n)
                if r:
                    return '%s %s of %d: %s' % (a, type(o).__name__, m, r)
    o = keys.PublicKeyInfo({'algorithm': {'algorithm': 'rsaes_oaep'}, 'public_key': rsa_pub(m)})
    r = sized(keys.PublicKeyInfo.load(o.dump()), n)
    return r and 'rsaes_oaep of %d: %s' % (m, r)


def chk_dsa(case):
    p, q = case
    params = {'p': p, 'q': q, 'g': 2}
    pub = keys.PublicKeyInfo({'algorithm': {'algorithm': 'dsa', 'parameters': keys.DSAParams(params)}, 'public_key': core.Integer(5)})
    priv = keys.PrivateKeyInfo.wrap(keys.DSAPrivateKey(dict(params, version=0, public_key=5, private_key=3)), 'dsa')
    for o in (pub, priv):
        for x in (o, type(o).load(o.dump())):
            r = sized(x, octets(p))
            if r:
                return 'DSA %d: %s' % (p, r)
            h = 'sha1' if q.bit_length() <= 160 else 'sha2'
            if x.hash_algo != h:
                return 'hash_algo with q = %d: %s' % (q, x.hash_algo)
    if keys.DSAParams(params).q_byte_size != octets(q):
        return 'q_byte_size of %d: %d' % (q, keys.DSAParams(params).q_byte_size)
    return None


def domain(order):
    return keys.SpecifiedECDomain({'version': 1, 'field_id': {'field_type': 'prime_field', 'parameters': core.Integer(23)},
                                   'curve': {'a': b'\x01', 'b': b'\x01'}, 'base': b'\x04\x01\x02', 'order': order})


def chk_order(case):
    order, private = case
    n = octets(order)
    p = keys.ECDomainParameters('specified', domain(order))
    if p.key_size != n or type(p.key_size) is not int:
        return 'key_size of order %d: %r' % (order, p.key_size)
    priv = keys.PrivateKeyInfo.wrap(keys.ECPrivateKey({'version': 1, 'private_key': private % order, 'parameters': p}), 'ec')
    for x in (priv, keys.PrivateKeyInfo.load(priv.dump())):
        r = sized(x, n)
        if r:
            return 'EC private key with order %d: %s' % (order, r)
    k, r = attempt(lambda: keys.ECDomainParameters('implicit_ca', core.Null()).key_size)
    return None if k == 'exc' and isinstance(r, ValueError) else 'implicit_ca has a size'


def chk_curve(case):
    name, oid, n, private = case
    if keys.NamedCurve(name).dotted != oid or keys.NamedCurve(oid).native != name:
        return '%s is %s' % (name, keys.NamedCurve(name).dotted)
    p = keys.ECDomainParameters('named', name)
    if p.key_size != n:
        return 'key_size of %s: %r' % (name, p.key_size)
    priv = keys.PrivateKeyInfo.wrap(keys.ECPrivateKey({'version': 1, 'private_key': private, 'parameters': p}), 'ec')
    for x in (priv, keys.PrivateKeyInfo.load(priv.dump())):
        r = sized(x, n)
        if r:
            return 'private key on %s: %s' % (name, r)
    for x, y in ((private, 1), (1, private)):
        w = max(octets(x), octets(y))
        q = keys.PublicKeyInfo({'algorithm': {'algorithm': 'ec', 'parameters': p}, 'public_key': keys.ECPointBitString.from_coords(x, y)})
        q = keys.PublicKeyInfo.load(q.dump())
        r = sized(q, w)
        if r or q['public_key'].to_coords() != (x, y):
            return 'public key (%d, %d): %s' % (x, y, r)
    for tag in (b'\x02', b'\x03'):
        q = keys.PublicKeyInfo({'algorithm': {'algorithm': 'ec', 'parameters': p}, 'public_key': tag + bytes(n)})
        r = sized(q, n)
        if r:
            return 'compressed public key: %s' % r
    return None


def chk_unsized(name):
    for o in (lambda: keys.PublicKeyInfo({'algorithm': {'algorithm': name}, 'public_key': bytes(32)}),
              lambda: keys.PrivateKeyInfo({'version': 0, 'private_key_algorithm': {'algorithm': name}, 'private_key': bytes(32)})):
        k, x = attempt(o)
        if k != 'ret':
            continue
        k, r = attempt(lambda: x.bit_size)
        if k != 'exc' or not isinstance(r, ValueError):
            return '%s: size %r' % (name, r)
    return None


def integers(rng, lo=0, big=600):
    """magnitudes at and around powers of two and octet boundaries"""
    r = rng.random()
    if r < .25:
        v = rng.choice([0, 1, 2, 127, 128, 129, 255, 256, 257, 65535, 65536])
    elif r < .7:
        v = (1 << rng.choice([8 * rng.randrange(1, 70), rng.randrange(1, big)])) + rng.choice([-1, 0, 1, -2, 2, 1 << rng.randrange(0, 40)])
    else:
        v = rng.getrandbits(rng.randrange(1, big))
    return max(lo, abs(v))


class Signatures(Bounded):
    name = 'P1363 signatures: to and from, with and without a width'
    rule = 'integers at and around powers of two, widths around the necessary one; byte strings of every length to 40; distinct: the case'
    seconds = 10

    def cases(self, rng, tier):
        for n in range(41):
            yield ('from', bytes(n))
            yield ('from', bytes([255]) * n)
            yield ('from', bytes(rng.randrange(256) for _ in range(n)))
        while True:
            r, s = integers(rng), integers(rng)
            w = max(octets(r), octets(s))
            yield ('to', (r, s, rng.choice([None, w - 1, w, w + 1, w + 30, 0, 1])))

    def oracle(self, case):
        return chk_from(case[1]) if case[0] == 'from' else chk_sig(case[1])


class Points(Bounded):
    name = 'EC points: to and from coordinates'
    rule = 'pairs of integers at and around powers of two, all first octets with all lengths to 10; distinct: the case'
    seconds = 10

    def cases(self, rng, tier):
        for f in range(256):
            for n in range(0, 10):
                yield ('from', bytes([f]) + bytes(rng.randrange(256) for _ in range(n)))
        yield ('from', b'')
        for x in (0, 1, 255, 256, 257, 65535, 65536):
            for y in (0, 1, 255, 256, 257):
                yield ('to', (x, y))
        while True:
            yield ('to', (integers(rng), integers(rng)))

    def oracle(self, case):
        return chk_coords(case[1]) if case[0] == 'from' else chk_point(case[1])


class Sizes(Bounded):
    name = 'sizes of RSA, DSA and EC keys'
    rule = 'moduli, primes and orders at and around powers of two up to 4200 bits; every named curve; distinct: the case'
    seconds = 14

    def cases(self, rng, tier):
        for n in ('ed25519', 'ed448', 'x25519', 'x448'):
            yield ('none', n)
        for name, oid, n in CURVES:
            for v in (1, 5, 1 << 8 * (n - 2), (1 << 8 * n - 8) - 1):
                yield ('curve', (name, oid, n, v))
        for b in (160, 512, 1024, 2048, 4096, 192, 256):
            for d in (-1, 0, 1, 1 << 80, -(1 << 80)):
                yield ('order', ((1 << b) + d, 5))
                yield ('rsa', (1 << b) + d)
                yield ('dsa', ((1 << b) + d, (1 << 160) + d))
        while True:
            k = rng.choice(['order', 'rsa', 'dsa'])
            if k == 'order':
                yield (k, (integers(rng, 2), integers(rng)))
            elif k == 'rsa':
                yield (k, integers(rng, 4, 4200))
            else:
                yield (k, (integers(rng, 1, 3100), integers(rng, 1, 300)))

    def oracle(self, case):
        return {'order': chk_order, 'rsa': chk_rsa, 'dsa': chk_dsa, 'curve': chk_curve, 'none': chk_unsized}[case[0]](case[1])


# ------------------------------------------------------------------------------------------ verified units
def value(it, v):
    return bound(it.ctx.u256(v))


def minimal(it, n, v):
    """n is the number of octets of v, at least one"""
    c = it.ctx
    return z3.And(n >= 1, v < bound(c.p256(n)), z3.Or(n == 1, v >= bound(c.p256(simp(n - 1)))))


class FromP1363(Unit):
    name = 'DSASignature.from_p1363: the two halves, for every byte string'
    targets = ('asn1crypto.algos.DSASignature.from_p1363',)
    covers = ('odd', 'even')

    def run(self, it):
        c = it.ctx
        d = c.in_bytes('data', 0)
        n = bound(blen(d))
        k, o = outcome(it, algos.DSASignature.from_p1363, d)
        if k == 'exc':
            c.cover('odd')
            c.prove('only uneven lengths are refused', n % 2 == 1)
            c.prove('with ValueError', isinstance(o, ValueError))
            return
        c.prove('uneven lengths are refused', n % 2 == 0)
        c.cover('even')
        c.prove('a signature', isinstance(o, algos.DSASignature))
        for f, a, b in (('r', 0, n / 2), ('s', n / 2, n)):
            k, x = getk(it, o, f)
            k, v = getp(it, x, 'native') if k == 'ret' else (k, x)
            c.prove('%s is read' % f, k == 'ret' and is_int(v))
            c.prove('%s is its half' % f, Z(v) == value(it, slc(it, d, simp(a) if not isinstance(a, int) else a, simp(b))))

    def oracle(self, i):
        return chk_from(i['data'])


class FillWidth(Unit):
    """any width: induction over the loop, the state being the bytes given with zeros before them"""
    name = 'fill_width: zeros up to the width, for every byte string and width'
    targets = ('asn1crypto._int.fill_width',)
    covers = ('end',)

    def run(self, it):
        c = it.ctx
        b = c.in_bytes('bytes', 0)
        w = c.in_int('width', 0, 1 << 40)
        n = bound(blen(b))
        st = {}
        phase = c.choose(2)

        def handler(it_, node, fr, seq):
            if fr.qualname.split('.')[-1] != 'fill_width' or not isinstance(node, ast.While):
                return MISSING
            mod = [m for m in assigned_names(node.body) if is_bytes(fr.locals.get(m))]
            if len(mod) != 1 or st:
                raise Unsupported('the loop has another form')
            c.prove('the loop begins with the bytes given', beq(it, fr.locals[mod[0]], b))
            k = c.fresh_int('zeros').z
            c.fact(k >= 0)
            fr.locals[mod[0]] = mkbytes((Rep(0, k),) + tuple(atoms_of(b)))
            st['k'] = k
            # the invariant: no more zeros than needed
            c.assume(z3.Or(k == 0, k + n <= w.z))
            goes = it.truth(it.eval(node.test, fr))
            if phase == 0:
                c.assume(bool(goes))
                r = it.exec_block(node.body, fr)
                x = fr.locals[mod[0]]
                c.prove('one more zero', beq(it, x, mkbytes((Rep(0, simp(k + 1)),) + tuple(atoms_of(b)))))
                c.prove('goes on', r is None or r[0] == 'continue')
                c.prove('not beyond the width', k + 1 + n <= w.z)
                raise PathEndNow()
            c.assume(not goes)
            return None

        it.loop_handlers.append(handler)
        try:
            k, r = outcome(it, _int.fill_width, b, w)
        except PathEndNow:
            return
        if not st:
            # no loop: the result speaks for itself
            st['k'] = z3.If(w.z > n, w.z - n, z3.IntVal(0))
        c.prove('returns', k == 'ret' and is_bytes(r))
        need = z3.If(w.z > n, w.z - n, z3.IntVal(0))
        c.prove('the width', bound(blen(r)) == z3.If(w.z > n, w.z, n))
        c.prove('zeros, then the bytes', beq(it, r, mkbytes((Rep(0, simp(need)),) + tuple(atoms_of(b)))))

    def oracle(self, i):
        b, w = i['bytes'], i['width']
        if w > 10 ** 5:
            return None
        return None if _int.fill_width(b, w) == b.rjust(w, b'\0') else 'fill_width(%r, %d)' % (b, w)


def fill_contract(it, f, args, kwargs):
    a = names_bound(f, args, kwargs)
    if a is None or not is_bytes(a['bytes_']):
        return MISSING
    c = it.ctx
    b, w = a['bytes_'], Z(a['width'])
    n = bound(blen(b))
    if c.branch(w <= n):
        return b
    return mkbytes((Rep(0, simp(w - n)),) + tuple(atoms_of(b)))


FILL = {'asn1crypto._int.fill_width': fill_contract}


class ToP1363(Unit):
    targets = ('asn1crypto.algos.DSASignature.to_p1363',)
    covers = ('end',)
    assumptions = ('contract of fill_width (FillWidth)',)

    def __init__(self, wide):
        self.wide = wide
        self.name = 'DSASignature.to_p1363: equal halves with r and s, for every pair of integers' + (' and every width' if wide else '')
        self.covers = ('refused', 'end') if wide else ('end',)

    def run(self, it):
        c = it.ctx
        r, s = c.in_int('r', 0), c.in_int('s', 0)
        it.contracts = FILL
        k, o = outcome(it, algos.DSASignature, {'r': r, 's': s})
        c.prove('constructed', k == 'ret')
        a = ()
        if self.wide:
            w = c.in_int('width', 0, 1 << 30)
            a = (w,)
        k, x = meth(it, o, 'to_p1363', *a)
        nr = c.fresh_int('octets of r').z
        ns = c.fresh_int('octets of s').z
        c.fact(minimal(it, nr, r.z))
        c.fact(minimal(it, ns, s.z))
        need = z3.If(nr > ns, nr, ns)
        if k == 'exc':
            c.cover('refused')
            c.prove('refused only when the width is too small', w.z < need if self.wide else False)
            c.prove('with ValueError', isinstance(x, ValueError))
            return
        c.prove('bytes', is_bytes(x))
        n = bound(blen(x))
        W = w.z if self.wide else need
        if self.wide:
            c.prove('accepted only when it fits', z3.And(r.z < bound(c.p256(w.z)), s.z < bound(c.p256(w.z))))
        c.prove('two halves', n == 2 * W)
        c.prove('r', value(it, slc(it, x, 0, simp(W))) == r.z)
        c.prove('s', value(it, slc(it, x, simp(W), simp(2 * W))) == s.z)

    def oracle(self, i):
        if i.get('width', 0) > 10 ** 5:
            return None
        return chk_sig((i['r'], i['s'], i.get('width')))


class FromCoords(Unit):
    targets = ('asn1crypto.keys._ECPoint.from_coords', 'asn1crypto.keys._ECPoint.to_coords')
    covers = ('end',)

    def __init__(self, cls):
        self.cls = cls
        self.name = '%s.from_coords: read back by to_coords, for every pair of coordinates' % cls

    def run(self, it):
        c = it.ctx
        x, y = c.in_int('x', 0), c.in_int('y', 0)
        cls = getattr(keys, self.cls)
        k, p = outcome(it, cls.from_coords, x, y)
        c.prove('encoded', k == 'ret' and isinstance(p, cls))
        k, b = getp(it, p, 'native')
        c.prove('bytes', k == 'ret' and is_bytes(b))
        c.prove('uncompressed', z3.And(bound(blen(b)) % 2 == 1, bound(blen(b)) >= 3, at(it, b, 0) == 4))
        w = simp((bound(blen(b)) - 1) / 2)
        c.prove('x', value(it, slc(it, b, 1, simp(w + 1))) == x.z)
        c.prove('y', value(it, slc(it, b, simp(w + 1))) == y.z)
        k, r = meth(it, p, 'to_coords')
        c.prove('read back', k == 'ret' and isinstance(r, tuple) and len(r) == 2)
        c.prove('x is read back', Z(r[0]) == x.z)
        c.prove('y is read back', Z(r[1]) == y.z)

    def oracle(self, i):
        return chk_point((i['x'], i['y']))

    def gen(self, rng):
        return {'x': integers(rng), 'y': integers(rng)}


class ToCoords(Unit):
    targets = ('asn1crypto.keys._ECPoint.to_coords',)
    covers = ('read', 'refused')

    def __init__(self, cls):
        self.cls = cls
        self.name = '%s.to_coords: the halves of an uncompressed point, everything else refused, for every byte string' % cls

    def run(self, it):
        c = it.ctx
        d = c.in_bytes('data', 0)
        n = bound(blen(d))
        k, o = outcome(it, getattr(keys, self.cls), d)
        c.prove('constructed', k == 'ret')
        k, r = meth(it, o, 'to_coords')
        good = z3.And(n >= 3, n % 2 == 1)
        if k == 'exc':
            c.cover('refused')
            c.prove('refused with ValueError', isinstance(r, ValueError))
            if c.branch(good):
                c.prove('uncompressed points are read', at(it, d, 0) != 4)
            return
        c.cover('read')
        c.prove('other points are refused', good)
        c.prove('other formats are refused', at(it, d, 0) == 4)
        c.prove('two coordinates', isinstance(r, tuple) and len(r) == 2)
        h = simp((n - 1) / 2)
        c.prove('x', Z(r[0]) == value(it, slc(it, d, 1, simp(h + 1))))
        c.prove('y', Z(r[1]) == value(it, slc(it, d, simp(h + 1))))

    def oracle(self, i):
        return chk_coords(i['data'])


class Size(Unit):
    """the object is built with a stand-in number whose value is then replaced by an arbitrary one"""
    covers = ('end',)

    def __init__(self, what, build, find, sizes, oracle, targets):
        self.build, self.find, self.sizes, self.check, self.targets = build, find, sizes, oracle, targets
        self.name = 'size: %s, for every value' % what

    def run(self, it):
        c = it.ctx
        o = self.build()
        v = c.in_int('value', 1)
        k, r = meth(it, self.find(o), 'set', v)
        c.prove('set', k == 'ret')
        n = c.fresh_int('octets').z
        c.fact(minimal(it, n, v.z))
        k, bl = meth(it, v, 'bit_length')
        c.fact((Z(bl) <= 160) == (v.z < 2 ** 160))
        it.contracts = {'asn1crypto.parser._dump_header': lambda it_, f, a, kw: c.fresh_bytes('header', 2)}
        for name, f in self.sizes.items():
            k, s = getp(it, o, name)
            c.prove('%s is reported' % name, k == 'ret' and (is_int(s) or isinstance(s, str)))
            if isinstance(s, str):
                c.prove('hash family', (v.z < 2 ** 160) == z3.BoolVal(s == 'sha1'))
            else:
                c.prove('%s is exact' % name, Z(s) == f * n)

    def oracle(self, i):
        return self.check(i['value'])

    def gen(self, rng):
        return {'value': integers(rng, 1)}


BOTH = {'bit_size': 8, 'byte_size': 1}
K = 'asn1crypto.keys.'
DP = {'p': 23, 'q': 11, 'g': 2}


def dsa_pub():
    return keys.PublicKeyInfo({'algorithm': {'algorithm': 'dsa', 'parameters': keys.DSAParams(DP)}, 'public_key': core.Integer(5)})


def dsa_priv():
    return keys.PrivateKeyInfo.wrap(keys.DSAPrivateKey(dict(DP, version=0, public_key=5, private_key=3)), 'dsa')


PUBSIZE, PRIVSIZE = (K + 'PublicKeyInfo.bit_size', K + 'PublicKeyInfo.byte_size'), (K + 'PrivateKeyInfo.bit_size', K + 'PrivateKeyInfo.byte_size')
UNITS = [
    FromP1363, FillWidth, ToP1363(False), ToP1363(True), FromCoords('ECPoint'), FromCoords('ECPointBitString'), ToCoords('ECPoint'),
    ToCoords('ECPointBitString'),
    Size('RSA public key', lambda: keys.PublicKeyInfo.wrap(rsa_pub(77), 'rsa'), lambda o: o['public_key'].parsed['modulus'], BOTH,
         lambda v: chk_rsa(max(v, 4)), PUBSIZE),
    Size('RSASSA-PSS public key', lambda: keys.PublicKeyInfo.wrap(rsa_pub(77), 'rsassa_pss'), lambda o: o['public_key'].parsed['modulus'],
         BOTH, lambda v: chk_rsa(max(v, 4)), PUBSIZE),
    Size('RSA private key', lambda: keys.PrivateKeyInfo.wrap(rsa_priv(77), 'rsa'), lambda o: o['private_key'].parsed['modulus'], BOTH,
         lambda v: chk_rsa(max(v, 4)), PRIVSIZE),
    Size('DSA public key', dsa_pub, lambda o: o['algorithm']['parameters']['p'], BOTH, lambda v: chk_dsa((v, 11)), PUBSIZE),
    Size('DSA private key', dsa_priv, lambda o: o['private_key_algorithm']['parameters']['p'], BOTH, lambda v: chk_dsa((v, 11)), PRIVSIZE),
    Size('hash family of a DSA public key', dsa_pub, lambda o: o['algorithm']['parameters']['q'], {'hash_algo': 0}, lambda v: chk_dsa((23, v)),
         (K + 'PublicKeyInfo.hash_algo',)),
    Size('hash family of a DSA private key', dsa_priv, lambda o: o['private_key_algorithm']['parameters']['q'], {'hash_algo': 0},
         lambda v: chk_dsa((23, v)), (K + 'PrivateKeyInfo.hash_algo',)),
    Size('DSA subgroup order', lambda: keys.DSAParams(DP), lambda o: o['q'], {'q_byte_size': 1}, lambda v: chk_dsa((23, v)),
         (K + 'DSAParams.q_byte_size',)),
    Size('specified EC domain', lambda: keys.ECDomainParameters('specified', domain(23)), lambda o: o.chosen['order'], {'key_size': 1},
         lambda v: chk_order((v, 0)), (K + 'ECDomainParameters.key_size',)),
]
BOUNDED = [Signatures, Points, Sizes]
