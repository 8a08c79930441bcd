"""C18: IP addresses and CIDR ranges in names encode to address and mask octets and back."""
import socket
from .common import *  # noqa
from asn1crypto import _inet
from oracle import x690

ASSUME = ('socket.inet_pton/inet_ntop: text and octets of an address correspond (checked against an independent reference '
          'in the bounded part)',)


def mask(n, k):
    """mask octets of prefix k for an address of n octets"""
    v = ((1 << k) - 1) << (8 * n - k)
    return v.to_bytes(n, 'big')


class Native(Unit):
    """every address with every prefix: octets to text"""
    targets = ('asn1crypto.x509.IPAddress.native',)
    covers = ('no mask', 'mask')
    max_paths = 2000
    assumptions = ASSUME

    def __init__(self, n):
        self.n = n
        self.name = 'IPAddress.native: every %d-octet address, every prefix' % n

    def run(self, it):
        c = it.ctx
        n = self.n
        addr = c.in_bytes('address', n=n)
        k = c.choose(8 * n + 2) - 1
        c.input('prefix', k)
        con = addr if k < 0 else concat(addr, mask(n, k))
        text = SStr([OpaqueText('address text', None)])
        fam = {4: socket.AF_INET, 16: socket.AF_INET6}[n]

        def ntop(it_, family, packed):
            c.prove('family', family == fam)
            c.prove('the address octets are shown', is_bytes(packed) and beq(it, packed, addr))
            return text
        it.native_contracts = {socket.inet_ntop: ntop}
        o = x509.IPAddress()
        it.setattr(o, 'contents', con)
        r, v = getp(it, o, 'native')
        c.cover('mask' if k >= 0 else 'no mask')
        c.prove('accepted', r == 'ret')
        want = text if k < 0 else it.models.str_concat(it, [text, '/%d' % k])
        c.prove('text', Z(it.models.eq(it, v, want)))
        r, v = outcome(it, bytes, o)
        c.prove('bytes()', r == 'ret' and is_bytes(v) and beq(it, v, con))

    def oracle(self, i):
        a = i['address']
        return chk_octets(a + (mask(len(a), i['prefix']) if i['prefix'] >= 0 else b''))


class Lengths(Unit):
    """octet strings of any other length"""
    name = 'IPAddress.native: any other length is refused'
    targets = ('asn1crypto.x509.IPAddress.native',)

    def run(self, it):
        c = it.ctx
        con = c.in_bytes('octets', 0)
        n = bound(blen(con))
        c.assume(z3.And(n != 4, n != 8, n != 16, n != 32))
        o = x509.IPAddress()
        it.setattr(o, 'contents', con)
        r, v = getp(it, o, 'native')
        c.prove('refused', r == 'exc' and isinstance(v, ValueError))

    def oracle(self, i):
        return chk_octets(i['octets'])


class Set(Unit):
    """every address (the octets inet_pton reports for it) with every prefix, in and out of range"""
    targets = ('asn1crypto.x509.IPAddress.set',)
    covers = ('no prefix', 'prefix', 'out of range')
    max_paths = 3000
    assumptions = ASSUME

    def __init__(self, n, sample):
        self.n, self.sample = n, sample
        self.name = 'IPAddress.set: every %d-octet address, every prefix' % n

    def run(self, it):
        c = it.ctx
        n = self.n
        k = c.choose(8 * n + 20) - 3
        c.input('prefix', k)
        addr = c.in_bytes('address', n=n)
        fam = {4: socket.AF_INET, 16: socket.AF_INET6}[n]
        text = self.sample + ('' if k == -3 else '/%d' % k)

        def pton(it_, family, t):
            c.prove('family', family == fam)
            c.prove('the address text is encoded', t == self.sample)
            return addr
        it.native_contracts = {socket.inet_pton: pton}
        hist = c.choose(3)
        o = x509.IPAddress() if not hist else x509.IPAddress.load(
            [None, b'\x04\x04\x01\x02\x03\x04', b'\x24\x80\x04\x02\x01\x02\x04\x02\x03\x04\0\0'][hist])
        if hist:
            o.native, bytes(o), o.dump()
        r, v = meth(it, o, 'set', text)
        if k != -3 and not 0 <= k <= 8 * n:
            c.cover('out of range')
            c.prove('refused with ValueError', r == 'exc' and isinstance(v, ValueError))
            c.prove('a refused value changes nothing', not hist or (bytes(o) == b'\x01\x02\x03\x04' and o.native == '1.2.3.4'))
            return
        c.cover('no prefix' if k == -3 else 'prefix')
        c.prove('accepted', r == 'ret')
        want = addr if k == -3 else concat(addr, mask(n, k))
        con = it.getattr(o, 'contents')
        c.prove('contents: address octets, then mask octets', is_bytes(con) and beq(it, con, want))
        r, v = outcome(it, bytes, o)
        c.prove('bytes()', r == 'ret' and is_bytes(v) and beq(it, v, want))
        r, v = getp(it, o, 'native')
        c.prove('native', r == 'ret' and Z(it.models.eq(it, v, text)))
        c.prove('definite', o.__dict__.get('_indefinite', False) is False and o.__dict__.get('_header') is None)

    def oracle(self, i):
        t = socket.inet_ntop({4: socket.AF_INET, 16: socket.AF_INET6}[self.n], i['address'])
        return chk_text(t + ('' if i['prefix'] == -3 else '/%d' % i['prefix']))


class Equal(Unit):
    name = 'IPAddress ==: exactly when the octets are equal'
    targets = ('asn1crypto.x509.IPAddress.__eq__', 'asn1crypto.x509.IPAddress.__ne__')

    def run(self, it):
        c = it.ctx
        a, b = c.in_bytes('a', 0), c.in_bytes('b', 0)
        x, y = x509.IPAddress(), x509.IPAddress()
        it.setattr(x, 'contents', a)
        it.setattr(y, 'contents', b)
        r, v = outcome(it, lambda p, q: p == q, x, y) if False else meth(it, x, '__eq__', y)
        c.prove('equal', r == 'ret' and Z(v) == beq(it, a, b))
        r, v = meth(it, x, '__ne__', y)
        c.prove('unequal', r == 'ret' and Z(v) == z3.Not(beq(it, a, b)))

    def oracle(self, i):
        a, b = [x509.IPAddress.load(x690.emit(0, 0, 4, x)) for x in (i['a'], i['b'])]
        if (a == b) != (i['a'] == i['b']) or (a != b) != (i['a'] != i['b']):
            return 'IP addresses %s and %s compare %r' % (i['a'].hex(), i['b'].hex(), a == b)


# ---- reference

def ref_v4(t):
    p = t.split('.')
    if len(p) != 4:
        return None
    out = []
    for x in p:
        if not x or len(x) > 3 or any(ch not in '0123456789' for ch in x) or (len(x) > 1 and x[0] == '0') or int(x) > 255:
            return None
        out.append(int(x))
    return bytes(out)


def ref_v6(t):
    if t.count('::') > 1 or ':::' in t:
        return None
    tail = b''
    if '.' in t:
        i = t.rfind(':')
        v4 = ref_v4(t[i + 1:])
        if v4 is None or i < 0:
            return None
        tail, t = v4, t[:i + 1] + '%x:%x' % (v4[0] * 256 + v4[1], v4[2] * 256 + v4[3])

    def groups(s):
        if s == '':
            return []
        r = []
        for g in s.split(':'):
            if not 1 <= len(g) <= 4 or any(ch not in '0123456789abcdefABCDEF' for ch in g):
                return None
            r.append(int(g, 16))
        return r
    if '::' in t:
        a, b = t.split('::')
        a, b = groups(a), groups(b)
        if a is None or b is None or len(a) + len(b) > 7:
            return None
        g = a + [0] * (8 - len(a) - len(b)) + b
    else:
        g = groups(t)
        if g is None or len(g) != 8:
            return None
    return b''.join(bytes([x >> 8, x & 255]) for x in g)


def ref_text(t):
    """octets of an address with optional prefix; None: malformed"""
    a, slash, p = t.partition('/')
    o = ref_v6(a) if ':' in a else ref_v4(a)
    if o is None:
        return None
    if slash:
        if not p or any(ch not in '0123456789' for ch in p) or int(p) > 8 * len(o):
            return None
        o += mask(len(o), int(p))
    return o


def decode(o):
    """(address octets, prefix) or None"""
    if len(o) not in (4, 8, 16, 32):
        return None
    if len(o) in (4, 16):
        return o, None
    n = len(o) // 2
    for k in range(8 * n + 1):
        if o[n:] == mask(n, k):
            return o[:n], k
    return None


def chk_text(t):
    want = ref_text(t)
    for o in (x509.IPAddress(), x509.IPAddress('10.0.0.0/8'), x509.IPAddress.load(b'\x04\x04\x01\x02\x03\x04'),
              x509.IPAddress.load(b'\x24\x80\x04\x02\x01\x02\x04\x02\x03\x04\0\0'),
              x509.GeneralName('ip_address', '9.9.9.9').chosen):
        o.native
        before = o.contents and (bytes(o), o.native)
        try:
            o.set(t)
        except ValueError as e:
            if want is not None:
                return 'IPAddress refuses %r: %r' % (t, e)
            if before and (bytes(o), o.native) != before:
                return 'a refused %r changed the address to %r' % (t, o.native)
            continue
        if want is None:
            return 'IPAddress accepts %r as %s' % (t, o.contents.hex())
        if o.contents != want or bytes(o) != want:
            return 'IPAddress %r encodes as %s, not %s' % (t, o.contents.hex(), want.hex())
        if o.dump()[-len(want):] != want or o.dump(force=True)[-len(want):] != want or len(o.dump()) != 2 + len(want):
            return 'IPAddress %r dumps as %s' % (t, o.dump().hex())
        for l in (x509.IPAddress.load(x690.emit(0, 0, 4, want)), o, o.copy()):
            if ref_text(l.native) != want or not l == o or l != o:
                return 'IPAddress %r decodes to %r' % (t, l.native)
    return chk_octets(want) if want is not None else None


def chk_octets(b):
    want = decode(b)
    for o in (x509.IPAddress.load(x690.emit(0, 0, 4, b)),
              x509.IPAddress.load(x690.identifier(0, 1, 4) + b'\x80' + x690.emit(0, 0, 4, b[:3]) + x690.emit(0, 0, 4, b[3:]) + b'\0\0')):
        try:
            t = o.native
        except ValueError:
            if want is not None:
                return 'IPAddress octets %s are refused' % b.hex()
            continue
        if want is None:
            return 'IPAddress octets %s are accepted as %r' % (b.hex(), t)
        if ref_text(t) != b or ('/' in t) != (want[1] is not None):
            return 'IPAddress octets %s read as %r' % (b.hex(), t)
        x = x509.IPAddress(t)
        if bytes(x) != b or not x == o or bytes(o) != b:
            return 'IPAddress octets %s read as %r, which encodes as %s' % (b.hex(), t, bytes(x).hex())
        if o.dump(force=True) != x690.emit(0, 0, 4, b):
            return 'IPAddress octets %s are forced to %s' % (b.hex(), o.dump().hex())
        # two addresses compare equal exactly when their octets are
        for j in range(0, len(b), 3):
            y = x509.IPAddress.load(x690.emit(0, 0, 4, b[:j] + bytes([b[j] ^ 1]) + b[j + 1:]))
            if y == o or not y != o:
                return 'IPAddress octets %s equal %s' % (b.hex(), bytes(y).hex())
        g = x509.GeneralName.load(x690.emit(2, 0, 7, b))
        if g.name != 'ip_address' or g.native != t:
            return 'general name of %s reads %r' % (b.hex(), g.native)
    return None


def chk_shim(case):
    """the shim used on Windows"""
    kind, v = case
    if kind == 'octets':
        fam = {4: socket.AF_INET, 16: socket.AF_INET6}[len(v)]
        t = _inet.inet_ntop(fam, v)
        ref = ref_v4(t) if len(v) == 4 else ref_v6(t)
        if ref != v:
            return 'inet_ntop(%s) is %r' % (v.hex(), t)
        if t != socket.inet_ntop(fam, v) and '.' not in socket.inet_ntop(fam, v)[1:]:
            return 'inet_ntop(%s) is %r, not %r' % (v.hex(), t, socket.inet_ntop(fam, v))
        if _inet.inet_pton(fam, t) != v:
            return 'inet_pton(%r) is %s' % (t, _inet.inet_pton(fam, t).hex())
        return
    for fam, ref in ((socket.AF_INET, ref_v4(v)), (socket.AF_INET6, ref_v6(v))):
        if fam == socket.AF_INET6 and '.' in v or fam == socket.AF_INET and any(
                len(x) > 1 and x[0] == '0' for x in v.split('.')):
            continue        # not taken by the shim (dotted tail), or leniently (leading zeros): both harmless
        try:
            got = _inet.inet_pton(fam, v)
        except ValueError:
            got = None
        if got != ref:
            return 'inet_pton(%r) is %r, not %r' % (v, got, ref)


def raddr(rng):
    n = rng.choice([4, 16])
    r = rng.random()
    if r < .3:
        return bytes(rng.choice([0, 0, 0, 255, rng.getrandbits(8)]) for _ in range(n))
    if r < .6 and n == 16:
        return b''.join(rng.choice([b'\0\0', b'\0\0', b'\x00\x01', b'\x20\x01', b'\xff\xff']) for _ in range(8))
    return gen.rbytes(rng, n)


def show(rng, b):
    if len(b) == 4:
        return '.'.join(map(str, b))
    g = ['%x' % (b[i] * 256 + b[i + 1]) for i in range(0, 16, 2)]
    if rng.random() < .3:
        g = [x.zfill(rng.choice([1, 4])) for x in g]
    if rng.random() < .3:
        g = [x.upper() for x in g]
    runs = [(i, j) for i in range(8) for j in range(i + 1, 9) if all(int(x, 16) == 0 for x in g[i:j])]
    if runs and rng.random() < .7:
        i, j = rng.choice(runs)
        return ':'.join(g[:i]) + '::' + ':'.join(g[j:])
    return ':'.join(g)


class Texts(Bounded):
    name = 'address and range texts'
    rule = 'random, boundary and malformed texts, every prefix; distinct by text'
    seconds = 9
    FIXED = ['', '/', '1.2.3.4/', '/8', '1.2.3', '1.2.3.4.5', '1.2.3.256', '1.2.3.-1', '01.2.3.4', '1.2.3.4 ', ' 1.2.3.4', '1.2.3.4/33',
             '1.2.3.4/+8', '1.2.3.4/ 8', '1.2.3.4/8 ', '1.2.3.4/1_0', '1.2.3.4/8/8', '1.2.3.4/x', '::', '::1', '1::', '::/0', '::1/128', '::/129',
             ':', ':::', '1:2:3:4:5:6:7:8', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9', '1::2::3', '12345::', '::fffff', '::g', '::1.2.3.4',
             '::ffff:1.2.3.4', '1:2:3:4:5:6:1.2.3.4', 'fe80::1%1', '1.2.3.4/-0', '1.2.3.4/-1', '::/-1', '0.0.0.0', '0.0.0.0/0', '255.255.255.255/32',
             '1.2.3.4/\u0663', '\u0661.2.3.4', '::\uff11', '1.2.3.4\0', '1:2:3:4:5:6:7::', '::2:3:4:5:6:7:8', '0:0:0:0:0:0:0:0', 'localhost',
             '1.2.3.4/1000000000000', '::1/0x10']

    def cases(self, rng, tier):
        for t in self.FIXED:
            if t != '1.2.3.4/-0':
                yield t
        for k in range(-2, 36):
            yield '192.0.2.1/%d' % k
        for k in range(-2, 132):
            yield '2001:db8::1/%d' % k
        while True:
            b = raddr(rng)
            t = show(rng, b)
            yield t
            yield t + '/%d' % rng.randrange(-1, 8 * len(b) + 3)
            if rng.random() < .3:
                i = rng.randrange(len(t) + 1)
                yield t[:i] + rng.choice(['', ':', '.', '0', 'f', '/', 'g', ' ', '-', '1']) + t[i + rng.randrange(2):]

    def oracle(self, case):
        return chk_text(case)


class Octets(Bounded):
    name = 'address octets'
    rule = 'lengths 0-40, every valid mask, masks one bit off, random; distinct by octets'
    seconds = 8

    def cases(self, rng, tier):
        for n in range(41):
            yield bytes(range(n))
            yield b'\xff' * n
            yield bytes(n)
        for n in (4, 16):
            for k in range(8 * n + 1):
                m = mask(n, k)
                yield bytes(range(1, n + 1)) + m
                for bit in {0, 1, k - 1, k, k + 1, 8 * n - 1, rng.randrange(8 * n)}:
                    if 0 <= bit < 8 * n:
                        v = int.from_bytes(m, 'big') ^ (1 << (8 * n - 1 - bit))
                        yield bytes(n) + v.to_bytes(n, 'big')
        while True:
            b = raddr(rng)
            yield b
            yield b + mask(len(b), rng.randrange(8 * len(b) + 1))
            yield b + gen.rbytes(rng, len(b))
            yield gen.rbytes(rng, rng.randrange(40))

    def oracle(self, case):
        return chk_octets(case)


class Shim(Bounded):
    name = 'the Windows address shim'
    rule = 'random and boundary addresses and texts; distinct by input'
    seconds = 6

    def cases(self, rng, tier):
        for t in Texts.FIXED:
            yield 'text', t.split('/')[0]
        while True:
            b = raddr(rng)
            yield 'octets', b
            t = show(rng, b)
            yield 'text', t
            i = rng.randrange(len(t) + 1)
            yield 'text', t[:i] + rng.choice(['', ':', '.', '0', 'f', 'g', ' ', '-', '1']) + t[i + rng.randrange(2):]

    def oracle(self, case):
        return chk_shim(case)


UNITS = [Native(4), Native(16), Lengths, Set(4, '192.0.2.7'), Set(16, '2001:db8::7'), Equal]
BOUNDED = [Texts, Octets, Shim]
