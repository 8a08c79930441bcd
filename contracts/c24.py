"""C24: key containers wrap and unwrap keys without changing them."""
import hashlib
from .common import *  # noqa
from . import symstruct
from oracle import der, schema
from oracle.curves import CURVES
from oracle.algs import PKCS1, PSS_OID, NULLS

DSA_OID, EC_OID = '1.2.840.10040.4.1', '1.2.840.10045.2.1'
RAW = {'x25519': '1.3.101.110', 'x448': '1.3.101.111', 'ed25519': '1.3.101.112', 'ed448': '1.3.101.113'}
PRIME, TWO = '1.2.840.10045.1.1', '1.2.840.10045.1.2'
ints = lambda *v: b''.join(der.integer(x) for x in v)
octets = lambda v: max(1, (v.bit_length() + 7) // 8)
RSA_FIELDS = ('modulus', 'public_exponent', 'private_exponent', 'prime1', 'prime2', 'exponent1', 'exponent2', 'coefficient')


def tried(f):
    try:
        return 'ret', f()
    except (ValueError, TypeError) as e:
        return 'exc', e


# ------------------------------------------------------------------------------------------ keys: (library value, encoding, algorithm, ...)
def rsa_private(v, others=()):
    d = dict(zip(RSA_FIELDS, v), version='multi' if others else 'two-prime')
    wire = der.integer(1 if others else 0) + ints(*v)
    if others:
        d['other_prime_infos'] = [dict(zip(('prime', 'exponent', 'coefficient'), o)) for o in others]
        wire += der.seq(*[der.seq(ints(*o)) for o in others])
    return keys.RSAPrivateKey(d), der.seq(wire)


def dsa_private(v):
    """p q g y x"""
    return (keys.DSAPrivateKey(dict(zip(('p', 'q', 'g', 'public_key', 'private_key'), v), version=0)), der.seq(ints(0, *v)))


def ec_params(which, order=None):
    if which is None:
        return None, b'', None
    if which == 'implicit_ca':
        return keys.ECDomainParameters('implicit_ca', core.Null()), der.NULL, None
    if which == 'specified':
        n = octets(order)
        w = der.seq(ints(1), der.seq(der.oid(PRIME), ints(23)), der.seq(der.octets(b'\1'), der.octets(b'\2')), der.octets(b'\4\1\2'), ints(order))
        o = keys.ECDomainParameters('specified', keys.SpecifiedECDomain({
            'version': 1, 'field_id': {'field_type': 'prime_field', 'parameters': core.Integer(23)}, 'curve': {'a': b'\1', 'b': b'\2'},
            'base': b'\4\1\2', 'order': order}))
        return o, w, n
    name, oid, n = CURVES[which]
    return keys.ECDomainParameters('named', name), der.oid(oid), n


def ec_private(d, which, order, pub, first=True):
    """the key, its encoding, the encoding of its parameters and its encoding without them"""
    params, pw, n = ec_params(which, order)
    con = d.to_bytes(max(n or 1, octets(d)), 'big')
    f = {'version': 1, 'private_key': d}
    if params is not None:
        f['parameters'] = params
    if pub is not None:
        f['public_key'] = keys.ECPointBitString(pub)
    tail = der.tlv(0xa1, der.bits(pub)) if pub is not None else b''
    head = ints(1) + der.octets(con)
    if first:
        o = keys.ECPrivateKey(f)
    else:
        o = keys.ECPrivateKey()
        for k in ('public_key', 'parameters', 'private_key', 'version'):
            if k in f:
                o[k] = f[k]
    return o, der.seq(head, der.tlv(0xa0, pw) if params is not None else b'', tail), pw, der.seq(head, tail)


def container(oid, params, key):
    return der.seq(ints(0), der.seq(der.oid(oid), params), der.octets(key))


# ------------------------------------------------------------------------------------------ the contract of wrap
def forms(o, wire, rng):
    """ways to hand the key over"""
    cls = type(o)
    yield 'built', o
    yield 'bytes', wire
    yield 'loaded', cls.load(wire)
    x = cls.load(wire)
    x.native
    x.dump(force=True)
    yield 'read', x
    yield 'copy', o.copy()
    yield 'tagged', o.retag({'implicit': 3})
    yield 'explicit', o.retag({'explicit': 1})


def same_key(a, b, what):
    if type(a) is not type(b):
        return '%s is a %s' % (what, type(a).__name__)
    if a.untag().dump() != b.untag().dump():
        return '%s encodes as %s, not %s' % (what, a.untag().dump().hex(), b.untag().dump().hex())
    if schema.plain(a.native) != schema.plain(b.native):
        return '%s is %r' % (what, a.native)


def chk_container(p, want, algo, key, extra, what):
    """p: the container; want: its encoding; key: the encoding of the key inside"""
    if p.dump() != want:
        return '%s encodes as %s, not %s' % (what, p.dump().hex(), want.hex())
    for n, q in (('', p), ('loaded', type(p).load(want)), ('copied', p.copy()), ('strict', type(p).load(want, strict=True)), ('read', type(p).load(want))):
        if n == 'read':
            q.native
        field = q['private_key'] if 'private_key' in type(q)._field_map else q['public_key']
        if field.parsed.dump() != key:
            return '%s %s holds %s, not %s' % (what, n, field.parsed.dump().hex(), key.hex())
        if q.algorithm != algo:
            return '%s %s has the algorithm %s' % (what, n, q.algorithm)
        for name, v in extra.items():
            r, got = tried(lambda: getattr(q, name))
            if isinstance(v, type):
                if r != 'exc' or not isinstance(got, v):
                    return '%s %s: %s is %r, expected %s' % (what, n, name, got, v.__name__)
            elif r != 'ret' or got != v:
                return '%s %s: %s is %r, expected %r' % (what, n, name, got, v)
        if q.dump() != want or q.dump(force=True) != want or type(q).load(q.dump()).native != q.native:
            return '%s %s is not encoded as it was read' % (what, n)


def chk_rsa(case):
    v, others, pss = case
    o, wire = rsa_private(v, others)
    algo = 'rsassa_pss' if pss else 'rsa'
    w = container(PSS_OID if pss else PKCS1 + '1', b'' if pss else der.NULL, wire)
    size = octets(v[0])
    for n, x in forms(o, wire, None):
        before = x if isinstance(x, bytes) else x.dump()
        p = keys.PrivateKeyInfo.wrap(x, algo)
        r = chk_container(p, w, algo, wire, {'bit_size': size * 8, 'byte_size': size, 'curve': ValueError, 'hash_algo': ValueError}, '%s %s' % (algo, n))
        if r:
            return r
        k = p['private_key'].parsed
        for f, x_ in zip(RSA_FIELDS, v):
            if k[f].native != x_:
                return '%s of the wrapped key is %r' % (f, k[f].native)
        if not isinstance(x, bytes) and x.dump() != before:
            return 'wrapping changes the %s key' % n
    pw = der.seq(ints(v[0], v[1]))
    pub = keys.RSAPublicKey({'modulus': v[0], 'public_exponent': v[1]})
    w = der.seq(der.seq(der.oid(PSS_OID if pss else PKCS1 + '1'), b'' if pss else der.NULL), der.bits(pw))
    for n, x in forms(pub, pw, None):
        before = x if isinstance(x, bytes) else x.dump()
        p = keys.PublicKeyInfo.wrap(x, algo)
        r = chk_container(p, w, algo, pw, {
            'bit_size': size * 8, 'byte_size': size, 'curve': ValueError, 'hash_algo': ValueError, 'sha1': hashlib.sha1(pw).digest(),
            'sha256': hashlib.sha256(pw).digest()}, 'public %s %s' % (algo, n))
        if r:
            return r
        if not isinstance(x, bytes) and x.dump() != before:
            return 'wrapping changes the %s public key' % n


def chk_dsa(case):
    v = case
    o, wire = dsa_private(v)
    params = der.seq(ints(*v[:3]))
    w = container(DSA_OID, params, der.integer(v[4]))
    size = octets(v[0])
    fam = 'sha1' if octets(v[1]) <= 20 else 'sha2'
    for n, x in forms(o, wire, None):
        before = x if isinstance(x, bytes) else x.dump()
        p = keys.PrivateKeyInfo.wrap(x, 'dsa')
        r = chk_container(p, w, 'dsa', der.integer(v[4]), {'bit_size': size * 8, 'byte_size': size, 'curve': ValueError, 'hash_algo': fam}, 'dsa ' + n)
        if r:
            return r
        a = p['private_key_algorithm']['parameters']
        if [a[f].native for f in ('p', 'q', 'g')] != list(v[:3]) or p['private_key'].parsed.native != v[4]:
            return 'dsa %s: parameters %r' % (n, a.native)
        if not isinstance(x, bytes) and x.dump() != before:
            return 'wrapping changes the %s key' % n
    pub = keys.PublicKeyInfo({'algorithm': {'algorithm': 'dsa', 'parameters': keys.DSAParams(dict(zip('pqg', v)))}, 'public_key': core.Integer(v[3])})
    w = der.seq(der.seq(der.oid(DSA_OID), params), der.bits(der.integer(v[3])))
    return chk_container(pub, w, 'dsa', der.integer(v[3]), {'bit_size': size * 8, 'byte_size': size, 'curve': ValueError, 'hash_algo': fam}, 'public dsa')


def chk_ec(case):
    d, which, order, pub, first = case
    o, wire, pw, inner = ec_private(d, which, order, pub, first)
    if o.dump() != wire:
        return 'the EC key encodes as %s, not %s' % (o.dump().hex(), wire.hex())
    n = ec_params(which, order)[2]
    curve = {None: ValueError, 'implicit_ca': ('implicit_ca', None)}.get(which)
    if which == 'specified':
        curve = ('specified', ec_params(which, order)[0].chosen.native)
    elif isinstance(which, int):
        curve = ('named', CURVES[which][0])
    extra = {'curve': curve, 'hash_algo': ValueError}
    extra['bit_size'], extra['byte_size'] = (n or octets(d)) * 8, n or octets(d)
    for name, x in forms(o, wire, None):
        before = x if isinstance(x, bytes) else x.dump()
        p = keys.PrivateKeyInfo.wrap(x, 'ec')
        w = container(EC_OID, pw, inner)
        r = chk_container(p, w, 'ec', inner, extra, 'ec ' + name)
        if r:
            return r
        k = p['private_key'].parsed
        if k['private_key'].native != d or (pub is not None and k['public_key'].native != pub):
            return 'ec %s: the key inside is %r' % (name, k.native)
        if which is not None and p['private_key_algorithm']['parameters'].dump() != pw:
            return 'ec %s: parameters %s' % (name, p['private_key_algorithm']['parameters'].dump().hex())
        if not isinstance(x, bytes) and x.dump() != before:
            return 'wrapping changes the %s key' % name
        # the key taken out and put into another container
        q = keys.PrivateKeyInfo({'version': 0, 'private_key_algorithm': p['private_key_algorithm'], 'private_key': k})
        if q.dump() != w:
            return 'ec %s: wrapped again, encodes as %s' % (name, q.dump().hex())
    if pub is not None and which is not None:
        q = keys.PublicKeyInfo({'algorithm': {'algorithm': 'ec', 'parameters': ec_params(which, order)[0]}, 'public_key': keys.ECPointBitString(pub)})
        w = der.seq(der.seq(der.oid(EC_OID), pw), der.bits(pub))
        extra = {'curve': curve, 'hash_algo': ValueError, 'sha1': hashlib.sha1(pub).digest(), 'sha256': hashlib.sha256(pub).digest()}
        for x in (q, keys.PublicKeyInfo.load(w), q.copy()):
            if x.dump() != w or x.dump(force=True) != w or x['public_key'].native != pub or x.algorithm != 'ec':
                return 'public ec encodes as %s, not %s' % (x.dump().hex(), w.hex())
            for k, v in extra.items():
                r, got = tried(lambda: getattr(x, k))
                if isinstance(v, type) and not (r == 'exc' and isinstance(got, v)) or not isinstance(v, type) and got != v:
                    return 'public ec: %s is %r' % (k, got)


def chk_raw(case):
    algo, priv = case
    oid = RAW[algo]
    inner = der.octets(priv)
    w = container(oid, b'', inner)
    p = keys.PrivateKeyInfo({'version': 0, 'private_key_algorithm': {'algorithm': algo}, 'private_key': core.OctetString(priv)})
    r = chk_container(p, w, algo, inner, {'bit_size': ValueError, 'byte_size': ValueError, 'curve': ValueError, 'hash_algo': ValueError}, algo)
    if r:
        return r
    if p['private_key'].parsed.native != priv:
        return 'the key reads as %r' % p['private_key'].parsed.native
    w = der.seq(der.seq(der.oid(oid)), der.bits(priv))
    p = keys.PublicKeyInfo({'algorithm': {'algorithm': algo}, 'public_key': priv})
    for x in (p, keys.PublicKeyInfo.load(w), p.copy()):
        if x.dump() != w or x.dump(force=True) != w or x['public_key'].native != priv or x.algorithm != algo:
            return '%s public key encodes as %s' % (algo, x.dump().hex())
        for k in ('bit_size', 'byte_size', 'curve', 'hash_algo'):
            r, e = tried(lambda: getattr(x, k))
            if r != 'exc' or not isinstance(e, ValueError):
                return '%s of %s is %r' % (k, algo, e)


# ------------------------------------------------------------------------------------------ refusals
WRONG = [lambda: rsa_private([77, 3, 5, 7, 11, 1, 2, 3])[0], lambda: dsa_private([23, 11, 4, 8, 7])[0], lambda: ec_private(5, 3, None, None)[0],
         lambda: keys.RSAPublicKey({'modulus': 77, 'public_exponent': 3}), lambda: core.Integer(5), lambda: core.OctetString(b'a'), lambda: core.Null(),
         lambda: core.Sequence(), lambda: 5, lambda: 'text', lambda: None, lambda: [], lambda: {'modulus': 5}, lambda: b'', lambda: b'abc', lambda: b'\x30\0',
         lambda: b'\x30\x03\x02\x01', lambda: rsa_private([77, 3, 5, 7, 11, 1, 2, 3])[1], lambda: dsa_private([23, 11, 4, 8, 7])[1],
         lambda: ec_private(5, 3, None, None)[1], lambda: der.seq(ints(77, 3)), lambda: der.integer(5), lambda: der.seq(ints(77, 3, 4))]
RIGHT = {'rsa': (0, 17), 'rsassa_pss': (0, 17), 'dsa': (1, 18), 'ec': (2, 19)}
ALGOS = ['rsa', 'rsassa_pss', 'dsa', 'ec', 'x25519', 'ed25519', 'ed448', 'x448', 'dh', 'rsaes_oaep', 'RSA', '', '1.2.840.113549.1.1.1', None, 5, b'rsa', 'unknown']


def chk_refused(case):
    public, i, algo = case
    x = WRONG[i]()
    cls = keys.PublicKeyInfo if public else keys.PrivateKeyInfo
    ok = (i in (3, 20) and algo in ('rsa', 'rsassa_pss')) if public else i in RIGHT.get(algo if isinstance(algo, str) else '', ())
    r, e = tried(lambda: cls.wrap(x, algo))
    if ok:
        return None if r == 'ret' else '%s refuses a key of its type: %s' % (algo, e)
    if r != 'exc':
        return '%s.wrap(%r, %r) is accepted: %s' % (cls.__name__, x, algo, e.dump().hex())
    if not isinstance(e, ValueError) and x is not None and isinstance(algo, str) and algo not in RIGHT and isinstance(x, (bytes, core.Asn1Value)):
        return 'algorithm %r is refused with %r, not ValueError' % (algo, e)
    if not isinstance(e, TypeError) and not isinstance(x, (bytes, core.Asn1Value)):
        return '%r is refused with %r, not TypeError' % (x, e)


class Refused(Bounded):
    name = 'wrap: keys of the wrong type and unsupported algorithms are refused'
    rule = 'every pair of a value (keys, other values, byte strings, other Python types) and an algorithm; distinct: the case'
    seconds = 5
    exhaustive = True

    def cases(self, rng, tier):
        for public in (0, 1):
            for i in range(len(WRONG)):
                for a in ALGOS:
                    yield public, i, a

    def oracle(self, case):
        return chk_refused(case)


def integer(rng):
    k = rng.choice([1, 7, 8, 9, 15, 16, 63, 64, 127, 128, 160, 161, 255, 256, 511, 512, 1024, 2047, 2048, 4096])
    return max(1, (1 << k) + rng.choice([-1, 0, 1, -2, rng.getrandbits(k)]) - (1 << k) * rng.randrange(2))


class Keys(Bounded):
    name = 'RSA, DSA, EC and raw keys: wrapped in every form, read, copied, encoded again'
    rule = 'integers at and around powers of two; every named curve, specified and missing parameters, small and large private values; distinct: the case'
    seconds = 30

    def cases(self, rng, tier):
        for i, (name, oid, n) in enumerate(CURVES):
            for d in (1, 255, 256, (1 << 8 * n - 8) - 1, 1 << (8 * n - 8), rng.getrandbits(8 * n - 9) + 1):
                yield 'ec', (d, i, None, rng.choice([None, b'\4' + gen.rbytes(rng, 2 * n)]), rng.randrange(2))
        while True:
            v = [integer(rng) for _ in range(8)]
            yield 'rsa', (v, [[integer(rng) for _ in range(3)] for _ in range(rng.choice([0, 0, 0, 1, 2, 5]))], rng.randrange(2))
            yield 'dsa', [integer(rng) for _ in range(5)]
            order = integer(rng)
            pub = rng.choice([None, b'\4' + gen.rbytes(rng, 2 * rng.randrange(1, 70)), b'\2' + gen.rbytes(rng, 32)])
            yield 'ec', (rng.randrange(1, max(2, order)), 'specified', order, pub, rng.randrange(2))
            yield 'ec', (integer(rng), rng.choice([None, 'implicit_ca']), None, pub, rng.randrange(2))
            yield 'ec', (rng.randrange(1, 1 << rng.choice([4, 8, 60, 100])), rng.randrange(len(CURVES)), None, pub, rng.randrange(2))
            yield 'raw', (rng.choice(sorted(RAW)), gen.rbytes(rng, rng.choice([0, 1, 32, 56, 57, 127, 128, 300])))

    def oracle(self, case):
        return {'rsa': chk_rsa, 'dsa': chk_dsa, 'ec': chk_ec, 'raw': chk_raw}[case[0]](case[1])


# ------------------------------------------------------------------------------------------ symbolic: any integers
K = 'asn1crypto.keys.'


def put(it, o, x):
    r, _ = meth(it, o, 'set', x)
    it.ctx.prove('integers are accepted', r == 'ret')


class Sizes(Unit):
    """bit_size, hash_algo and curve of a container whose integers are arbitrary"""
    targets = (K + 'PrivateKeyInfo.bit_size', K + 'PrivateKeyInfo.hash_algo', K + 'PrivateKeyInfo.curve', K + 'PublicKeyInfo.bit_size',
               K + 'PublicKeyInfo.hash_algo', K + 'PublicKeyInfo.curve')
    max_paths = 400
    assumptions = ('util.int_to_bytes without a width gives the minimal number of octets (C07)',)

    def __init__(self, kind, public):
        self.kind, self.public = kind, public
        self.name = '%s %s key: size, hash family and curve for every integer' % ('public' if public else 'private', kind)

    def make(self):
        """the container, the integer giving its size, the one giving the hash family"""
        if self.kind == 'dsa':
            if self.public:
                p = keys.PublicKeyInfo({'algorithm': {'algorithm': 'dsa', 'parameters': keys.DSAParams({'p': 23, 'q': 11, 'g': 4})}, 'public_key': core.Integer(8)})
                a = p['algorithm']['parameters']
            else:
                p = keys.PrivateKeyInfo.wrap(dsa_private([23, 11, 4, 8, 7])[0], 'dsa')
                a = p['private_key_algorithm']['parameters']
            return p, a['p'], a['q']
        if self.public:
            p = keys.PublicKeyInfo.wrap(keys.RSAPublicKey({'modulus': 5, 'public_exponent': 3}), self.kind)
            return p, p['public_key'].parsed['modulus'], None
        p = keys.PrivateKeyInfo.wrap(rsa_private([77, 3, 5, 7, 11, 1, 2, 3])[0], self.kind)
        return p, p['private_key'].parsed['modulus'], None

    def run(self, it):
        c = it.ctx
        p, size, q = self.make()
        symstruct.Wire(it, split=False)
        n = c.in_int('n', 1)
        put(it, size, n)
        if q is not None:
            m = c.in_int('q', 1)
            put(it, q, m)
        c.prove('algorithm', getp(it, p, 'algorithm') == ('ret', self.kind))
        for again in (0, 1):
            r, b = getp(it, p, 'bit_size')
            if r != 'ret' or not is_int(b):
                c.prove('bit_size', False)
                return
            k = Z(b) / 8
            c.prove('bit_size is whole octets', Z(b) == 8 * k)
            c.prove('bit_size is that of the integer', z3.And(n.z < c.p256(k), z3.Or(k == 1, n.z >= c.p256(k - 1)), k >= 1))
        r, h = getp(it, p, 'hash_algo')
        for e, t in list(c.p2_terms.values()):
            c.fact(z3.And(z3.Implies(e >= 160, t >= 1 << 160), z3.Implies(e <= 160, t <= 1 << 160)))
        if q is None:
            c.prove('hash_algo is refused', r == 'exc' and isinstance(h, ValueError))
        else:
            c.prove('hash_algo', r == 'ret' and h in ('sha1', 'sha2'))
            c.prove('hash_algo is that of q', (m.z < 256 ** 20) == z3.BoolVal(h == 'sha1'))
        r, v = getp(it, p, 'curve')
        c.prove('curve is refused', r == 'exc' and isinstance(v, ValueError))

    def oracle(self, i):
        n, q = i['n'], i.get('q', 11)
        if self.kind == 'dsa':
            return chk_dsa([n, q, 4, 8, 7])
        return chk_rsa(([n, 3, 5, 7, 11, 1, 2, 3], [], self.kind == 'rsassa_pss'))

    def gen(self, rng):
        return {'n': integer(rng), 'q': integer(rng)}


class Wrap(Unit):
    """keys whose integers are arbitrary, wrapped, encoded, and taken apart"""
    targets = (K + 'PrivateKeyInfo.wrap', K + 'PrivateKeyInfo.__setitem__', K + 'PrivateKeyInfo._private_key_spec', 'asn1crypto.core.ParsableOctetString.set',
               'asn1crypto.core.Sequence._set_contents', 'asn1crypto.core.Sequence.dump')
    max_paths = 2000
    time_s = 200
    cost = 40
    assumptions = ('contract of parser._dump_header (C01)', 'integers given by their contents (C07)')

    def __init__(self, kind, form):
        self.kind, self.form = kind, form
        self.name = 'wrap: %s, %s: every integer' % (kind, form)

    def run(self, it):
        c = it.ctx
        w = symstruct.Wire(it, split=False)
        con = {}

        def fill(o, f):
            con[f] = c.in_bytes(f, 1)
            it.setattr(o[f], 'contents', con[f])
            o[f].__dict__.update(_native=None, _header=None)
        if self.kind in ('rsa', 'rsassa_pss'):
            key = rsa_private([77, 3, 5, 7, 11, 1, 2, 3], [[1, 2, 3]] if self.form == 'multi' else ())[0]
            names = RSA_FIELDS
        elif self.kind == 'dsa':
            key = dsa_private([23, 11, 4, 8, 7])[0]
            names = ('p', 'q', 'g', 'public_key', 'private_key')
        if self.form == 'tagged':
            key = key.retag({'implicit': 3})
        for f in names:
            fill(key, f)
        r, p = meth(it, keys.PrivateKeyInfo, 'wrap', key, self.kind)
        c.prove('a key of the type is accepted', r == 'ret' and isinstance(p, keys.PrivateKeyInfo))
        if r != 'ret':
            return

        def tlv(tag, x):
            return concat(it.call(parser._dump_header, [0, 1 if tag in (16, 17) else 0, tag, x], {}), x)
        num = lambda *fs: concat(*[tlv(2, con[f]) for f in fs])
        if self.kind == 'dsa':
            inner = num('private_key')
            algo = tlv(16, concat(der.oid(DSA_OID), tlv(16, num('p', 'q', 'g'))))
        else:
            inner = tlv(16, concat(ints(1 if self.form == 'multi' else 0), num(*RSA_FIELDS), der.seq(der.seq(ints(1, 2, 3))) if self.form == 'multi' else b''))
            algo = der.seq(der.oid(PSS_OID)) if self.kind == 'rsassa_pss' else der.seq(der.oid(PKCS1 + '1'), der.NULL)
        want = tlv(16, concat(ints(0), algo, tlv(4, inner)))
        for f in names:
            c.prove('the key is as it was: ' + f, beq(it, it.getattr(it.getitem(key, f), 'contents'), con[f]))
        order = c.choose(2)
        if order:
            r, d = meth(it, p, 'dump')
            c.prove('encoding', r == 'ret' and is_bytes(d) and beq(it, d, want))
        c.prove('algorithm', getp(it, p, 'algorithm') == ('ret', self.kind))
        k = it.getattr(it.getitem(p, 'private_key'), 'parsed')
        if self.kind == 'dsa':
            c.prove('the private integer', isinstance(k, core.Integer) and beq(it, it.getattr(k, 'contents'), con['private_key']))
            a = it.getitem(it.getitem(p, 'private_key_algorithm'), 'parameters')
            for f in 'pqg':
                c.prove('parameter ' + f, beq(it, it.getattr(it.getitem(a, f), 'contents'), con[f]))
        else:
            c.prove('the key inside', isinstance(k, keys.RSAPrivateKey))
            for f in names:
                c.prove('the key inside: ' + f, beq(it, it.getattr(it.getitem(k, f), 'contents'), con[f]))
        r, d = meth(it, p, 'dump')
        c.prove('encoding', r == 'ret' and is_bytes(d) and beq(it, d, want))

    def oracle(self, i):
        names = RSA_FIELDS if self.kind != 'dsa' else ('p', 'q', 'g', 'public_key', 'private_key')
        v = [max(1, abs(int.from_bytes(i[f][:600], 'big', signed=True))) for f in names]
        if self.kind == 'dsa':
            return chk_dsa(v)
        return chk_rsa((v, [[1, 2, 3]] if self.form == 'multi' else [], self.kind == 'rsassa_pss'))

    def gen(self, rng):
        names = RSA_FIELDS if self.kind != 'dsa' else ('p', 'q', 'g', 'public_key', 'private_key')
        return {f: der.integer(integer(rng))[-50:] for f in names}


class Ec(Unit):
    """an EC key of any curve with any private integer: as wide as the curve, in the key and in the container"""
    unroll = 60
    targets = (K + 'ECPrivateKey.__setitem__', K + 'ECPrivateKey.set_key_size', K + 'ECPrivateKey._update_key_size', K + 'ECDomainParameters.key_size',
               K + 'PrivateKeyInfo.wrap', K + 'PrivateKeyInfo.__setitem__', K + 'PrivateKeyInfo.curve', K + 'PrivateKeyInfo.bit_size',
               'asn1crypto.core.IntegerOctetString.set', 'asn1crypto.core.IntegerOctetString.set_encoded_width')
    max_paths = 3000
    time_s = 200
    cost = 60
    assumptions = ('contract of parser._dump_header (C01)', 'contract of util.int_to_bytes with a width (C07)')

    def __init__(self, part):
        self.part = part
        self.name = 'wrap: EC keys, every private integer, curves %d of 4' % (part + 1)

    def run(self, it):
        c = it.ctx
        symstruct.Wire(it, split=False)
        i = list(range(self.part, len(CURVES), 4))[c.choose(len(range(self.part, len(CURVES), 4)))]
        c.input('curve', i)
        name, oid, n = CURVES[i]
        key = ec_private(1, i, None, b'\4\1\2', True)[0]
        d = c.in_int('d', 1)
        c.assume(d.z < 256 ** n)
        kind = i // 4 % 2
        c.input('kind', kind)
        if kind == 0:           # the integer of a key, then wrapped
            r, _ = meth(it, key['private_key'], 'set', d)
            c.prove('integers of the size of the curve are accepted', r == 'ret')
            r, p = meth(it, keys.PrivateKeyInfo, 'wrap', key, 'ec')
        else:                   # the integer of a wrapped key
            p = keys.PrivateKeyInfo.wrap(key, 'ec')
            r, _ = meth(it, p['private_key'].parsed['private_key'], 'set', d)
        c.prove('accepted', r == 'ret')
        if r != 'ret':
            return
        k = it.getattr(it.getitem(p, 'private_key'), 'parsed')
        x = it.getitem(k, 'private_key')
        con = it.getattr(x, 'contents')
        c.prove('as many octets as the curve has', is_bytes(con) and Z(bound(blen(con))) == n)
        c.prove('the integer', Z(it.models.eq(it, it.getattr(x, 'native'), d)))
        back = it.call(util.int_from_bytes, [con], {})
        c.prove('the octets are those of the integer', Z(back) == d.z)
        c.prove('size', getp(it, p, 'bit_size') == ('ret', 8 * n))
        c.prove('curve', getp(it, p, 'curve') == ('ret', ('named', name)))
        c.prove('the key inside has no parameters', isinstance(it.getitem(k, 'parameters'), core.Void))
        c.prove('parameters', it.getitem(it.getitem(p, 'private_key_algorithm'), 'parameters').dump() == der.oid(oid))
        r, e = meth(it, p, 'dump')
        tail = der.tlv(0xa1, der.bits(b'\4\1\2'))

        def tlv(tag, x):
            return concat(it.call(parser._dump_header, [0, 1 if tag == 16 else 0, tag, x], {}), x)
        inner = tlv(16, concat(ints(1), tlv(4, con), tail))
        want = tlv(16, concat(ints(0), der.seq(der.oid(EC_OID), der.oid(oid)), tlv(4, inner)))
        c.prove('encoding', r == 'ret' and is_bytes(e) and beq(it, e, want))

    def oracle(self, i):
        n = CURVES[i['curve']][2]
        if i['kind']:
            p = keys.PrivateKeyInfo.wrap(ec_private(1, i['curve'], None, b'\4\1\2')[0], 'ec')
            p['private_key'].parsed['private_key'].set(i['d'])
            want = ec_private(i['d'], i['curve'], None, b'\4\1\2')
            if p.dump() != container(EC_OID, want[2], want[3]):
                return 'the container with the private integer %d assigned encodes as %s' % (i['d'], p.dump().hex())
        return chk_ec((i['d'], i['curve'], None, b'\4\1\2', True))

    def gen(self, rng):
        i = rng.randrange(self.part, len(CURVES), 4)
        return {'curve': i, 'kind': i // 4 % 2, 'd': rng.randrange(1, 256 ** CURVES[i][2])}


UNITS = [Ec(i) for i in range(4)] + [Wrap(k, f) for k, f in (('rsa', 'plain'), ('rsa', 'multi'), ('rsassa_pss', 'plain'), ('dsa', 'plain'), ('dsa', 'tagged'))] + [
    Sizes(k, p) for k in ('rsa', 'rsassa_pss', 'dsa') for p in (0, 1)]
BOUNDED = [Refused, Keys]
