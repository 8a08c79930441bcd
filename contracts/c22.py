"""C22: algorithm identifiers report what their object identifier and parameters denote."""
import inspect
from .common import *  # noqa
from asn1crypto import cms as cms_, pkcs12, tsp, pdf
from oracle import der
from oracle.algs import *  # noqa

MODULES = (algos, cms_, core, crl, csr, keys, ocsp, pkcs12, tsp, pdf, x509)
ACCESSORS = ('kdf', 'kdf_hmac', 'kdf_salt', 'kdf_iterations', 'key_length', 'encryption_mode', 'encryption_cipher', 'encryption_block_size', 'encryption_iv')


def id_classes():
    out = []
    for m in MODULES:
        for c in vars(m).values():
            if inspect.isclass(c) and issubclass(c, core.ObjectIdentifier) and c.__module__ == m.__name__ and c._map:
                out.append(c)
    return out


def read(o, name):
    try:
        return getattr(o, name)
    except ValueError:
        return ERR


def agrees(got, want):
    if isinstance(want, list):
        return any(agrees(got, w) for w in want)
    return got == want and type(got) is type(want)


def check(o, want):
    for n, w in want.items():
        for _ in range(2):
            g = read(o, n)
            if not agrees(g, w):
                return '%s is %r, expected %r' % (n, g, w)


# ------------------------------------------------------------------------------------------ signatures
def sig_forms(oid):
    """ways to get the identifier: from the wire with and without parameters, built by dotted text, by name"""
    name = SIG[oid][0] if oid != PSS_OID else PSS
    yield algos.SignedDigestAlgorithm.load(der.seq(der.oid(oid)))
    yield algos.SignedDigestAlgorithm({'algorithm': oid})
    yield algos.SignedDigestAlgorithm({'algorithm': algos.SignedDigestAlgorithmId(oid)})
    if oid != PSS_OID:
        yield algos.SignedDigestAlgorithm.load(der.seq(der.oid(oid), der.NULL))
    if PREFERRED.get(name) == oid or oid == PSS_OID:
        yield algos.SignedDigestAlgorithm({'algorithm': name})


def chk_sig_oid(oid):
    name, algo, h, cmsh = SIG[oid]
    for o in sig_forms(oid):
        m = check(o, dict(signature_algo=algo, hash_algo=h, cms_hash_algo=cmsh))
        if m:
            return '%s: %s' % (name, m)
        if o['algorithm'].native != name or o['algorithm'].dotted != oid:
            return '%s reads as %s %s' % (name, o['algorithm'].native, o['algorithm'].dotted)
    o = algos.SignedDigestAlgorithm({'algorithm': 'sha256_rsa'})
    o['algorithm'] = oid
    m = check(o, dict(signature_algo=algo, hash_algo=h, cms_hash_algo=cmsh))
    return m and '%s assigned: %s' % (name, m)


def chk_pss(case):
    h, mgf, salt = case
    p = {}
    wire = b''
    if h != 'sha1':
        wire += der.tlv(0xa0, der.seq(der.oid(DIGEST[h]), *([der.NULL] if DIGEST[h] in NULLS else [])))
    if mgf != 'sha1':
        wire += der.tlv(0xa1, der.seq(der.oid(PKCS1 + '8'), der.seq(der.oid(DIGEST[mgf]), *([der.NULL] if DIGEST[mgf] in NULLS else []))))
    if salt != 20:
        wire += der.tlv(0xa2, der.integer(salt))
    wire = der.seq(der.oid(PSS_OID), der.seq(wire))
    p = {'hash_algorithm': {'algorithm': h}, 'mask_gen_algorithm': {'algorithm': 'mgf1', 'parameters': {'algorithm': mgf}}, 'salt_length': salt}
    built = algos.SignedDigestAlgorithm({'algorithm': PSS, 'parameters': p})
    for o in (algos.SignedDigestAlgorithm.load(wire), built, algos.SignedDigestAlgorithm.load(built.dump())):
        m = check(o, dict(signature_algo=PSS, hash_algo=h, cms_hash_algo=h))
        if m:
            return m
        q = o['parameters']
        if q['mask_gen_algorithm']['parameters']['algorithm'].native != mgf or q['salt_length'].native != salt:
            return 'parameters read as %r' % q.native
    if built.dump() != wire:
        return 'encoded as %s, not %s' % (built.dump().hex(), wire.hex())


def chk_unknown(oid):
    for o in (algos.SignedDigestAlgorithm.load(der.seq(der.oid(oid), der.NULL)), algos.SignedDigestAlgorithm({'algorithm': oid})):
        if oid not in SIG and oid != PSS_OID:
            m = check(o, dict(signature_algo=ERR, hash_algo=ERR, cms_hash_algo=ERR))
            if m:
                return m
    known = [e['oid'] for e in ENC.values()] + [PBES2]
    for o in (algos.EncryptionAlgorithm.load(der.seq(der.oid(oid), der.NULL)), algos.EncryptionAlgorithm({'algorithm': oid})):
        if oid not in known:
            m = check(o, {n: ERR for n in ACCESSORS})
            if m:
                return m


class Signatures(Bounded):
    name = 'signature algorithms: every one, in every form; RSASSA-PSS with every hash; unknown ones'
    rule = 'the whole table; every pair of hashes and salts around powers of two; dotted texts near those of the tables; distinct: the case'
    seconds = 8

    def cases(self, rng, tier):
        for o in SIG:
            yield 'sig', o
        hs = [h for h in DIGEST]
        for h in hs:
            for g in hs:
                yield 'pss', (h, g, rng.choice([0, 1, 20, 32, 127, 128, 255, 256, 32767, 32768]))
        base = list(SIG) + [e['oid'] for e in ENC.values()] + [PBES2, PSS_OID]
        for o in base:
            for n in (o + '.1', o.rsplit('.', 1)[0], o + '0', '1.3.6.1.4.1.%d' % rng.randrange(1 << 30)):
                yield 'unknown', n

    def oracle(self, case):
        return {'sig': chk_sig_oid, 'pss': chk_pss, 'unknown': chk_unknown}[case[0]](case[1])


# ------------------------------------------------------------------------------------------ encryption
def enc_wire(name, v):
    """the encoding of an encryption algorithm; v: iv, version, block, salt, count"""
    e = ENC[name]
    k = e['params']
    p = {'none': b'', 'null': der.NULL, 'octets': der.octets(v['iv']), 'any': der.octets(v['iv']),
         'ccm': der.seq(der.octets(v['iv']), der.integer(16)),
         'rc2': der.seq(*([der.integer(v['version'])] if v['version'] is not None else []), der.octets(v['iv'])),
         'rc5': der.seq(der.integer(16), der.integer(12), der.integer(v['block'] * 8), der.octets(v['iv'])),
         'pbes1': der.seq(der.octets(v['salt']), der.integer(v['count'])), 'oaep': der.seq()}[k]
    return der.seq(der.oid(e['oid']), p)


def enc_dict(name, v):
    e = ENC[name]
    p = {'none': None, 'null': None, 'octets': v['iv'], 'any': core.OctetString(v['iv']), 'ccm': {'aes_nonce': v['iv'], 'aes_icvlen': 16},
         'rc2': dict({'iv': v['iv']}, **({'rc2_parameter_version': v['version']} if v['version'] is not None else {})),
         'rc5': {'version': 'v1-0', 'rounds': 12, 'block_size_in_bits': v['block'] * 8, 'iv': v['iv']},
         'pbes1': {'salt': v['salt'], 'iterations': v['count']}, 'oaep': {}}[e['params']]
    d = {'algorithm': name}
    if p is not None:
        d['parameters'] = p
    return d


def enc_want(name, v):
    e = ENC[name]
    w = {n: e[n] for n in ACCESSORS if n in e}
    if w['encryption_iv'] == 'iv':
        w['encryption_iv'] = v['iv']
    if w['key_length'] == 'version':
        w['key_length'] = rc2_key(v['version'])
    if w['encryption_block_size'] == 'block':
        w['encryption_block_size'] = v['block']
    w['kdf'], w['kdf_hmac'] = kdf(name)
    w['kdf_salt'], w['kdf_iterations'] = (v['salt'], v['count']) if e['params'] == 'pbes1' else (ERR, ERR)
    return w


def chk_enc(case):
    name, v = case
    w = enc_want(name, v)
    built = algos.EncryptionAlgorithm(enc_dict(name, v))
    wire = enc_wire(name, v)
    for o in (algos.EncryptionAlgorithm.load(wire), built, algos.EncryptionAlgorithm.load(built.dump()), built.copy()):
        m = check(o, w)
        if m:
            return '%s: %s' % (name, m)
        if o.dump() != wire:
            return '%s encodes as %s, not %s' % (name, o.dump().hex(), wire.hex())
        if o['algorithm'].native != name or o['algorithm'].dotted != ENC[name]['oid']:
            return '%s: %r' % (name, o['algorithm'].native)


def chk_pbes2(case):
    kind, prf, scheme, v, klen = case
    if kind == 'pbkdf2':
        kp = {'salt': algos.Pbkdf2Salt('specified', v['salt']), 'iteration_count': v['count']}
        kw = [der.octets(v['salt']), der.integer(v['count'])]
        if klen is not None:
            kp['key_length'] = klen
            kw.append(der.integer(klen))
        if prf is not None:
            kp['prf'] = {'algorithm': prf, 'parameters': core.Null()}
            kw.append(der.seq(der.oid(HMAC[prf]), der.NULL))
        koid = P5 + '12'
    else:
        kp = {'salt': v['salt'], 'cost_parameter': v['count'], 'block_size': 8, 'parallelization_parameter': 1}
        kw = [der.octets(v['salt']), der.integer(v['count']), der.integer(8), der.integer(1)]
        if klen is not None:
            kp['key_length'] = klen
            kw.append(der.integer(klen))
        koid = '1.3.6.1.4.1.11591.4.11'
    wire = der.seq(der.oid(PBES2), der.seq(der.seq(der.oid(koid), der.seq(*kw)), enc_wire(scheme, v)))
    built = algos.EncryptionAlgorithm({'algorithm': 'pbes2', 'parameters': {
        'key_derivation_func': {'algorithm': kind, 'parameters': kp}, 'encryption_scheme': enc_dict(scheme, v)}})
    w = enc_want(scheme, v)
    w['kdf'] = kind
    w['kdf_hmac'] = (prf or 'sha1') if kind == 'pbkdf2' else None
    w['kdf_salt'] = v['salt']
    w['kdf_iterations'] = v['count'] if kind == 'pbkdf2' else None
    if klen is not None:
        w['key_length'] = klen
    for o in (algos.EncryptionAlgorithm.load(wire), built, algos.EncryptionAlgorithm.load(built.dump(force=True)), built.copy()):
        m = check(o, w)
        if m:
            return '%s %s %s: %s' % (kind, prf, scheme, m)
    if algos.EncryptionAlgorithm.load(wire).dump() != wire:
        return 'not read and written unchanged'


VERSIONS = [None, 160, 120, 58, 0, 1, 57, 59, 119, 121, 159, 161, 255, 256, 257, 263, 264, 265, 512, 1000, 1024, 1025, -1, -160, 1 << 70]


def params(rng, i=0):
    return {'iv': gen.rbytes(rng, rng.choice([0, 1, 8, 12, 16, 16, 130])), 'version': VERSIONS[i % len(VERSIONS)],
            'block': rng.choice([8, 16, 4, 1, 17, 255, 4096]), 'salt': gen.rbytes(rng, rng.choice([0, 1, 8, 64, 200])),
            'count': rng.choice([0, 1, 2, 127, 128, 1000, 65535, 1 << 31, 1 << 70])}


class Encryption(Bounded):
    name = 'encryption algorithms: every one with parameter values; PBES2 with every derivation, PRF and scheme'
    rule = 'the whole tables; IVs, salts, counts, key lengths, RC2 versions and RC5 block sizes at edges; distinct: the case'
    seconds = 15

    def cases(self, rng, tier):
        for name in ENC:
            for i in range(len(VERSIONS) if name == 'rc2' else 6):
                yield 'enc', (name, params(rng, i))
        for scheme in ENC:
            if ENC[scheme]['params'] in ('null', 'oaep', 'pbes1'):
                continue
            for prf in [None] + sorted(HMAC):
                for klen in (None, rng.choice([0, 1, 5, 16, 24, 32, 127, 128, 1 << 33])):
                    yield 'pbes2', ('pbkdf2', prf, scheme, params(rng, rng.randrange(99)), klen)
            for klen in (None, 32, 16):
                yield 'pbes2', ('scrypt', None, scheme, params(rng, rng.randrange(99)), klen)

    def oracle(self, case):
        return {'enc': chk_enc, 'pbes2': chk_pbes2}[case[0]](case[1])


# ------------------------------------------------------------------------------------------ NULL parameters and the tables
FORCED = (algos.DigestAlgorithm, algos.SignedDigestAlgorithm, algos.EncryptionAlgorithm, algos.AnyAlgorithmIdentifier,
          cms_.KeyEncryptionAlgorithm, keys.PublicKeyAlgorithm, keys.PrivateKeyAlgorithm)


def chk_null(case):
    i, oid, how = case
    cls = FORCED[i]
    idc = cls._fields[0][1]
    name = idc.map(oid) if oid in idc._map else oid
    if how == 'name':
        o = cls({'algorithm': name}) if idc.unmap(name) == oid else cls({'algorithm': idc(oid)})
    elif how == 'oid':
        o = cls({'algorithm': oid})
    elif how == 'object':
        o = cls({'algorithm': idc(oid)})
    elif how == 'assign':
        o = cls()
        o['algorithm'] = oid
    elif how == 'index':
        o = cls()
        o[0] = oid
    elif how == 'given':
        o = cls({'algorithm': oid, 'parameters': core.Null()})
    elif how == 'again':
        o = cls({'algorithm': '1.2.3.4'})
        o['algorithm'] = oid
    want = der.seq(der.oid(oid), der.NULL if oid in NULLS or how == 'given' else b'')
    for f in (False, True, False):
        if o.dump(force=f) != want:
            return '%s %s %s encodes as %s' % (cls.__name__, name, how, o.dump().hex())
    if cls.load(want).dump(force=True) != want:
        return 're-encoded as %s' % cls.load(want).dump(force=True).hex()
    if oid in NULLS and not isinstance(o['parameters'], core.Null) or (oid in NULLS or how == 'given') and o['parameters'].native is not None:
        return 'parameters are %r' % o['parameters']
    if how == 'given' or oid in NULLS:
        return
    if not isinstance(o['parameters'], core.Void):
        return 'parameters are %r' % o['parameters']


def chk_name(case):
    cls, oid, name = case
    for c in id_classes():
        if c.__name__ == cls:
            break
    o = c.load(der.oid(oid))
    if o.dump() != der.oid(oid) or o.dump(force=True) != der.oid(oid) or o.dotted != oid or o.native != name:
        return '%s %s reads as %r %r' % (cls, oid, o.native, o.dotted)
    b = c(name)
    if b.native != name or b.dump() != der.oid(b.dotted) or c.load(b.dump()).native != name or c.map(b.dotted) != name or c.unmap(name) != b.dotted:
        return '%s %s encodes as %s' % (cls, name, b.dotted)
    d = c(oid)
    if d.native != name or d.dump() != der.oid(oid):
        return '%s built from %s: %s' % (cls, oid, d.native)
    n = c.load(der.oid(oid + '.4321'))
    if n.dump(force=True) != der.oid(oid + '.4321') or oid + '.4321' in c._map or n.native != oid + '.4321' or c(n.native).dump() != n.dump():
        return '%s unknown identifier: %s' % (cls, n.native)


def golden():
    for n, o in DIGEST.items():
        yield algos.DigestAlgorithmId, n, o
    for n, o in HMAC.items():
        yield algos.HmacAlgorithmId, n, o
    for n, o in PREFERRED.items():
        yield algos.SignedDigestAlgorithmId, n, o
    yield algos.SignedDigestAlgorithmId, PSS, PSS_OID
    yield algos.EncryptionAlgorithmId, 'pbes2', PBES2
    for n, e in ENC.items():
        yield algos.EncryptionAlgorithmId, n, e['oid']
    for n, o in (('pbkdf2', P5 + '12'), ('scrypt', '1.3.6.1.4.1.11591.4.11')):
        yield algos.KdfAlgorithmId, n, o
    yield algos.MaskGenAlgorithmId, 'mgf1', PKCS1 + '8'
    yield algos.PSourceAlgorithmId, 'p_specified', PKCS1 + '9'
    yield algos.KeyExchangeAlgorithmId, 'dh', '1.2.840.113549.1.3.1'
    yield algos.Pkcs5MacId, 'pbmac1', P5 + '14'
    for c in (keys.PrivateKeyAlgorithmId, keys.PublicKeyAlgorithmId):
        for n, o in (('rsa', PKCS1 + '1'), ('rsassa_pss', PSS_OID), ('dsa', '1.2.840.10040.4.1'), ('ec', '1.2.840.10045.2.1'),
                     ('x25519', '1.3.101.110'), ('x448', '1.3.101.111'), ('ed25519', '1.3.101.112'), ('ed448', '1.3.101.113')):
            yield c, n, o
    yield keys.PublicKeyAlgorithmId, 'rsaes_oaep', PKCS1 + '7'
    yield keys.PublicKeyAlgorithmId, 'dh', '1.2.840.10046.2.1'
    for n in ('rsaes_pkcs1v15', 'rsaes_oaep', 'aes128_wrap', 'aes192_wrap', 'aes256_wrap', 'aes128_wrap_pad', 'aes192_wrap_pad', 'aes256_wrap_pad'):
        yield cms_.KeyEncryptionAlgorithmId, n, ENC[n]['oid']


GOLDEN = list(golden())


def chk_golden(i):
    c, n, o = GOLDEN[i]
    b = c(n)
    if b.dump() != der.oid(o) or b.dotted != o or c.load(der.oid(o)).native != n:
        return '%s %s encodes as %s, the standard says %s' % (c.__name__, n, b.dotted, o)


class Tables(Bounded):
    name = 'NULL parameters of every algorithm that needs them; every entry of every name table'
    rule = 'the whole tables, all ways to build an identifier; distinct: the case'
    seconds = 8
    exhaustive = True

    def cases(self, rng, tier):
        for i, cls in enumerate(FORCED):
            idc = cls._fields[0][1]
            for oid in NULLS + ABSENT:
                if oid in idc._map or oid in NULLS:
                    for how in ('name', 'oid', 'object', 'assign', 'index', 'given', 'again'):
                        if oid in idc._map or how != 'name':
                            yield 'null', (i, oid, how)
        for c in id_classes():
            c('1.2.3').native
            for o, n in sorted(c._map.items()):
                yield 'name', (c.__name__, o, n)
        for i in range(len(GOLDEN)):
            yield 'golden', i

    def oracle(self, case):
        return {'null': chk_null, 'name': chk_name, 'golden': chk_golden}[case[0]](case[1])


# ------------------------------------------------------------------------------------------ units
A = 'asn1crypto.algos.'
S_, E_ = A + 'SignedDigestAlgorithm.', A + 'EncryptionAlgorithm.'


def prove(it, o, name, want, what=''):
    c = it.ctx
    k, v = getp(it, o, name)
    if isinstance(want, list):
        c.prove('%s %s' % (name, what), any((k == 'exc' and isinstance(v, ValueError)) if w == ERR else (k == 'ret' and v == w) for w in want))
    elif isinstance(want, str) and want == ERR:
        c.prove('%s %s is refused with ValueError' % (name, what), k == 'exc' and isinstance(v, ValueError))
    elif is_bytes(want):
        c.prove('%s %s' % (name, what), k == 'ret' and is_bytes(v) and beq(it, v, want))
    elif isinstance(want, SInt) or z3.is_expr(want):
        c.prove('%s %s' % (name, what), k == 'ret' and is_int(v) and Z(v) == (want.z if isinstance(want, SInt) else want))
    else:
        c.prove('%s %s' % (name, what), k == 'ret' and type(v) is type(want) and v == want)


class SigTable(Unit):
    """the whole table, each identifier through the accessors"""
    name = 'SignedDigestAlgorithm: signature and hash algorithm of every object identifier'
    targets = (S_ + 'signature_algo', S_ + 'hash_algo', S_ + 'cms_hash_algo')
    covers = ('pss', 'other')
    max_paths = 400

    def run(self, it):
        c = it.ctx
        oids = sorted(SIG)
        i = c.choose(len(oids) + len(DIGEST))
        c.input('entry', i)
        if i < len(oids):
            c.cover('other')
            o = algos.SignedDigestAlgorithm.load(der.seq(der.oid(oids[i])))
            name, a, h, cm = SIG[oids[i]]
        else:
            c.cover('pss')
            h = cm = sorted(DIGEST)[i - len(oids)]
            name = a = PSS
            o = algos.SignedDigestAlgorithm({'algorithm': PSS, 'parameters': {'hash_algorithm': {'algorithm': h}}})
        for n, w in (('signature_algo', a), ('hash_algo', h), ('cms_hash_algo', cm)):
            prove(it, o, n, w, name)

    def oracle(self, i):
        oids = sorted(SIG)
        return chk_sig_oid(oids[i['entry']]) if i['entry'] < len(oids) else chk_pss((sorted(DIGEST)[i['entry'] - len(oids)], 'sha1', 20))

    def gen(self, rng):
        return {'entry': rng.randrange(len(SIG) + len(DIGEST))}


V0 = {'iv': b'\1\2\3', 'version': 160, 'block': 8, 'salt': b'salt', 'count': 9}


class EncTable(Unit):
    """the whole table with any parameter values: the octets and integers are arbitrary"""
    name = 'EncryptionAlgorithm: every algorithm, every IV, salt, count, RC2 version and RC5 block size'
    targets = tuple(E_ + n for n in ACCESSORS)
    max_paths = 3000
    time_s = 300
    cost = 60

    def run(self, it):
        c = it.ctx
        names = sorted(ENC)
        i = c.choose(len(names))
        c.input('entry', i)
        name = names[i]
        e = ENC[name]
        v = dict(V0)
        o = algos.EncryptionAlgorithm(enc_dict(name, v))
        self.values(it, o, e, v)
        self.accessors(it, o, name, v, ACCESSORS)

    def values(self, it, o, e, v):
        c = it.ctx
        k = e['params']

        def put(t, f, x):
            r, _ = meth(it, t[f] if f else t, 'set', x)
            c.prove('set', r == 'ret')
        p = o['parameters']
        if k in ('octets', 'rc2', 'rc5'):
            v['iv'] = c.in_bytes('iv', 0)
            put(p, 'iv' if k != 'octets' else None, v['iv'])
        if k == 'rc2':
            if c.choose(2):
                v['version'] = c.in_int('version')
                put(p, 'rc2_parameter_version', v['version'])
            else:
                v['version'] = None
                p['rc2_parameter_version'] = None
        if k == 'rc5':
            v['block'] = c.in_int('block', 0)
            put(p, 'block_size_in_bits', SInt(v['block'].z * 8))
        if k == 'pbes1':
            v['salt'], v['count'] = c.in_bytes('salt', 0), c.in_int('count', 1)
            put(p, 'salt', v['salt'])
            put(p, 'iterations', v['count'])

    def accessors(self, it, o, name, v, which, also=None):
        c = it.ctx
        w = enc_want(name, dict(v, version=160))
        w.update(also or {})
        for n in which:
            if n == 'key_length' and name == 'rc2' and n not in (also or {}):
                self.rc2(it, o, v['version'])
            else:
                prove(it, o, n, w[n], name)

    def rc2(self, it, o, version):
        c = it.ctx
        k, l = getp(it, o, 'key_length')
        if version is None:
            c.prove('RC2 without a version: 32 bits', k == 'ret' and l == 4)
            return
        z = version.z
        if k == 'exc':
            c.prove('RC2 versions without a meaning are refused', isinstance(l, ValueError))
            c.prove('RC2 versions with a meaning are accepted', z3.And(z < 256, z != 160, z != 120, z != 58))
        else:
            l = Z(l)
            c.prove('RC2 key length', z3.Or(z3.And(z == 160, l == 5), z3.And(z == 120, l == 8), z3.And(z == 58, l == 16),
                                            z3.And(z >= 256, l * 8 >= z, l * 8 < z + 8)))

    def oracle(self, i):
        v = dict(V0, version=None, count=9)
        v.update((k, x) for k, x in i.items() if k in v)
        return chk_enc((sorted(ENC)[i['entry']], v))

    def gen(self, rng):
        v = params(rng, rng.randrange(99))
        return dict({k: x for k, x in v.items() if x is not None}, entry=rng.randrange(len(ENC)))


SCHEMES = sorted(n for n in ENC if ENC[n]['params'] not in ('null', 'oaep', 'pbes1'))


class Pbes2(EncTable):
    name = 'EncryptionAlgorithm: PBES2, every scheme and derivation, every salt, count, key length and scheme parameter'

    def run(self, it):
        c = it.ctx
        i = c.choose(len(SCHEMES))
        c.input('entry', i)
        name = SCHEMES[i]
        full = name in ('aes128_cbc', 'rc2', 'rc5')         # the others: each with one derivation
        kind = c.choose(3) if full else i % 3
        c.input('kind', kind)
        v = dict(V0)
        prf = sorted(HMAC)[i % len(HMAC)]
        if kind < 2:
            kp = {'salt': algos.Pbkdf2Salt('specified', b'a'), 'iteration_count': 2}
            if kind:
                kp['prf'] = {'algorithm': prf}
        else:
            kp = {'salt': b'a', 'cost_parameter': 2, 'block_size': 8, 'parallelization_parameter': 1}
        o = algos.EncryptionAlgorithm({'algorithm': 'pbes2', 'parameters': {
            'key_derivation_func': {'algorithm': 'scrypt' if kind == 2 else 'pbkdf2', 'parameters': kp}, 'encryption_scheme': enc_dict(name, v)}})
        kp = o['parameters']['key_derivation_func']['parameters']
        v['salt'], v['count'] = c.in_bytes('salt', 0), c.in_int('count', 1)
        also = {'kdf': 'scrypt' if kind == 2 else 'pbkdf2', 'kdf_hmac': ('sha1', prf, None)[kind],
                'kdf_salt': v['salt'], 'kdf_iterations': None if kind == 2 else v['count']}
        r, _ = meth(it, kp['salt'].chosen if kind < 2 else kp['salt'], 'set', v['salt'])
        r2, _ = meth(it, kp['iteration_count' if kind < 2 else 'cost_parameter'], 'set', v['count'])
        c.prove('set', r == 'ret' and r2 == 'ret')
        if c.choose(2) if full else i % 2:
            kp['key_length'] = 1
            also['key_length'] = c.in_int('klen', 1)
            r, _ = meth(it, kp['key_length'], 'set', also['key_length'])
            c.prove('set', r == 'ret')
        self.values(it, o['parameters']['encryption_scheme'], ENC[name], v)
        self.accessors(it, o, name, v, ACCESSORS, also)

    def oracle(self, i):
        v = dict(V0, version=None, count=9)
        v.update((k, x) for k, x in i.items() if k in v)
        return chk_pbes2((['pbkdf2', 'pbkdf2', 'scrypt'][i['kind']], sorted(HMAC)[i['entry'] % len(HMAC)] if i['kind'] == 1 else None,
                          SCHEMES[i['entry']], v, i.get('klen')))

    def gen(self, rng):
        v = params(rng, rng.randrange(99))
        d = dict({k: x for k, x in v.items() if x is not None}, entry=rng.randrange(len(SCHEMES)), kind=rng.randrange(3))
        if rng.random() < .5:
            d['klen'] = rng.randrange(300)
        return d


class ForceNull(Unit):
    """assigning any identifier of the tables to any of the classes, through the interpreter"""
    name = 'NULL parameters: set when the algorithm is assigned and none are given, kept when given'
    targets = (A + '_ForceNullParameters.__setitem__', A + '_ForceNullParameters._parameters_spec')
    max_paths = 3000
    time_s = 200
    cost = 40

    def run(self, it):
        c = it.ctx
        i = c.choose(len(FORCED))
        cls = FORCED[i]
        oids = [o for o in NULLS + ABSENT if o in cls._fields[0][1]._map]
        j = c.choose(len(oids))
        oid = oids[j]
        c.input('class', i)
        c.input('oid', oid)
        given = c.choose(2)
        o = cls()
        r, _ = meth(it, o, '__setitem__', 'algorithm', oid)
        c.prove('assigned', r == 'ret')
        if given:
            r, _ = meth(it, o, '__setitem__', 'parameters', core.Null())
            c.prove('parameters assigned', r == 'ret')
            r, _ = meth(it, o, '__setitem__', 'algorithm', oid)
            c.prove('assigned again', r == 'ret')
        r, p = getk(it, o, 'parameters')
        c.prove('parameters: %s %s' % (cls.__name__, oid), r == 'ret' and (
            p.native is None and not isinstance(p, core.Void) if given else isinstance(p, core.Null if oid in NULLS else core.Void)))
        r, d = meth(it, o, 'dump')
        c.prove('encoded', r == 'ret' and is_bytes(d) and beq(it, d, der.seq(der.oid(oid), der.NULL if given or oid in NULLS else b'')))

    def oracle(self, i):
        for how in ('assign', 'given'):
            m = chk_null((i['class'], i['oid'], how))
            if m:
                return m

    def gen(self, rng):
        i = rng.randrange(len(FORCED))
        return {'class': i, 'oid': rng.choice([o for o in NULLS + ABSENT if o in FORCED[i]._fields[0][1]._map])}


UNITS = [SigTable, EncTable, Pbes2, ForceNull]
BOUNDED = [Signatures, Encryption, Tables]
