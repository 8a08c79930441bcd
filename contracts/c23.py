"""C23: extension accessors, the critical set and derived values report exactly what is encoded."""
import hashlib, random
from .common import *  # noqa
from oracle import der, prep
from . import certs

TLV = der.tlv


# ------------------------------------------------------------------------------------------ what each extension is (RFC 5280, 6960, 7633)
def ctx(n, *c):
    return TLV(0xa0 | n, *c)


def uri(s):
    return certs.general('uri', s.encode('ascii'))


NAMES = [certs.name([]), certs.name([(certs.CN, 'A')]), certs.name([(certs.CN, 'a')]), certs.name([(certs.ORG, 'Org'), (certs.CN, der.printable('a  b'))]),
         certs.name([(certs.ORG, 'Org'), (certs.CN, 'A B')])]
URLS = ['http://a/1', 'https://b/2', 'HTTP://C/3', 'ldap://d/4', 'LDAPS://e/5', 'ftp://f/6', 'httpx', '']


def general_names(rng, least=1):
    out = []
    for _ in range(rng.choice([least, 1, 2, 3])):
        k = rng.choice(['dir', 'dir', 'uri', 'dns', 'ip', 'rid', 'email'])
        out.append(certs.general(k, {'dir': rng.choice(NAMES), 'uri': rng.choice(URLS).encode(), 'dns': b'a.example', 'ip': b'\1\2\3\4', 'rid': b'\x2a\3',
                                     'email': b'a@b.c'}[k]))
    return out


def points(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        f = []
        k = rng.randrange(6)
        if k:
            full = ctx(0, *general_names(rng)) if k > 1 else ctx(1, der.seq(der.oid(certs.CN), der.utf8('rel')))
            if k == 5:
                full = ctx(0, *[uri(rng.choice(URLS)) for _ in range(rng.randrange(1, 3))])
            f.append(ctx(0, full))
        if rng.random() < .3:
            f.append(TLV(0x81, b'\x06\x40'))
        if rng.random() < .3 or not f:
            f.append(ctx(2, *general_names(rng)))
        out.append(der.seq(*f))
    return der.seq(*out)


def aia(rng):
    return der.seq(*[der.seq(der.oid(rng.choice(['1.3.6.1.5.5.7.48.1', '1.3.6.1.5.5.7.48.2', '1.3.6.1.5.5.7.48.5'])),
                             uri(rng.choice(URLS)) if rng.random() < .8 else certs.general('dir', NAMES[1])) for _ in range(rng.choice([1, 2, 3]))])


KEYID = [b'', b'\1', b'key identifier 1', b'key identifier 2', bytes(20)]
SERIAL = [0, 1, 127, 128, -1, 1 << 159, 255, 10 ** 40]


def aki(rng):
    f = []
    if rng.random() < .8:
        f.append(TLV(0x80, rng.choice(KEYID)))
    if rng.random() < .6:
        f.append(ctx(1, *general_names(rng, 0)))
    if rng.random() < .6:
        f.append(TLV(0x82, der.integer(rng.choice(SERIAL))[2:]))
    return der.seq(*f)


def basic(rng):
    return der.seq(*([der.boolean(True)] if rng.random() < .6 else []), *([der.integer(rng.choice([0, 1, 127, 128, 70000]))] if rng.random() < .4 else []))


def gtime(rng):
    return TLV(0x18, b'20%02d0203040506Z' % rng.randrange(100))


OID = der.oid('1.2.3')
INT = lambda rng: der.integer(rng.choice(SERIAL))
GN = lambda rng: der.seq(*general_names(rng))
OCT = lambda rng: der.octets(rng.choice(KEYID))

CERT = {
    '2.5.29.9': ('subject_directory_attributes', lambda r: der.seq(der.seq(OID, der.set_(der.utf8('x'))))),
    '2.5.29.14': ('key_identifier', OCT),
    '2.5.29.15': ('key_usage', lambda r: r.choice([der.bits(b'\x06', 1), der.bits(b'\x80', 7), der.bits(b'\x01\x80', 7), der.bits(b'')])),
    '2.5.29.16': ('private_key_usage_period', lambda r: der.seq(TLV(0x80, b'20200101000000Z'), TLV(0x81, b'20210101000000Z'))),
    '2.5.29.17': ('subject_alt_name', GN),
    '2.5.29.18': ('issuer_alt_name', GN),
    '2.5.29.19': ('basic_constraints', basic),
    '2.5.29.30': ('name_constraints', lambda r: der.seq(ctx(0, der.seq(certs.general('dns', b'a.example'))))),
    '2.5.29.31': ('crl_distribution_points', points),
    '2.5.29.32': ('certificate_policies', lambda r: der.seq(der.seq(der.oid(r.choice(['2.5.29.32.0', '1.2.3']))))),
    '2.5.29.33': ('policy_mappings', lambda r: der.seq(der.seq(OID, der.oid('1.2.4')))),
    '2.5.29.35': ('authority_key_identifier', aki),
    '2.5.29.36': ('policy_constraints', lambda r: der.seq(TLV(0x80, b'\0'))),
    '2.5.29.37': ('extended_key_usage', lambda r: der.seq(der.oid('1.3.6.1.5.5.7.3.1'), OID)),
    '2.5.29.46': ('freshest_crl', points),
    '2.5.29.54': ('inhibit_any_policy', INT),
    '1.3.6.1.5.5.7.1.1': ('authority_information_access', aia),
    '1.3.6.1.5.5.7.1.11': ('subject_information_access', aia),
    '1.3.6.1.5.5.7.1.24': ('tls_feature', lambda r: der.seq(der.integer(5))),
    '1.3.6.1.5.5.7.48.1.5': ('ocsp_no_check', lambda r: der.NULL),
}
CRL = {
    '2.5.29.18': ('issuer_alt_name', GN), '2.5.29.20': ('crl_number', INT), '2.5.29.27': ('delta_crl_indicator', INT),
    '2.5.29.28': ('issuing_distribution_point', lambda r: der.seq(*([TLV(0x81, b'\xff')] if r.random() < .5 else [TLV(0x84, b'\xff')]))),
    '2.5.29.35': ('authority_key_identifier', aki), '2.5.29.46': ('freshest_crl', points), '1.3.6.1.5.5.7.1.1': ('authority_information_access', aia),
}
ENTRY = {
    '2.5.29.21': ('crl_reason', lambda r: TLV(10, bytes([r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 10])]))), '2.5.29.24': ('invalidity_date', gtime),
    '2.5.29.29': ('certificate_issuer', GN),
}
SINGLE = dict(ENTRY)
SINGLE.update({'1.3.6.1.5.5.7.48.1.3': ('crl', lambda r: der.seq(ctx(1, der.integer(4)))), '1.3.6.1.5.5.7.48.1.6': ('archive_cutoff', gtime)})
REQUEST = {'1.3.6.1.5.5.7.48.1.7': ('service_locator', lambda r: der.seq(r.choice(NAMES), aia(r)))}
OREQUEST = {
    '1.3.6.1.5.5.7.48.1.2': ('nonce', OCT), '1.3.6.1.5.5.7.48.1.4': ('acceptable_responses', lambda r: der.seq(der.oid('1.3.6.1.5.5.7.48.1.1'))),
    '1.3.6.1.5.5.7.48.1.8': ('preferred_signature_algorithms', lambda r: der.seq(der.seq(certs.SHA256_RSA))),
}
ORESPONSE = {'1.3.6.1.5.5.7.48.1.2': ('nonce', OCT), '1.3.6.1.5.5.7.48.1.9': ('extended_revoke', lambda r: der.NULL)}

# named by the library, without an accessor
NAMED = {'cert': {'2.16.840.1.113730.1.1': 'netscape_certificate_type', '1.3.6.1.4.1.11129.2.4.2': 'signed_certificate_timestamp_list',
                  '1.2.840.113533.7.65.0': 'entrust_version_extension'},
         'entry': {'2.5.29.23': 'hold_instruction_code'},
         'single': {'1.3.6.1.4.1.11129.2.4.5': 'signed_certificate_timestamp_list'}}
UNKNOWN = ['1.2.3.4', '2.5.29.99', '1.3.6.1.5.5.7.1.99', '2.999.1', '1.3.6.1.5.5.7.48.1.77']

CERTID = der.seq(der.seq(der.oid('1.3.14.3.2.26'), der.NULL), der.octets(bytes(20)), der.octets(bytes(20)), der.integer(1))
BITS = der.bits(b'\1\2')


def opt(tag, exts):
    if exts is None:
        return b''
    return der.seq(*exts) if tag is None else ctx(tag, der.seq(*exts))


def b_cert(exts, d):
    return certs.certificate(d.get('subject', NAMES[1]), d.get('issuer', NAMES[1]), exts, serial=d.get('serial', 1))


def b_crl(exts, d):
    revoked = der.seq(*[der.seq(der.integer(s), certs.utctime()) for s in (1, 2)])
    return der.seq(der.seq(der.integer(1), certs.SHA256_RSA, d.get('issuer', NAMES[1]), certs.utctime(), d.get('next', certs.utctime()), revoked, opt(0, exts)), certs.SHA256_RSA, BITS)


def b_entry(exts, d):
    return der.seq(der.integer(d.get('serial', 1)), certs.utctime(), opt(None, exts))


def b_single(exts, d):
    return der.seq(CERTID, TLV(0x80), gtime_now(), opt(1, exts))


def gtime_now():
    return TLV(0x18, b'20200101000000Z')


def b_request(exts, d):
    return der.seq(CERTID, opt(0, exts))


def b_orequest(exts, d):
    return der.seq(der.seq(der.seq(b_request(None, d)), opt(2, exts)))


def b_oresponse(exts, d):
    basic_ = der.seq(der.seq(ctx(2, der.octets(bytes(20))), gtime_now(), der.seq(b_single(None, d)), opt(1, exts)), certs.SHA256_RSA, BITS)
    return der.seq(TLV(10, b'\0'), ctx(0, der.seq(der.oid('1.3.6.1.5.5.7.48.1.1'), der.octets(basic_))))


KINDS = {
    'cert': (x509.Certificate, CERT, b_cert), 'crl': (crl.CertificateList, CRL, b_crl), 'entry': (crl.RevokedCertificate, ENTRY, b_entry),
    'single': (ocsp.SingleResponse, SINGLE, b_single), 'request': (ocsp.Request, REQUEST, b_request), 'orequest': (ocsp.OCSPRequest, OREQUEST, b_orequest),
    'oresponse': (ocsp.OCSPResponse, ORESPONSE, b_oresponse),
}


def container(kind, o):
    """the extension list of a structure, by field names"""
    path = {'cert': ('tbs_certificate', 'extensions'), 'crl': ('tbs_cert_list', 'crl_extensions'), 'entry': ('crl_entry_extensions',),
            'single': ('single_extensions',), 'request': ('single_request_extensions',), 'orequest': ('tbs_request', 'request_extensions')}[kind]
    for p in path:
        o = o[p]
    return o


def pick(rng, kind):
    """list of (oid, value, critical) with distinct identifiers, or None"""
    table = KINDS[kind][1]
    if rng.random() < .05:
        return None
    oids = list(table) + list(NAMED.get(kind, ())) + UNKNOWN
    n = rng.choice([1, 1, 2, 3, 4, 6, len(oids)])
    out = []
    for o in rng.sample(oids, min(n, len(oids))):
        v = table[o][1](rng) if o in table else rng.choice([b'', b'\xff', der.NULL, b'\x30\x80'])
        out.append((o, v, rng.choice([None, None, True, False])))
    return out


def named(kind, o):
    t = KINDS[kind][1]
    return t[o][0] if o in t else NAMED.get(kind, {}).get(o, o)


def judge(kind, o, exts, order):
    table = KINDS[kind][1]
    have = {named(kind, i): v for i, v, _ in exts or ()}
    want = {named(kind, i) for i, _, cr in exts or () if cr}
    for n in order:
        if n == 'critical':
            if o.critical_extensions != want:
                return 'the critical extensions are %r, not %r' % (sorted(o.critical_extensions), sorted(want))
            continue
        v = getattr(o, n + '_value')
        if n not in have:
            if v is not None:
                return 'the absent %s is reported as %r' % (n, v)
        elif v is None:
            return 'the encoded %s is not reported' % n
        elif v.dump() != have[n] or type(v).load(have[n]).native != v.native:
            return 'the %s is %s, encoded as %s' % (n, v.dump().hex(), have[n].hex())


class Accessors(Bounded):
    name = 'every accessor and the critical set of every structure, any list of extensions'
    rule = 'random extensions of every kind in any order, random access orders, on loaded, copied and printed values; distinct: structure, extensions, order'
    seconds = 30

    def cases(self, rng, tier):
        for kind in KINDS:
            yield kind, None, list(KINDS[kind][1].values()) and [n for n, _ in KINDS[kind][1].values()] + ['critical'], 0
            for o in list(KINDS[kind][1]) + list(NAMED.get(kind, ())) + UNKNOWN[:1]:
                for cr in (None, True, False):
                    v = KINDS[kind][1][o][1](rng) if o in KINDS[kind][1] else b'\xff'
                    yield kind, [(o, v, cr)], [n for n, _ in KINDS[kind][1].values()] + ['critical'], 0
        while True:
            kind = rng.choice(['cert', 'cert', 'cert', 'crl', 'crl', 'entry', 'single', 'request', 'orequest', 'oresponse'])
            order = [n for n, _ in KINDS[kind][1].values()] + ['critical']
            rng.shuffle(order)
            order += rng.sample(order, 2)
            yield kind, pick(rng, kind), order, rng.randrange(5)

    def oracle(self, case):
        kind, exts, order, how = case
        cls, table, build = KINDS[kind]
        w = build(None if exts is None else [certs.ext(o, v, cr) for o, v, cr in exts], {})
        o = cls.load(w)
        other = cls.load(build([], {}))
        if how == 1 and all(i in table for i, _, _ in exts or ()):
            o.native
        if how == 2:
            o = o.copy()
        if how == 3:
            judge(kind, o, exts, order[:2])
            o = o.copy()
        m = judge(kind, o, exts, order)
        if m:
            return '%s: %s' % (kind, m)
        if o.dump() != w:
            return '%s: reading the extensions changes the encoding' % kind
        for n in order:
            v = other.critical_extensions if n == 'critical' else getattr(other, n + '_value')
            if v:
                return '%s: another value has %s' % (kind, n)


class Inside(Bounded):
    name = 'structures inside lists of others: entries of a CRL, requests, responses; extensions requested in a CSR'
    rule = 'random lists of structures with random extensions; distinct: the lists'
    seconds = 15

    def cases(self, rng, tier):
        while True:
            kind = rng.choice(['entry', 'single', 'request', 'csr'])
            yield kind, [pick(rng, 'cert' if kind == 'csr' else kind) for _ in range(rng.randrange(1, 4))], rng.random()

    def oracle(self, case):
        kind, lists, r = case
        rng = random.Random(r)
        if kind == 'csr':
            lists = [[e for e in x or () if e[0] not in NAMED['cert']] for x in lists]
            exts = [certs.ext(*e) for e in lists[0]]
            attr = der.seq(der.oid('1.2.840.113549.1.9.14'), der.set_(der.seq(*exts)))
            other = der.seq(der.oid('1.2.840.113549.1.9.7'), der.set_(der.utf8('pw')))
            w = der.seq(der.seq(der.integer(0), NAMES[1], certs.SPKI, ctx(0, *sorted([attr, other]))), certs.SHA256_RSA, BITS)
            o = csr.CertificationRequest.load(w)
            got = None
            for a in o['certification_request_info']['attributes']:
                if a['type'].native == 'extension_request':
                    got = a['values'][0]
            if got is None or len(got) != len(lists[0] or ()):
                return 'the requested extensions are not reported'
            for g, (i, v, cr) in zip(got, lists[0] or ()):
                if g['extn_id'].native != named('cert', i) or g['critical'].native is not bool(cr) or bytes(g['extn_value']) != v:
                    return 'the requested extension %s is reported as %s' % (i, g['extn_id'].native)
                if i in CERT and (g['extn_value'].parsed.dump() != v):
                    return 'the requested extension %s has the value %s' % (i, g['extn_value'].parsed.dump().hex())
            return None if o.dump() == w else 'reading changes the encoding'
        build = KINDS[kind][2]
        enc = [build(None if x is None else [certs.ext(o, v, cr) for o, v, cr in x], {}) for x in lists]
        if kind == 'entry':
            w = der.seq(der.seq(der.integer(1), certs.SHA256_RSA, NAMES[1], certs.utctime(), certs.utctime(), der.seq(*enc)), certs.SHA256_RSA, BITS)
            o = crl.CertificateList.load(w)
            items = lambda: o['tbs_cert_list']['revoked_certificates']
        elif kind == 'request':
            w = der.seq(der.seq(der.seq(*enc)))
            o = ocsp.OCSPRequest.load(w)
            items = lambda: o['tbs_request']['request_list']
        else:
            basic_ = der.seq(der.seq(ctx(2, der.octets(bytes(20))), gtime_now(), der.seq(*enc)), certs.SHA256_RSA, BITS)
            w = der.seq(TLV(10, b'\0'), ctx(0, der.seq(der.oid('1.3.6.1.5.5.7.48.1.1'), der.octets(basic_))))
            o = ocsp.OCSPResponse.load(w)
            items = lambda: o.response_data['responses']
        order = [n for n, _ in KINDS[kind][1].values()] + ['critical']
        for _ in range(2):
            its = list(enumerate(items()))
            rng.shuffle(its)
            for i, x in its:
                rng.shuffle(order)
                m = judge(kind, x, lists[i], order)
                if m:
                    return '%s %d: %s' % (kind, i, m)
        if o.critical_extensions:
            return 'the extensions of an entry are reported for the whole'


# ------------------------------------------------------------------------------------------ derived values
def elements(b):
    """(tag byte, contents, whole) of each element; lengths below 2**24"""
    out = []
    while b:
        n, h = b[1], 2
        if n >= 128:
            k = n & 127
            n, h = int.from_bytes(b[2:2 + k], 'big'), 2 + k
        out.append((b[0], b[h:h + n], b[:h + n]))
        b = b[h + n:]
    return out


def inner(b):
    return elements(elements(b)[0][1])


def point_urls(b):
    """for each point: None when it has no full name with URLs, else its URLs"""
    out = []
    for _, pt, _ in inner(b):
        f = [e for e in elements(pt) if e[0] == 0xa0]
        urls = None
        if f:
            full = elements(f[0][1])[0]
            if full[0] == 0xa0:
                urls = [v.decode() for t, v, _ in elements(full[1]) if t == 0x86]
            else:
                urls = 'relative'
        out.append(urls)
    return out


def aia_urls(b, method):
    out = []
    for _, e, _ in inner(b):
        m, loc = elements(e)
        if m[2] == der.oid(method) and loc[0] == 0x86:
            out.append(loc[1].decode())
    return out


WEB = ('http://', 'https://', 'ldap://', 'ldaps://')


def key_of(n):
    """what identifies a name: its components, prepared"""
    return [[(e[0][2], prep.prep(e[1][1].decode())) for e in [elements(a[1]) for a in elements(c)]] for _, c, _ in inner(n)]


def serial_hash(issuer, serial):
    return hashlib.sha256(issuer).digest() + b':' + str(serial).encode()


def derived(d, exts):
    have = {CERT[i][0]: v for i, v, _ in exts or () if i in CERT}
    out = {'serial_number': d['serial'], 'issuer_serial': serial_hash(d['issuer'], d['serial']),
           'self_issued': key_of(d['subject']) == key_of(d['issuer'])}
    kid = elements(have['key_identifier'])[0][1] if 'key_identifier' in have else None
    out['key_identifier'] = kid
    out['authority_key_identifier'] = out['authority_issuer_serial'] = None
    if 'authority_key_identifier' in have:
        f = {t: v for t, v, _ in inner(have['authority_key_identifier'])}
        out['authority_key_identifier'] = f.get(0x80)
        dirs = [v for t, v, _ in elements(f.get(0xa1, b'')) if t == 0xa4]
        if dirs and 0x82 in f:
            out['authority_issuer_serial'] = serial_hash(dirs[0], int.from_bytes(f[0x82], 'big', signed=True))
    akid = out['authority_key_identifier']
    out['self_signed'] = 'maybe' if out['self_issued'] and (not kid or not akid or kid == akid) else 'no'
    b = [(t, v) for t, v, _ in inner(have['basic_constraints'])] if 'basic_constraints' in have else []
    out['ca'] = (1, b'\xff') in b
    path = [int.from_bytes(v, 'big') for t, v in b if t == 2]
    out['max_path_length'] = path[0] if out['ca'] and path else None
    out['ocsp_urls'] = [u for u in aia_urls(have['authority_information_access'], '1.3.6.1.5.5.7.48.1') if u.lower().startswith(WEB)] \
        if 'authority_information_access' in have else []
    out['points'] = [point_urls(have[k]) if k in have else [] for k in ('crl_distribution_points', 'freshest_crl')]
    return out


def check_points(got, urls):
    want = [u for u in urls if u and u != 'relative']
    seen = []
    for g in got:
        if not any(g is s for s in seen):
            seen.append(g)
    if len(seen) != len(want):
        return 'the distribution points with URLs are %d, not %d' % (len(seen), len(want))
    for g, us in zip(seen, want):
        u = next((u for u in us if u.lower().startswith(WEB)), None)
        for _ in range(2):
            if (g.url or '').lower() != (u or '').lower() or (g.url is None) is not (u is None):
                return 'the URL of a distribution point is %r, not %r' % (g.url, u)


class Derived(Bounded):
    name = 'values derived from certificates: identifiers, serials, URLs, self-issued status, digests'
    rule = 'random certificates, every derived value read in random order, again, and from a copy; distinct: the certificate and order'
    seconds = 30

    ORDER = ['serial_number', 'issuer_serial', 'self_issued', 'key_identifier', 'authority_key_identifier', 'authority_issuer_serial', 'self_signed', 'ca',
             'max_path_length', 'ocsp_urls', 'crl_distribution_points', 'delta_crl_distribution_points']

    def cases(self, rng, tier):
        while True:
            d = {'subject': rng.choice(NAMES), 'issuer': rng.choice(NAMES), 'serial': rng.choice(SERIAL)}
            exts = pick(rng, 'cert') or []
            for oid in ('2.5.29.14', '2.5.29.35', '2.5.29.31', '2.5.29.46', '1.3.6.1.5.5.7.1.1', '2.5.29.19'):
                if rng.random() < .5 and oid not in [e[0] for e in exts]:
                    exts.insert(rng.randrange(len(exts) + 1), (oid, CERT[oid][1](rng), rng.choice([None, True])))
            order = list(self.ORDER)
            rng.shuffle(order)
            yield d, exts, order, rng.randrange(3)

    def oracle(self, case):
        d, exts, order, how = case
        w = b_cert([certs.ext(*e) for e in exts], d)
        o = x509.Certificate.load(w)
        want = derived(d, exts)
        for rep in range(2):
            for n in order:
                got = getattr(o, n)
                if n.endswith('distribution_points'):
                    m = check_points(got, want['points'][n.startswith('delta')])
                    if m:
                        return m
                elif n == 'ca':
                    if bool(got) is not want['ca']:
                        return 'ca is %r' % got
                elif n == 'ocsp_urls':
                    # the scheme and host of a URL are reported in lower case
                    if [u.lower() for u in got] != [u.lower() for u in want[n]]:
                        return '%s is %r, not %r' % (n, got, want[n])
                elif got != want[n] or type(got) is not type(want[n]):
                    return '%s is %r, not %r' % (n, got, want[n])
            if how == 1 and rep == 0:
                o = o.copy()
        h = hashlib.sha1(w).digest(), hashlib.sha256(w).digest()
        if (o.sha1, o.sha256) != h or o.sha1_fingerprint != ' '.join('%02X' % b for b in h[0]) or o.sha256_fingerprint != ' '.join('%02X' % b for b in h[1]):
            return 'the digests are not those of the certificate'
        if o.dump() != w or o.issuer.dump() != d['issuer'] or o.subject.dump() != d['subject'] or o.signature != b'\1\2' or o.public_key.dump() != certs.SPKI:
            return 'the fields are not those encoded'
        if (o.signature_algo, o.hash_algo) != ('rsassa_pkcs1v15', 'sha256') or o.not_valid_before.isoformat() != '2020-01-01T00:00:00+00:00' \
                or o.not_valid_after.isoformat() != '2030-01-01T00:00:00+00:00':
            return 'the algorithms or validity are not those encoded'


class DerivedCRL(Bounded):
    name = 'values derived from CRLs and their entries, OCSP responses without a response'
    rule = 'random CRLs and entries, the values read in random order and again; distinct: the CRL or entry'
    seconds = 15

    def cases(self, rng, tier):
        for s in range(7):
            yield 'status', s, None
        while True:
            kind = rng.choice(['crl', 'entry'])
            exts = pick(rng, kind) or []
            for oid in ('2.5.29.35', '2.5.29.46', '1.3.6.1.5.5.7.1.1') if kind == 'crl' else ('2.5.29.29',):
                if rng.random() < .5 and oid not in [e[0] for e in exts]:
                    exts.append((oid, KINDS[kind][1][oid][1](rng), rng.choice([None, True])))
            yield kind, exts, rng.choice(NAMES)

    def oracle(self, case):
        kind, exts, issuer = case
        if kind == 'status':
            o = ocsp.OCSPResponse.load(der.seq(TLV(10, bytes([exts]))))
            r = (o.critical_extensions, o.nonce_value, o.extended_revoke_value, o.basic_ocsp_response, o.response_data)
            return None if r == (set(), None, None, None, None) else 'a response without data has %r' % (r,)
        enc = [certs.ext(*e) for e in exts]
        table = KINDS[kind][1]
        have = {table[i][0]: v for i, v, _ in exts if i in table}
        if kind == 'entry':
            o = crl.RevokedCertificate.load(b_entry(enc, {}))
            dirs = [v for t, v, _ in inner(have['certificate_issuer']) if t == 0xa4] if 'certificate_issuer' in have else []
            for _ in range(2):
                got = o.issuer_name
                if (got.untag().dump() if got is not None and got.explicit else got.dump() if got is not None else None) != (dirs[0] if dirs else None):
                    return 'the issuer of an entry is %r' % got
            return
        w = b_crl(enc, {'issuer': issuer})
        o = crl.CertificateList.load(w)
        akid = None
        if 'authority_key_identifier' in have:
            akid = {t: v for t, v, _ in inner(have['authority_key_identifier'])}.get(0x80)
        urls = [u for u in aia_urls(have['authority_information_access'], '1.3.6.1.5.5.7.48.2') if u.lower().startswith('http://')] \
            if 'authority_information_access' in have else []
        for _ in range(2):
            m = check_points(o.delta_crl_distribution_points, point_urls(have['freshest_crl']) if 'freshest_crl' in have else [])
            if m:
                return m
            if [u.lower() for u in o.issuer_cert_urls if u.lower().startswith('http://')] != [u.lower() for u in urls]:
                return 'the issuer certificate URLs are %r, not %r' % (o.issuer_cert_urls, urls)
            if o.authority_key_identifier != akid or o.issuer.dump() != issuer or o.signature != b'\1\2':
                return 'the fields are not those encoded'
        if (o.sha1, o.sha256) != (hashlib.sha1(w).digest(), hashlib.sha256(w).digest()) or o.dump() != w:
            return 'the digests are not those of the CRL'


class Broken(Bounded):
    name = 'a derived value that cannot be read is refused every time'
    rule = 'certificates with one extension that is not well formed; distinct: the extension'
    seconds = 5
    exhaustive = True

    def cases(self, rng, tier):
        bad = uri('http://a/') + TLV(0x86, b'\xff\xfe')
        yield 'crl_distribution_points', '2.5.29.31', der.seq(der.seq(ctx(0, ctx(1, der.seq(der.oid(certs.CN), der.utf8('x'))))))
        yield 'crl_distribution_points', '2.5.29.31', der.seq(der.seq(ctx(0, ctx(0, TLV(0x86, b'\xff'), bad))))
        yield 'ocsp_urls', '1.3.6.1.5.5.7.1.1', der.seq(der.seq(der.oid('1.3.6.1.5.5.7.48.1'), bad))
        for p in ('valid_domains', 'valid_ips'):
            yield p, '2.5.29.17', der.seq(certs.general('dns', b'a.b'), certs.general('ip', b'\1\2\3\4'), certs.general('dns', b'\xff'), certs.general('ip', b'\1'))

    def oracle(self, case):
        n, oid, v = case
        c = x509.Certificate.load(b_cert([certs.ext(oid, v)], {}))

        def read():
            try:
                if n == 'crl_distribution_points':
                    return [p.url for p in c.crl_distribution_points_value]
                return getattr(c, n)
            except ValueError:
                return ValueError
        first = read()
        for _ in range(2):
            if read() != first:
                return '%s: read again %r, at first %r' % (n, read(), first)


# ------------------------------------------------------------------------------------------ symbolic: the scan
class Scan(Unit):
    """all accessors over k extensions, in two orders, each read twice.  Identifiers are chosen among all names with an
    accessor and one without; the critical flags and the parsed values are arbitrary."""
    max_paths = 40000

    def __init__(self, kind, k, few=None, thorough=False):
        self.kind, self.k, self.few, self.thorough_only = kind, k, few, thorough
        cls = KINDS[kind][0]
        self.targets = tuple(cls.__module__ + '.' + cls.__name__ + '.' + n for n in [n + '_value' for n, _ in KINDS[kind][1].values()] + ['critical_extensions'])
        self.name = '%s, accessors: %d extensions%s' % (cls.__name__, k, ' (of %d kinds)' % few if few else '')
        self.bounded_note = 'number of extensions fixed'
        self.assumptions = ('contracts of ParsableOctetString.parsed (C15) and Boolean.native (C09)',)
        names = [(o, n) for o, (n, _) in KINDS[kind][1].items()]
        self.pool = (names[:few - 1] if few else names) + [('1.2.3.4', '1.2.3.4')]

    def run(self, it):
        c = it.ctx
        cls, table, build = KINDS[self.kind]
        picked = [self.pool[c.choose(len(self.pool))] for _ in range(self.k)]
        if len(set(picked)) < len(picked):
            # the identifiers of a list are distinct (RFC 5280 4.2)
            c.assume(z3.BoolVal(False))
        for i, (o, n) in enumerate(picked):
            c.input('oid%d' % i, o)
        o = cls.load(build([certs.ext(p, table[p][1](random.Random(3)) if p in table else b'\xff', False) for p, _ in picked], {}))
        if self.kind == 'oresponse':
            ext = o['response_bytes']['response'].parsed['tbs_response_data']['response_extensions']
        else:
            ext = container(self.kind, o)
        parsed, crit = {}, {}
        for i, e in enumerate(ext):
            parsed[id(e['extn_value'])] = ('value', i)
            crit[id(e['critical'])] = c.in_bool('critical%d' % i)
            e['extn_id']
        it.contracts = dict(it.contracts)
        it.contracts['asn1crypto.core.ParsableOctetString.parsed'] = lambda it_, f, a, k: parsed.get(id(a[0]), MISSING)
        it.contracts['asn1crypto.core.Boolean.native'] = lambda it_, f, a, k: crit.get(id(a[0]), MISSING)
        got = {}
        names = [n for _, n in self.pool if n != '1.2.3.4']
        if self.kind == 'cert':
            names = [n for n in names if n in [p[1] for p in picked]] + [n for n in names if n not in [p[1] for p in picked]][:3]
        asked = ['critical_extensions'] + [n + '_value' for n in names]
        for n in asked if c.choose(2) else asked[::-1]:
            got[n] = getp(it, o, n)
        again = {n: getp(it, o, n) for n in asked}
        ok = all(got[n][0] == 'ret' and again[n] == got[n] for n in asked)
        for n in names:
            i = [j for j, p in enumerate(picked) if p[1] == n]
            ok = ok and got[n + '_value'][1] == (('value', i[0]) if i else None)
        c.prove('each value is that of its own extension, the others are absent', z3.BoolVal(bool(ok)))
        got = got['critical_extensions'][1]
        goal = z3.BoolVal(isinstance(got, (set, frozenset)) and got <= {n for _, n in picked})
        for i, (_, n) in enumerate(picked):
            goal = z3.And(goal, Z(crit[id(ext[i]['critical'])]) == z3.BoolVal(isinstance(got, (set, frozenset)) and n in got))
        c.prove('the critical set is exactly the names marked critical', goal)

    def oracle(self, i):
        cls, table, build = KINDS[self.kind]
        exts = []
        for k in range(self.k):
            o = i.get('oid%d' % k)
            if o is None:
                return None
            v = table[o][1](random.Random(k)) if o in table else b'\xff'
            exts.append((o, v, bool(i.get('critical%d' % k))))
        order = [n for n, _ in table.values()] + ['critical']
        o = cls.load(build([certs.ext(*e) for e in exts], {}))
        return judge(self.kind, o, exts, order)

    def gen(self, rng):
        p = rng.sample(self.pool, min(self.k, len(self.pool)))
        d = {'oid%d' % j: o for j, (o, _) in enumerate(p)}
        d.update({'critical%d' % j: rng.random() < .5 for j in range(self.k)})
        return d


X = 'asn1crypto.x509.Certificate.'


class SelfSigned(Unit):
    targets = (X + 'self_signed', X + 'self_issued', X + 'key_identifier', X + 'authority_key_identifier')
    name = 'self_signed: any identifiers, any comparison of the names'
    max_paths = 500
    assumptions = ('contract of the comparison of names (C19) and of OctetString.native (C08)',)

    def run(self, it):
        c = it.ctx
        issued = c.in_bool('self_issued')
        ids, exts = {}, []
        for n, e in (('key_identifier', certs.ext('2.5.29.14', der.octets(b'x'))), ('authority_key_identifier', certs.ext('2.5.29.35', der.seq(TLV(0x80, b'y'))))):
            if c.choose(2):
                ids[n] = c.in_bytes(n, 0)
                exts.append(e)
            else:
                ids[n] = None
                c.input(n, None)
        o = x509.Certificate.load(b_cert(exts, {}))
        known = {}
        if ids['key_identifier'] is not None:
            known[id(o.key_identifier_value)] = ids['key_identifier']
        if ids['authority_key_identifier'] is not None:
            known[id(o.authority_key_identifier_value['key_identifier'])] = ids['authority_key_identifier']
        it.contracts = dict(it.contracts)
        it.contracts['asn1crypto.x509.Name.__eq__'] = lambda it_, f, a, k: issued
        it.contracts['asn1crypto.core.OctetString.native'] = lambda it_, f, a, k: known.get(id(a[0]), MISSING)
        r, v = getp(it, o, 'self_signed')
        r2, v2 = getp(it, o, 'self_signed')
        a, b = ids['key_identifier'], ids['authority_key_identifier']
        maybe = Z(issued)
        if a is not None and b is not None:
            maybe = z3.And(maybe, z3.Or(bound(blen(a)) == 0, bound(blen(b)) == 0, beq(it, a, b)))
        c.prove('maybe exactly when the names are equal and the identifiers do not differ',
                z3.And(z3.BoolVal(r == 'ret' and v in ('maybe', 'no') and (r2, v2) == (r, v)), maybe == z3.BoolVal(v == 'maybe')))

    def oracle(self, i):
        exts = []
        if i.get('key_identifier') is not None:
            exts.append(('2.5.29.14', der.octets(i['key_identifier']), None))
        if i.get('authority_key_identifier') is not None:
            exts.append(('2.5.29.35', der.seq(TLV(0x80, i['authority_key_identifier'])), None))
        d = {'subject': NAMES[1], 'issuer': NAMES[2] if i['self_issued'] else NAMES[3], 'serial': 5}
        return Derived().oracle((d, exts, ['self_signed', 'self_issued'], 0))

    def gen(self, rng):
        g = lambda: rng.choice([None] + KEYID)
        return {'self_issued': rng.random() < .7, 'key_identifier': g(), 'authority_key_identifier': g()}


class Authority(Unit):
    """constraints and identifiers from optional fields"""
    targets = (X + 'max_path_length', X + 'ca', X + 'key_identifier', X + 'authority_key_identifier')
    name = 'ca, max_path_length and key identifiers: present or not, any value'
    max_paths = 500
    assumptions = ('contracts of Integer.native, Boolean.native and OctetString.native (C08, C09)',)

    def run(self, it):
        c = it.ctx
        present, path = bool(c.choose(2)), bool(c.choose(2))
        c.input('present', present)
        c.input('path', path)
        ca, n = c.in_bool('ca'), c.in_int('n')
        kid, akid = c.in_bytes('kid', 0), c.in_bytes('akid', 0)
        known = {}
        exts = []
        if present:
            exts = [certs.ext('2.5.29.19', der.seq(der.boolean(True), *([der.integer(5)] if path else []))), certs.ext('2.5.29.14', der.octets(b'x')),
                    certs.ext('2.5.29.35', der.seq(*([TLV(0x80, b'y')] if path else [])))]
        o = x509.Certificate.load(b_cert(exts, {}))
        if present:
            b = o.basic_constraints_value
            known = {id(b['ca']): ca, id(o.key_identifier_value): kid}
            if path:
                known[id(b['path_len_constraint'])] = n
                known[id(o.authority_key_identifier_value['key_identifier'])] = akid
        it.contracts = dict(it.contracts)
        for q in ('Boolean', 'Integer', 'OctetString'):
            it.contracts['asn1crypto.core.%s.native' % q] = lambda it_, f, a, k: known.get(id(a[0]), MISSING)
        r, v = getp(it, o, 'max_path_length')
        if present and path and c.branch(Z(ca)):
            c.prove('the path length is the one encoded', r == 'ret' and is_int(v) and Z(v) == Z(n))
        else:
            c.prove('no path length unless it is a CA with one', z3.BoolVal((r, v) == ('ret', None)))
        r, v = getp(it, o, 'ca')
        c.prove('CA exactly when marked', (r == 'ret' and Z(v) == Z(ca)) if present else z3.BoolVal(r == 'ret' and not v))
        r, v = getp(it, o, 'key_identifier')
        c.prove('the key identifier is the one encoded', (r == 'ret' and is_bytes(v) and beq(it, v, kid)) if present else z3.BoolVal((r, v) == ('ret', None)))
        r, v = getp(it, o, 'authority_key_identifier')
        c.prove('the authority key identifier is the one encoded',
                (r == 'ret' and is_bytes(v) and beq(it, v, akid)) if present and path else z3.BoolVal((r, v) == ('ret', None)))

    def oracle(self, i):
        exts = []
        if i['present']:
            exts.append(('2.5.29.19', der.seq(*([der.boolean(True)] if i.get('ca') else []), *([der.integer(abs(i.get('n', 5)))] if i['path'] else [])), True))
            exts.append(('2.5.29.14', der.octets(i.get('kid', b'x')), None))
            exts.append(('2.5.29.35', der.seq(*([TLV(0x80, i.get('akid', b'y'))] if i['path'] else [])), None))
        d = {'subject': NAMES[1], 'issuer': NAMES[3], 'serial': 5}
        return Derived().oracle((d, exts, ['max_path_length', 'ca', 'key_identifier', 'authority_key_identifier'], 0))

    def gen(self, rng):
        return {'present': rng.random() < .8, 'path': rng.random() < .6, 'ca': rng.random() < .6, 'n': rng.randrange(300), 'kid': rng.choice(KEYID), 'akid': rng.choice(KEYID)}


LEVEL = 'other'
UNITS = [Scan(k, n) for k in KINDS for n in ((0, 1, 2) if k != 'cert' else (0, 1))] + [Scan('cert', 2, 6), Scan('cert', 2, None, True), Scan('crl', 3, 4), Scan('cert', 3, 4, True)] + \
    [SelfSigned(), Authority()]
BOUNDED = [Accessors, Inside, Derived, DerivedCRL, Broken]
