"""C20: a certificate is valid for a host exactly when one of its names matches it."""
import ipaddress, itertools, re, socket
from .common import *  # noqa
from oracle import der
from . import certs

X = 'asn1crypto.x509.Certificate.'


# ------------------------------------------------------------------------------------------ the contract
def address(s):
    try:
        if '%' in s:
            return None
        return ipaddress.ip_address(s).packed
    except ValueError:
        return None


def alabels(s):
    """the A-labels of a name; None when it is not a domain name"""
    try:
        return s.encode('idna').decode('ascii').lower().split('.')
    except UnicodeError:
        return None


LABEL = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def looks_like_domain(s):
    """a common name that counts: optional wildcard label, letter-digit-hyphen labels, at least two, the last one of letters"""
    ls = s.split('.')
    if ls[0] == '*':
        ls = ls[1:]
    if len(ls) < 2 or len(ls[-1]) < 2 or any(c not in LABEL[:52] for c in ls[-1]):
        return False
    return all(x and all(c in LABEL + '-' for c in x) and x[0] != '-' and x[-1] != '-' for x in ls)


def matches(host, pattern):
    """host, pattern: lists of labels"""
    if len(host) != len(pattern):
        return False
    if host == pattern:
        return True
    if '.'.join(pattern).count('*') != 1 or '*' not in pattern[0] or pattern[0].startswith('xn--') or host[1:] != pattern[1:]:
        return False
    i = pattern[0].index('*')
    a, b = pattern[0][:i], pattern[0][i + 1:]
    return any(host[0] == a + host[0][len(a):len(a) + k] + b for k in range(len(host[0]) + 1))


def domains(cns, san):
    """san: None or list of (kind, octets)"""
    if san:
        out = []
        for k, v in san:
            if k == 'dns' and v.decode('idna') not in out:
                out.append(v.decode('idna'))
        return out
    return [c for c in cns if looks_like_domain(c)]


def valid(cns, san, host):
    h = host.encode('idna').decode('ascii').lower()
    if ':' in h or re.fullmatch(r'[0-9]+\.[0-9]+\.[0-9]+\.[0-9]+', h):
        a = address(h)
        return a is not None and any(k == 'ip' and v == a for k, v in san or ())
    hl = h.split('.')
    return any(matches(hl, p) for p in map(alabels, domains(cns, san)) if p is not None)


# ------------------------------------------------------------------------------------------ certificates
def cert(cns, san, split=False, critical=None):
    subject = certs.name([(certs.ORG, 'x.example.net')] + [(certs.CN, c) for c in cns])
    exts = [certs.ext('2.5.29.19', der.seq(), True), certs.ext('2.5.29.14', der.octets(b'1234'))]
    if san is not None:
        exts.insert(1, certs.ext(certs.SAN, der.seq(*[certs.general(k, v) for k, v in san]), critical))
    return certs.certificate(subject, certs.name([(certs.CN, 'issuer.example.org')]), exts)


def check(cns, san, hosts, order=0):
    w = cert(cns, san, critical=(None, True)[order % 2])
    c = x509.Certificate.load(w)
    if order == 1:
        c.native
    if order == 2:
        c = c.copy()
    if order == 3:
        c.valid_ips, c.valid_domains
    d = domains(cns, san)
    for h in hosts:
        try:
            want = valid(cns, san, h)
        except UnicodeError:
            want = ValueError
        for x in (c, x509.Certificate.load(w)) if order < 4 else (c,):
            try:
                got = x.is_valid_domain_ip(h)
            except ValueError:
                got = ValueError
            if want is ValueError and got is False:
                continue
            if got is not want:
                return 'common names %a, alternative names %r: valid for %a is %r, not %r' % (cns, san, h, got, want)
    if c.valid_domains != d:
        return 'the domains of common names %r, alternative names %r are %r, not %r' % (cns, san, c.valid_domains, d)
    ips = [i for i in c.valid_ips]
    want = [v for k, v in san or () if k == 'ip']
    if len(ips) != len(want):
        return 'the addresses are %r' % ips
    for i, v in zip(ips, want):
        if len(v) in (4, 16) and address(i) != v:
            return 'the address %s is reported as %s' % (v.hex(), i)
    if c.dump() != w:
        return 'asking changes the certificate'


ALPHA = ['a', '*', 'x', '.', 'A', 'n', '-']
SPECIAL = ['[', '(', '+', '?', '$', '^', '\\', '|', '{', '.*', '\n', '_', '1', ' ']


class Wild(Bounded):
    name = 'one DNS name, one host: every short pattern and host'
    rule = 'patterns of up to 5 characters over a * . b, hosts of up to 4 over a b . A; then patterns with special characters; distinct: the pattern'
    seconds = 25

    def cases(self, rng, tier):
        for k in range(1, 6 if tier != 'quick' else 5):
            for p in itertools.product('a*.b', repeat=k):
                p = ''.join(p)
                try:
                    p.encode('ascii').decode('idna')
                except UnicodeError:
                    continue
                yield p
        while True:
            p = ''.join(rng.choice(ALPHA + SPECIAL) for _ in range(rng.randrange(1, 8))) + rng.choice(['', '.com', '.a.b', '.xn--bcher-kva.com'])
            try:
                p.encode('ascii').decode('idna')
            except UnicodeError:
                continue
            yield p

    HOSTS = [''.join(h) for k in range(1, 5) for h in itertools.product('ab.', repeat=k)]
    HOSTS = [h for h in HOSTS if '..' not in h and h[0] != '.']

    def oracle(self, p):
        hosts = self.HOSTS if all(c in 'a*.b' for c in p) else \
            [p, p.upper(), p.replace('*', 'a'), p.replace('*', ''), p.replace('*', 'a.b'), p.replace('*', 'xn--a'), 'a' + p, p + 'a', p[1:], p[:-1], 'b' + p[1:],
             'a.com', 'xn--bcher-kva.com', 'a.b']
        c = x509.Certificate.load(cert([], [('dns', p.encode('ascii'))]))
        for h in hosts:
            try:
                want = valid([], [('dns', p.encode('ascii'))], h)
            except UnicodeError:
                continue
            got = c.is_valid_domain_ip(h)
            if got is not want:
                return 'the name %r is reported %r for the host %r' % (p, got, h)


def label(rng):
    return rng.choice(['a', 'b', 'www', 'WWW', 'example', 'Example', 'com', 'org', 'b\u00fccher', '\u4f8b', 'stra\u00dfe', '*', 'w*', '*w', 'w*w', 'xn--bcher-kva', 'a-b', '1', '10',
                       'x' * 63])


def host_of(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    return '.'.join(label(rng) for _ in range(n))


IPS = ['1.2.3.4', '10.0.0.1', '255.255.255.255', '::1', '::', 'fe80::1', '::ffff:1.2.3.4', '::1.2.3.4', '2001:db8::a', '1:2:3:4:5:6:7:8']
NOIPS = ['256.1.1.1', '1.2.3', '1.2.3.4.5', '01.2.3.4', '1.2.3.4 ', ':::', '1::2::3', 'fe80::1%eth0', '::1/128', '10.0.0.0/8', 'a:b', 'example.com:443', '[::1]', '1.2.3.4.', '']


class Certs(Bounded):
    name = 'certificates with common and alternative names of every kind, hosts made from them'
    rule = 'random names and hosts; distinct: the certificate and the hosts'
    seconds = 30

    def cases(self, rng, tier):
        while True:
            cns = [rng.choice([host_of(rng), rng.choice(IPS), 'Will Bond', 'a.b\n', 'a.com\n', 'localhost', '*.example.com', 'a..com', '-a.com', 'a_b.com']) for _ in range(rng.choice([0, 1, 1, 2]))]
            san = None
            if rng.random() < .75:
                san = []
                for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                    k = rng.choice(['dns', 'dns', 'ip', 'ip', 'email', 'uri', 'dir', 'rid'])
                    if k == 'dns':
                        v = host_of(rng)
                        if rng.random() < .1:
                            v = rng.choice(['.' + v, v + '.', '1.2.3.4', 'x' * 64 + '.com', ''])
                        try:
                            v = v.encode('idna')
                        except UnicodeError:
                            v = v.encode('ascii', 'ignore')
                        if rng.random() < .2:
                            v = v.upper() if b'XN--' not in v.upper() else v
                        try:
                            v.decode('idna')
                        except UnicodeError:
                            continue
                    elif k == 'ip':
                        v = ipaddress.ip_address(rng.choice(IPS)).packed if rng.random() < .85 else rng.choice(
                            [b'\x0a\0\0\0\xff\0\0\0', b'\1\2\3\4\xff\xff\xff\xff', bytes(15) + b'\1' + b'\xff' * 16])
                    else:
                        v = {'email': b'a@example.com', 'uri': b'http://www.example.com/', 'dir': certs.name([(certs.CN, 'dir.example.com')]), 'rid': b'\x2a\3'}[k]
                    san.append((k, v))
            hosts = [rng.choice(IPS), rng.choice(NOIPS), host_of(rng)]
            for s in cns + [v.decode('latin-1') for k, v in san or () if k == 'dns']:
                hosts += [s, s.swapcase(), s.replace('*', 'a'), s.split('.', 1)[-1], 'a.' + s, s.split('.')[0]]
                try:
                    hosts.append(s.encode('ascii').decode('idna'))
                except UnicodeError:
                    pass
            for k, v in san or ():
                if k == 'ip' and len(v) in (4, 16):
                    a = ipaddress.ip_address(v)
                    hosts += [str(a), a.exploded, a.exploded.upper()]
            hosts += ['www.example.com', 'dir.example.com', 'x.example.net', 'issuer.example.org', 'example.com']
            yield cns, san, hosts, rng.randrange(6)

    def oracle(self, case):
        cns, san, hosts, order = case
        return check(cns, san, hosts, order)


BAD = [5, None, b'a.com', ['a.com']]


class WrongType(Bounded):
    name = 'hosts that are not text are refused'
    rule = 'four values; distinct: the value'
    seconds = 2
    exhaustive = True

    def cases(self, rng, tier):
        for b in BAD:
            yield b

    def oracle(self, b):
        c = x509.Certificate.load(cert(['a.com'], None))
        try:
            return 'accepted: %r' % c.is_valid_domain_ip(b)
        except TypeError:
            pass


# ------------------------------------------------------------------------------------------ symbolic
class Domains(Unit):
    """the answer over k names, each of them an arbitrary wildcard or not, matching or not (contracts of the two helpers)"""
    targets = (X + 'is_valid_domain_ip',)
    max_paths = 2000
    assumptions = ('contracts of _is_wildcard_domain and _is_wildcard_match (decided for every short pattern and host)', 'the idna codec of Python')

    def __init__(self, k):
        self.k = k
        self.name = 'is_valid_domain_ip: %d names, any combination of matches' % k
        self.bounded_note = 'number of names fixed'

    NAMES = ['a.example.com', 'A.Example.COM', 'b.example.com', 'example.com', 'x.a.example.com', '']

    def run(self, it):
        c = it.ctx
        picked = [c.choose(len(self.NAMES)) for _ in range(self.k)]
        for i, p in enumerate(picked):
            c.input('name%d' % i, p)
        names = [self.NAMES[p] for p in picked]
        o = x509.Certificate.load(cert([], [('dns', n.encode()) for n in names] + [('ip', b'\1\2\3\4')]))
        names = [n.lower() for n in names]
        wild = {n: c.in_bool('wild%d' % i) for i, n in enumerate(sorted(set(names)))}
        match = {n: c.in_bool('match%d' % i) for i, n in enumerate(sorted(set(names)))}
        asked = set()

        def is_wild(it_, f, a, k):
            if len(a) == 2 and a[1] in wild:
                asked.add(a[1])
                return wild[a[1]]
            return MISSING
        it.contracts = dict(it.contracts)
        it.contracts[X + '_is_wildcard_domain'] = is_wild
        it.contracts[X + '_is_wildcard_match'] = lambda it_, f, a, k: match['.'.join(a[2])] if len(a) == 3 and isinstance(a[2], list) and \
            list(a[1]) == ['a', 'example', 'com'] and '.'.join(a[2]) in match else MISSING
        r, v = meth(it, o, 'is_valid_domain_ip', 'a.EXAMPLE.com')
        want = z3.BoolVal(False)
        for n in wild:
            if n == 'a.example.com':
                want = z3.BoolVal(True)
            elif n.count('.') == 2 and n in asked:
                want = z3.Or(want, z3.And(Z(wild[n]), Z(match[n])))
        c.prove('valid exactly when one of the names matches', r == 'ret' and (Z(v) if isinstance(v, (SBool, bool)) else z3.BoolVal(False)) == want)

    def oracle(self, i):
        pats = ['a.example.com', 'A.Example.COM', '*.example.com', 'example.com', 'x.a.example.com', '']
        for other in ('*.example.com', 'b.example.com', '*.example.org', 'a*.example.com', 'xn--*.example.com'):
            pats[2] = other
            san = [('dns', pats[i['name%d' % k]].encode()) for k in range(self.k) if 'name%d' % k in i]
            m = check([], san, ['a.EXAMPLE.com', 'b.example.com', 'example.com'], 0)
            if m:
                return m

    def gen(self, rng):
        return {'name%d' % k: rng.randrange(len(self.NAMES)) for k in range(self.k)}


class Addresses(Unit):
    """the answer over k listed addresses of arbitrary octets"""
    targets = (X + 'is_valid_domain_ip',)
    max_paths = 2000
    assumptions = ('contract of inet_pton: the octets of the address (C18)',)

    def __init__(self, k):
        self.k = k
        self.name = 'is_valid_domain_ip: %d listed addresses, any octets' % k
        self.bounded_note = 'number of addresses fixed'

    TEXT = ['1.2.3.4', '::1', '::ffff:1.2.3.4', '10.0.0.0/8']

    def run(self, it):
        c = it.ctx
        picked = [c.choose(len(self.TEXT)) for _ in range(self.k)]
        host = ('5.6.7.8', '2001:DB8::5', '::ffff:5.6.7.8', '300.1.1.1')[c.choose(4)]
        c.input('host', host)
        texts = [self.TEXT[p] for p in picked]
        o = x509.Certificate.load(cert([], [('dns', b'a.com')] + [('ip', b'\x0a\0\0\0\xff\0\0\0' if '/' in t else ipaddress.ip_address(t).packed) for t in texts]))
        texts = [t if '/' in t else i for t, i in zip(texts, o.valid_ips)]
        for i, t in enumerate(texts):
            c.input('ip%d' % i, self.TEXT[picked[i]])
        octs = {}
        for t in sorted(set(texts + [host])):
            four = ':' not in t
            octs[t.lower()] = c.in_bytes('octets of ' + t, 4 if four else 16)
            c.assume(bound(blen(octs[t.lower()])) == (4 if four else 16))
        asked = []

        def pton(it_, fam, t):
            asked.append(t)
            if t == '300.1.1.1' or '/' in t or (fam == socket.AF_INET) != (':' not in t):
                raise PyRaise(OSError('illegal IP address string passed to inet_pton'))
            return octs.get(t.lower(), MISSING)
        it.native_contracts = {socket.inet_pton: pton}
        r, v = meth(it, o, 'is_valid_domain_ip', host)
        want = z3.BoolVal(False)
        for t in texts:
            if '/' not in t and host != '300.1.1.1' and (':' in t) == (':' in host):
                want = z3.Or(want, beq(it, octs[t], octs[host.lower()]))
        c.prove('valid exactly when the address is listed', r == 'ret' and (Z(v) if isinstance(v, (SBool, bool)) else z3.BoolVal(False)) == want)

    def oracle(self, i):
        san = []
        for k in range(self.k):
            t = i.get('ip%d' % k, '::1')
            san.append(('ip', b'\x0a\0\0\0\xff\0\0\0' if '/' in t else (i.get('octets of ' + t) or ipaddress.ip_address(t).packed)))
        hosts = [i['host'], '10.0.0.0', '10.0.0.0/8'] + [str(ipaddress.ip_address(v)) for _, v in san if len(v) in (4, 16)]
        return check(['a.com'], san, hosts, 0)

    def gen(self, rng):
        return dict({'ip%d' % k: rng.choice(self.TEXT) for k in range(self.k)}, host=rng.choice(['5.6.7.8', '::ffff:5.6.7.8']))


LEVEL = 'other'
UNITS = [Domains(k) for k in (0, 1, 2, 3)] + [Addresses(k) for k in (0, 1, 2)]
BOUNDED = [Wild, Certs, WrongType]
