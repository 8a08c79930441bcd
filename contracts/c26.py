"""C26: internet names convert between Unicode and ASCII form and compare canonically."""
import itertools, re
from .common import *  # noqa
from .common import blen, SBool, z3, bound
from oracle import der

UNRESERVED = set(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~')
SUB = "!$&'()*+,;="
GEN = ':/?#[]@'
# characters with a meaning of their own that a component may contain unescaped (RFC 3986)
OPEN = {'user': SUB, 'path': SUB + ':@/', 'query': SUB + ':@/?', 'fragment': SUB + ':@/?'}
PORTS = {'http': 80, 'https': 443}


class Refused(ValueError):
    pass


def split(u):
    m = re.fullmatch(r'(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?', u, re.S)
    return m.groups()


def sem(s, comp):
    """what a component says: octets, with the characters that have a meaning of their own told apart from their escapes"""
    out = []
    i = 0
    s = s or ''
    while i < len(s):
        if re.match('%[0-9A-Fa-f]{2}', s[i:i + 3]):
            b = int(s[i + 1:i + 3], 16)
            out.append(('escaped', chr(b)) if b < 128 and chr(b) in OPEN[comp] else b)
            i += 3
            continue
        if s[i] in OPEN[comp]:
            out.append(('open', s[i]))
        else:
            out.extend(s[i].encode('utf-8'))
        i += 1
    return out


def host_sem(h):
    """the host of an IRI or URI in comparable form"""
    if h.startswith('['):
        return h.lower()
    return h.lower().encode('idna').decode('ascii').lower() if h else ''


def authority(a):
    """(user, password, host, port)"""
    if a is None:
        return None, None, '', None
    user = pw = None
    if '@' in a:
        ui, a = a.rsplit('@', 1)
        user, _, pw = ui.partition(':')
    m = re.fullmatch(r'(\[[^\]]*\]|[^:\[\]]*)(?::([0-9]*))?', a)
    if not m:
        raise Refused
    return user or None, pw or None, m.group(1), int(m.group(2)) if m.group(2) else None


def meaning(u):
    sch, auth, path, query, frag = split(u)
    user, pw, host, port = authority(auth)
    if port is not None and port > 65535:
        raise Refused
    return ((sch or '').lower(), sem(user, 'user'), sem(pw, 'user'), host_sem(host), port, sem(path, 'path'), sem(query, 'query'), sem(frag, 'fragment'))


def key(u):
    s, us, pw, h, p, path, q, f = meaning(u)
    if PORTS.get(s) == p:
        p = None
    if path == [('open', '/')] and not q and not f:
        path = []
    return (s, us, pw, h, p, path, q, f)


URI_TEXT = re.compile(r"(?:[A-Za-z0-9\-._~:/?#\[\]@!$&'()*+,;=]|%[0-9A-Fa-f]{2})*")


def tlv(cls, contents):
    return der.tlv(0x16, contents)


def check_uri(u):
    try:
        want = meaning(u)
    except (Refused, UnicodeError):
        want = None
    try:
        o = x509.URI(u)
    except ValueError:
        return 'the URI %a is refused' % u if want is not None and ordinary(u) else None
    if want is None or not ordinary(u):
        return None
    w = o.contents
    if not URI_TEXT.fullmatch(w.decode('latin-1')):
        return 'the URI %a is encoded as %r, which is no URI' % (u, w)
    if meaning(w.decode('ascii')) != want:
        return 'the URI %a is encoded as %r, which says something else' % (u, w)
    if o.native != u:
        return 'the URI %a reads back as %a' % (u, o.native)
    return check_wire(x509.URI, w, meaning)


def ordinary(u):
    """a URI that must be accepted: hosts and ports that are well formed and no control characters"""
    sch, auth, path, query, frag = split(u)
    if any(ord(c) < 32 for c in u) or re.search('[\ud800-\udfff]', u):
        return False
    if auth is None:
        return True
    if auth == '' and path.startswith('//'):
        # urlunsplit of Python drops the slashes
        return False
    try:
        _, _, h, p = authority(auth)
    except Refused:
        return False
    if not h and path.startswith('//'):
        return False
    return bool(re.fullmatch(r'[A-Za-z0-9._\-\u00fc\u00dc\u00df\u4f8b\u4e2d\u3002\uff41\u0307]*|\[[0-9a-fA-F:]*::[0-9a-fA-F:]*\]', h)) and '..' not in h and not h.startswith('.') and '[' not in auth.replace(h, '')


def check_wire(cls, w, says=None):
    """a value in wire form: kept, and its Unicode form encodes to the same octets"""
    b = tlv(cls, w)
    o = cls.load(b)
    n = o.native
    if o.dump() != b or o.contents != w or cls.load(b).dump(force=True) != b:
        return 'the wire form %r is changed to %r' % (w, o.dump())
    if says is not None and says(n) != says(w.decode('ascii')):
        return 'the wire form %r reads as %a, which says something else' % (w, n)
    back = cls(n).contents
    if back != w:
        return 'the wire form %r reads as %a, which is encoded as %r' % (w, n, back)


TOKENS = ['a', 'Z', '/', '%', '%41', '%2f', '%2F', '%25', '%3F', '%23', '%c3%a9', '%C3', '%a9', '%ff', '\u00e9', '\u4f8b', ' ', '?', '#', '&', '=', '@', ':', '1', '%00', '%0a',
          '%7f', '+', '%20', '"', '<', '[', ']', '\\', '~', '%7E', "'", '%27', '|', '^', '\u202e', '%e2%80%ae', '\U0001f600', '%40', '%3a', '%26', '%', '\x00', '%5b']


class Components(Bounded):
    name = 'URIs: every short sequence of plain, escaped and non-ASCII pieces in each component'
    rule = 'up to two (thorough: three) pieces of %d in the path, query, fragment or user part, then longer random ones; distinct: the URI' % len(TOKENS)
    seconds = 30

    FRAMES = ['http://a.b/%s', 'http://a.b/?%s', 'http://a.b/#%s', 'http://%s@a.b/', 'http://u:%s@a.b/', 'mailto:%s', 'ldap://h/x%s?%s']

    def cases(self, rng, tier):
        for k in (1, 2):
            for f in self.FRAMES:
                for t in itertools.product(TOKENS, repeat=k):
                    t = ''.join(t)
                    if '@a.b' in f and any(c in t for c in '/?#[]@\\') or f.startswith('http://%s') and ':' in t:
                        continue
                    yield f.replace('%s', t)
        while True:
            f = rng.choice(self.FRAMES)
            t = ''.join(rng.choice(TOKENS) for _ in range(rng.randrange(3, 9)))
            if '@a.b' in f:
                t = re.sub(r'[/?#\[\]@\\:]', '', t)
            yield f.replace('%s', t)

    def oracle(self, u):
        return check_uri(u)


HOSTS = ['', 'a', 'a.b', 'A.B', 'b\u00fccher.ch', 'B\u00dcCHER.ch', 'xn--bcher-kva.ch', 'XN--BCHER-KVA.ch', 'stra\u00dfe.de', 'strasse.de', '\u4f8b.\u4e2d', 'a-b.c', '1.2.3.4', '[::1]',
         '[2001:DB8::A]', '[::FFFF:1.2.3.4]', 'a.b.', 'x' * 63 + '.c', '\uff41.b', 'a\u3002b', 'a_b.c', 'i\u0307.com', 'a.c']
SCHEMES = ['http', 'HTTP', 'https', 'ldap', 'ldaps', 'ftp', 'x-y.z+1']
PORT = ['', ':', ':80', ':443', ':0', ':0443', ':389', ':65535', ':65536', ':x']
PATHS = ['', '/', '/a', '/A', '/a/../b', '//', '/%61', '/%2F', '/%2f', '/%C3%A9', '/\u00e9', '/a b', '/a%20b', '/;x=1,2']
QUERY = ['', '?', '?q', '?Q', '?a=1&b=%26', '?%C3%A9', '?\u00e9', '?a/b?c']
FRAG = ['', '#', '#f', '#F', '#%41', '#A']
USERS = ['', 'u@', 'U@', 'u:p@', 'u:@', ':p@', '@', 'u%40v@', 'u%3ap:q@', '\u00e9:\u00e9@', 'u;v=1@']


def parts(rng):
    return [rng.choice(SCHEMES), '://', rng.choice(USERS) if rng.random() < .4 else '', rng.choice(HOSTS), rng.choice(PORT) if rng.random() < .5 else '',
            rng.choice(PATHS), rng.choice(QUERY) if rng.random() < .5 else '', rng.choice(FRAG) if rng.random() < .4 else '']


def random_uri(rng):
    return ''.join(parts(rng))


def pair(rng):
    """two URIs that differ in the way one part is written, or in one part"""
    p = parts(rng)
    q = list(p)
    i = rng.choice([0, 2, 3, 4, 4, 5, 6, 7])
    q[i] = rng.choice({0: SCHEMES, 2: USERS, 3: HOSTS, 4: PORT, 5: PATHS, 6: QUERY, 7: FRAG}[i])
    return ''.join(p), ''.join(q)


def vary(rng, u):
    """another way to write a URI, or a different one"""
    k = rng.randrange(6)
    if k == 0:
        return u
    if k == 1:
        m = re.match(r'([^:]*://(?:[^/@]*@)?)([^/?#]*)(.*)', u, re.S)
        a, h, r = m.groups()
        if '@' not in a:
            a = a.swapcase()
        return a + (h.swapcase() if h.isascii() and '%' not in h else h) + r
    if k == 2:
        return re.sub('[a-z]', lambda m: '%%%02x' % ord(m.group()) if rng.random() < .3 else m.group(), u[u.find('/', 8):]) if False else \
            (u if u.count('/') < 3 else u[:u.find('/', u.find('//') + 2)] + re.sub('(?<!%)(?<!%.)[a-zA-Z]', lambda m: '%%%02X' % ord(m.group()) if rng.random() < .5 else m.group(),
                                                                                   u[u.find('/', u.find('//') + 2):]))
    if k == 3:
        return u.swapcase()
    if k == 4:
        return re.sub('%[0-9a-fA-F]{2}', lambda m: m.group().swapcase(), u)
    return random_uri(rng)


class Whole(Bounded):
    name = 'whole URIs: hosts, ports, users and paths; equality of two of them, on set and on loaded values'
    rule = 'ports and empty parts under every scheme, then random URIs and variations of them or changes of one part; distinct: the pair'
    seconds = 25

    def cases(self, rng, tier):
        # what two URIs may differ in and still be the same
        for s, s2 in itertools.product(SCHEMES, repeat=2):
            for p, p2 in itertools.product(['', ':', ':80', ':443', ':0443', ':389'], repeat=2):
                if s == s2 or p == p2:
                    yield s + '://a.b' + p + '/x', s2 + '://a.b' + p2 + '/x', 0
            for h, h2 in itertools.product(['', '/', '/?', '/#', '?', '#', '/?q', '?q', '/#f', '#f', '/?q#f', '?q#f', '//', '/a'], repeat=2):
                if s == s2:
                    yield s + '://a.b' + h, s2 + '://a.b' + h2, 0
        while True:
            u = random_uri(rng)
            yield u, vary(rng, u), rng.randrange(4)
            yield pair(rng) + (rng.randrange(4),)

    def oracle(self, case):
        u, v, how = case
        m = check_uri(u)
        if m:
            return m
        if not (ordinary(u) and ordinary(v)):
            return None
        try:
            ku, kv = key(u), key(v)
            a, b = x509.URI(u), x509.URI(v)
        except (Refused, ValueError):
            return None
        wire = a.contents, b.contents
        if how & 1:
            a = x509.URI.load(a.dump())
        if how & 2:
            b = x509.URI.load(b.dump())
        if (a == b) is not (ku == kv) or (b == a) is not (ku == kv) or (a != b) is (a == b):
            return 'the URIs %a and %a compare %r, not %r' % (u, v, a == b, ku == kv)
        if (a.contents, b.contents) != wire or a != a:
            return 'comparing changes the URIs'


def dns_wire(n):
    if n.startswith('.'):
        return b'.' + n[1:].encode('idna')
    return n.encode('idna')


LABELS = ['a', 'A', 'b', 'ab', 'Com', 'com', 'b\u00fccher', 'B\u00dcCHER', 'Bu\u0308cher', 'xn--bcher-kva', 'XN--bcher-KVA', 'stra\u00dfe', 'strasse', '\u4f8b', 'x' * 63, '*', '_x', '1', 'a-b',
          '\uff41', '\u0131', '\u0130', '\u03c3', '\u03c2', '\u1e9e', 'K', '\u212a', 'k']


def random_name(rng):
    return ('.' if rng.random() < .1 else '') + '.'.join(rng.choice(LABELS) for _ in range(rng.choice([1, 2, 2, 3]))) + ('.' if rng.random() < .05 else '')


class Domains(Bounded):
    name = 'domain names and e-mail addresses: ASCII form, Unicode form, equality'
    rule = 'every pair of labels, then random names, addresses and pairs of them; distinct: the pair'
    seconds = 25

    def cases(self, rng, tier):
        for a, b in itertools.product(LABELS, repeat=2):
            yield 'dns', a, b, 0
            yield 'dns', a + '.com', b + '.COM', 3
            yield 'mail', 'u@' + a, 'u@' + b, 1
        while True:
            kind = rng.choice(['dns', 'mail'])
            f = random_name
            a = f(rng)
            b = rng.choice([a, a.swapcase(), a.lower(), a.upper(), f(rng)])
            if kind == 'mail':
                m = rng.choice(['u', 'U', 'a@b', '"a b"', 'x.y+z', '', 'u%41'])
                a, b = m + '@' + a.strip('.'), rng.choice([m, m, m.swapcase(), 'v']) + '@' + b.strip('.')
                if rng.random() < .1:
                    a, b = rng.choice([(m, m), (m, m.swapcase()), (m, a), (a, m)])
            yield kind, a, b, rng.randrange(4)

    def wire(self, kind, n):
        if kind == 'dns':
            return dns_wire(n)
        if '@' not in n:
            return n.encode('ascii')
        m, h = n.rsplit('@', 1)
        return m.encode('ascii') + b'@' + h.encode('idna')

    def canonical(self, kind, w):
        if kind == 'dns':
            return w.lower()
        m, at, h = w.rpartition(b'@')
        return (m, h.lower()) if at else w

    def oracle(self, case):
        kind, a, b, how = case
        cls = {'dns': x509.DNSName, 'mail': x509.EmailAddress}[kind]
        objs, keys = [], []
        for n in (a, b):
            try:
                w = self.wire(kind, n)
                (w[1:] if w.startswith(b'.') else w.rsplit(b'@', 1)[-1]).decode('idna')
            except UnicodeError:
                return None
            o = cls(n)
            if o.contents != w or o.native != n or o.dump() != tlv(cls, w):
                return '%a is encoded as %r, not %r' % (n, o.contents, w)
            u = cls.load(tlv(cls, w))
            text = u.native
            if cls(text).contents.lower() != w.lower() or (w == w.lower() and cls(text).contents != w):
                return '%r reads as %a, which is encoded as %r' % (w, text, cls(text).contents)
            if u.dump() != tlv(cls, w):
                return '%r is changed by reading it' % w
            objs.append(o)
            keys.append(self.canonical(kind, w))
        x, y = objs
        before = x.dump(), y.dump()
        if how & 1:
            x = cls.load(x.dump())
        if how & 2:
            y = cls.load(y.dump())
        want = keys[0] == keys[1]
        if (x == y) is not want or (y == x) is not want or (x != y) is want:
            return '%a and %a compare %r, not %r' % (a, b, x == y, want)
        if (x.dump(), y.dump()) != before or (x.dump(force=True).lower(), y.dump(force=True).lower()) != (before[0].lower(), before[1].lower()):
            return 'comparing changes the names'
        tag = {'dns': ('dns_name', 0x82), 'mail': ('rfc822_name', 0x81)}[kind]
        g, h = (x509.GeneralName(name=tag[0], value=n) for n in (a, b))
        if (g == h) is not want or g.dump() != der.tlv(tag[1], objs[0].contents):
            return '%a and %a compare %r as general names' % (a, b, g == h)


class Wires(Bounded):
    name = 'values already in wire form are kept octet by octet: other string types, odd octets, tagging, comparison'
    rule = 'random octets and tags; distinct: the octets'
    seconds = 15

    def cases(self, rng, tier):
        while True:
            cls = rng.choice(['DNSName', 'EmailAddress', 'URI'])
            tag = rng.choice([0x16, 0x16, 12, 19] if cls != 'URI' else [0x16])
            w = rng.choice([b'', random_uri(rng).encode('utf-8'), random_name(rng).encode('utf-8'), b'U@' + random_name(rng).encode('utf-8'), bytes(rng.randrange(256) for _ in range(5)),
                            b'John@Example.COM', b'caf\xe9@Example.com', b'HTTP://EXAMPLE.com:80/%7e', b'XN--BCHER-KVA.Ch', b'a.B\0c'])
            yield cls, tag, w, rng.random() < .5

    def oracle(self, case):
        name, tag, w, read = case
        cls = getattr(x509, name)
        b = der.tlv(tag, w)
        o, p = cls.load(b), cls.load(b)
        for f in (lambda: o.native, lambda: str(o), lambda: o == p, lambda: p == o, lambda: o == cls.load(der.tlv(0x16, b'x@y.z'))) if read else (lambda: o == p,):
            try:
                f()
            except ValueError:
                pass
        if o.dump() != b or p.dump() != b or o.contents != w or tag == 0x16 and o.copy().dump() != b:
            return 'the wire form %s becomes %s' % (b.hex(), o.dump().hex())
        i = {'DNSName': 2, 'EmailAddress': 1, 'URI': 6}[name]
        g = x509.GeneralName.load(der.tlv(0x80 | i, w))
        try:
            g.native
        except ValueError:
            pass
        if g.dump() != der.tlv(0x80 | i, w):
            return 'the wire form %s becomes %s' % (der.tlv(0x80 | i, w).hex(), g.dump().hex())


class WrongType(Bounded):
    name = 'values that are not text are refused with TypeError'
    rule = 'four values per class; distinct: class and value'
    seconds = 2
    exhaustive = True

    def cases(self, rng, tier):
        for cls in ('DNSName', 'EmailAddress', 'URI'):
            for v in (5, b'a.b', ['a'], 1.5):
                yield cls, v

    def oracle(self, case):
        try:
            getattr(x509, case[0])(case[1])
        except TypeError:
            return None
        return 'accepted'


# ---------------------------------------------------------------------------------------------- contracts
MERGE = ('_merge_chunks of a value in chunks: the concatenation of them (proved for C08)',)


def low(x):
    return z3.If(z3.And(x >= 65, x <= 90), x + 32, x)


def alike(it, a, b):
    """formula: equal but for the case of ASCII letters"""
    n = bound(blen(a))
    j = z3.FreshConst(z3.IntSort(), 'i')
    return z3.And(n == bound(blen(b)), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), low(it.models.sel(a, j)) == low(it.models.sel(b, j)))))


def no_at(it, v):
    j = z3.FreshConst(z3.IntSort(), 'i')
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < bound(blen(v))), it.models.sel(v, j) != 64))


class Equal(Unit):
    covers = ('equal', 'different', 'in chunks', 'other type')
    assumptions = MERGE

    def __init__(self, cls):
        self.cls = getattr(x509, cls)
        self.name = '%s: equality of two values of any octets, whole or in chunks, neither of which it changes' % cls
        self.targets = ('asn1crypto.x509.%s.__eq__' % cls, 'asn1crypto.x509.%s.__ne__' % cls)

    def parts(self, it, i):
        """(mailbox or None, host)"""
        c = it.ctx
        if self.cls is x509.DNSName:
            return None, c.in_bytes('name%d' % i, 0)
        host = c.in_bytes('host%d' % i, 0)
        c.assume(no_at(it, host))
        if c.choose(2):
            return None, host
        return c.in_bytes('mailbox%d' % i, 0), host

    def run(self, it):
        c = it.ctx
        texts = {}
        it.contracts = {'asn1crypto.core.Constructable._merge_chunks': lambda it_, f, a, k: texts.get(id(a[0]), MISSING)}
        objs, parts = [], []
        for i in range(2):
            m, h = self.parts(it, i)
            v = h if m is None else concat(m, b'@', h)
            o = self.cls()
            if i and c.choose(2):
                it.setattr(o, 'contents', c.fresh_bytes('chunks', 2))
                o.__dict__.update(_indefinite=True, method=1, _trailer=b'\0\0')
                texts[id(o)] = v
                c.cover('in chunks')
            else:
                it.setattr(o, 'contents', v)
            objs.append(o)
            parts.append((m, h))
        kept = [dict(o.__dict__) for o in objs]
        (m1, h1), (m2, h2) = parts
        if self.cls is x509.DNSName:
            want = alike(it, h1, h2)
        elif m1 is None or m2 is None:
            # without a host nothing is case-insensitive
            want = beq(it, h1, h2) if m1 is m2 else z3.BoolVal(False)
        else:
            want = z3.And(beq(it, m1, m2), alike(it, h1, h2))
        a, b = objs
        if c.choose(2):
            a, b = b, a
        k, r = meth(it, a, '__eq__', b)
        if not c.prove('equality is decided', k == 'ret' and isinstance(r, (bool, SBool))):
            return
        eq = it.truth(r)
        c.cover('equal' if eq else 'different')
        c.prove('equal exactly when only the case of the host differs', want == eq)
        k, r = meth(it, a, '__ne__', b)
        if c.prove('inequality is decided', k == 'ret' and isinstance(r, (bool, SBool))):
            c.prove('unequal exactly when not equal', want == (not it.truth(r)))
        for o, d in zip(objs, kept):
            c.prove('comparing changes neither value', all(o.__dict__.get(x) is y for x, y in d.items()
                                                          if x in ('contents', '_contents', '_header', '_trailer', 'method', '_indefinite')))
        other = [core.IA5String('a'), x509.URI('a'), 'a', None][c.choose(4)]
        k, r = meth(it, a, '__eq__', other)
        c.prove('a value of another type is different', k == 'ret' and r is False)
        c.cover('other type')

    def gen(self, rng):
        w = lambda s: bytes(rng.choice(s) for _ in range(rng.randrange(4)))
        d = {}
        for i in range(2):
            d['name%d' % i] = d['host%d' % i] = w(b'aAbB.[{\x41\xc1\xe1')
            d['mailbox%d' % i] = w(b'aA@b')
        if rng.random() < .5:
            for k in ('name', 'host'):
                d[k + '1'] = d[k + '0'].swapcase()
            d['mailbox1'] = d['mailbox0']
        return d

    def oracle(self, d):
        bad = []
        for x in ([None] if self.cls is x509.DNSName else [0, 1]):
            for y in ([None] if x is None else [0, 1]):
                ws, keys = [], []
                for i, has in ((0, x), (1, y)):
                    h = d.get('host%d' % i, d.get('name%d' % i)) if has is not None else d['name%d' % i]
                    m = d.get('mailbox%d' % i, b'u') if has else None
                    ws.append(h if not has else m + b'@' + h)
                    keys.append(h.lower() if has is None else (m, h.lower()) if has else h)
                objs = [self.cls(contents=w) for w in ws]
                want = keys[0] == keys[1]
                for a, b in (objs, objs[::-1]):
                    if (a == b) is not want or (a != b) is want:
                        bad.append('%r and %r compare %r' % (a.contents, b.contents, a == b))
                if [o.contents for o in objs] != ws:
                    bad.append('comparing changes the values')
        return '; '.join(bad) or None


LEVEL = 'other'
UNITS = [Equal('DNSName'), Equal('EmailAddress')]
BOUNDED = [Components, Whole, Domains, Wires, WrongType]
