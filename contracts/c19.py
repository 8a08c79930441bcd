"""C19: comparison of distinguished names is an equivalence that hash keys respect."""
import itertools, unicodedata
from .common import *  # noqa
from oracle import der
from oracle.prep import prep, Prohibited

X = 'asn1crypto.x509.'
TYPES = {'common_name': '2.5.4.3', 'organization_name': '2.5.4.10', 'country_name': '2.5.4.6', 'surname': '2.5.4.4', 'user_id': '0.9.2342.19200300.100.1.1',
         'organizational_unit_name': '2.5.4.11', 'email_address': '1.2.840.113549.1.9.1', 'domain_component': '0.9.2342.19200300.100.1.25',
         'unique_identifier': '2.5.4.45', 'tpm_model': '2.23.133.2.2', 'telephone_number': '2.5.4.20', '1.2.3.4': '1.2.3.4', '1.2.3.40': '1.2.3.40'}
FREE = ('1.2.3.4', '1.2.3.40')      # types without a declared value
STRINGS = {'teletex': (0x14, 'latin-1'), 'printable': (0x13, 'ascii'), 'bmp': (0x1e, 'utf-16-be'), 'universal': (0x1c, 'utf-32-be'), 'utf8': (0x0c, 'utf-8'),
           'ia5': (0x16, 'ascii')}
DIRECTORY = ('teletex', 'printable', 'bmp', 'universal', 'utf8')


def forms_of(t):
    if t in ('email_address', 'domain_component'):
        return ('ia5',)
    if t == 'tpm_model':
        return ('utf8',)
    if t == 'telephone_number':
        return ('printable',)
    if t in FREE:
        return DIRECTORY[1:]        # TeletexString proper has another character set
    return DIRECTORY


# A name is described by a list of components, each a list of (type, form, value)
def wire_value(form, v):
    if form in STRINGS:
        tag, enc = STRINGS[form]
        return der.tlv(tag, v.encode(enc))
    if form == 'bits':
        return der.tlv(3, bytes([v[1]]) + v[0])
    return v                    # DER


def wire(name):
    return der.seq(*[der.set_(*[der.seq(der.oid(TYPES[t]), wire_value(f, v)) for t, f, v in rdn]) for rdn in name])


def key_value(form, v):
    if form in STRINGS:
        return 's', prep(v)
    if form == 'bits':
        return 'b', v[0], v[1]
    return 'd', v


def key(name):
    return [sorted((TYPES[t],) + key_value(f, v) for t, f, v in rdn) for rdn in name]


class Prep(Bounded):
    name = 'string preparation of every code point'
    rule = 'every code point alone and within a word, in blocks of 1024; distinct: the block'
    seconds = 60
    exhaustive = True

    def cases(self, rng, tier):
        for b in range(0x110000 // 1024):
            if 0x30000 <= b * 1024 < 0xe0000 and tier == 'quick' and b % 16:
                continue        # unassigned planes
            yield b

    def oracle(self, b):
        n = x509.NameTypeAndValue()
        for o in range(b * 1024, b * 1024 + 1024):
            m = chk_prep(n, chr(o))
            if m:
                return m
        return chk_prep(n, 'Ab%sC' % chr(b * 1024 + 65)) or chk_prep(n, 'Ab%s%sC' % (chr(b * 1024), chr(b * 1024 + 7)))


def chk_prep(n, s):
    try:
        got = n._ldap_string_prep(s)
    except ValueError:
        got = None
    try:
        want = prep(s)
    except Prohibited:
        want = None
    if got != want:
        return '%a is prepared as %a, not %a' % (s, got, want)


ODD = [' ', '  ', '\t', '\n', '\x85', '\u00a0', '\u2003', '\u200b', '\u00ad', '\u3000', '\ufe0f', '\ufe8f', '\ufee1', '\x00', '\x1f', '\x1e', 'A', 'a', 'B', '\u00c9', '\u00e9',
       'e\u0301', '\u00df', '\u0130', '\u03a3', '\u03c3', '\ufb01', '\u1e9e', '\u2160', '\uff21', '\u05d0', '\u0627', '1', ',', ':', ': ', '=', '+', '\u00a8', '\u0378', '\ue000',
       '\ufffd', '\U0001d400', '\u1806', '\u034f', '\u00bd']


class Text(Bounded):
    name = 'string preparation of strings with white space, combining and ignored code points'
    rule = 'every string of up to 6 code points over six, then random strings; distinct: the string'
    seconds = 15

    def cases(self, rng, tier):
        for k in range(0, 7 if tier != 'quick' else 6):
            for s in itertools.product(' a\t\u00a0\u200b\u00ad', repeat=k):
                yield ''.join(s)
        while True:
            yield ''.join(rng.choice(ODD) for _ in range(rng.randrange(1, 12)))

    def oracle(self, s):
        return chk_prep(x509.NameTypeAndValue(), s)


def load(w, how=0):
    x = x509.Name.load(w)
    if how == 1:
        x.native
        x.hashable
    if how == 2:
        x = x.copy()
    if how == 3:
        y = x509.Name.load(w)
        y.hashable
        x = y.copy()
    if how == 4:
        x = x509.GeneralName(name='directory_name', value=x).chosen
    if how == 5:
        x.dump(force=True)
    return x


def safe(f):
    try:
        return f()
    except ValueError as e:
        return e


def compare(a, b, wa, wb, how=(0, 0)):
    """two described names against the contract"""
    try:
        want = key(a) == key(b)
    except Prohibited:
        want = ValueError
    x, y = load(wa, how[0]), load(wb, how[1])
    got = safe(lambda: x == y)
    if want is ValueError:
        return None             # prohibited code points: refused or different
    hx, hy = x.hashable, y.hashable
    out = [(got, 'x == y'), (y == x, 'y == x'), (not (x != y), 'not x != y'), (hx == hy, 'equal hash keys'),
           (x.chosen == y.chosen, 'equal sequences'), (x.chosen.hashable == y.chosen.hashable, 'equal hash keys of the sequences')]
    for r, what in out:
        if r is not want:
            return '%s is %r for %s and %s' % (what, r, wa.hex(), wb.hex())
    if not (x == x and y == y and x == load(wa) and y.copy() == y) or x != x:
        return '%s does not equal itself' % wa.hex()
    for i, (r, s) in enumerate(zip(x.chosen, y.chosen)):
        w = key([a[i]]) == key([b[i]])
        if (r == s) is not w or (s == r) is not w or (r != s) is w or (r.hashable == s.hashable) is not w:
            return 'component %d: == is not %r, or the hash keys are not, for %s and %s' % (i, w, wa.hex(), wb.hex())
        for (m, p), (n, q) in itertools.product(zip(r, parts(r, a[i])), zip(s, parts(s, b[i]))):
            w = key([[p]]) == key([[q]])
            if (m == n) is not w or (m != n) is w:
                return 'attribute == is not %r for %r and %r' % (w, p, q)
    if not isinstance(hx, str):
        return 'the hash key is %r' % (hx,)


def parts(rdn, desc):
    """the descriptions in the order of the elements"""
    byw = {}
    for p in desc:
        byw.setdefault(der.seq(der.oid(TYPES[p[0]]), wire_value(p[1], p[2])), []).append(p)
    return [byw[v.dump()][0] for v in rdn]


VALS = ['a', 'b', 'A']


def small():
    ntvs = [(t, 'utf8', v) for t in ('common_name', '1.2.3.4') for v in VALS]
    rdns = [[n] for n in ntvs] + [list(p) for p in itertools.combinations(ntvs, 2)] + [list(p) for p in itertools.combinations(ntvs, 3)][::4]
    return rdns


class Small(Bounded):
    name = 'every pair of small names'
    rule = 'components of up to three attributes of two types and three values; names of up to two components; distinct: the pair'
    seconds = 20
    exhaustive = True

    def cases(self, rng, tier):
        rdns = small()
        one = [[r] for r in rdns] + [[]]
        for a, b in itertools.product(one, one):
            yield a, b
        two = [list(p) for p in itertools.product(rdns[:10], rdns[:10])]
        pairs = list(itertools.product(two, two))
        rng.shuffle(pairs)
        for a, b in pairs if tier != 'quick' else pairs[:1500]:
            yield a, b

    def oracle(self, case):
        a, b = case
        return compare(a, b, wire(a), wire(b))


def text(rng, form):
    n = rng.choice([0, 1, 1, 2, 3, 5])
    if form in ('printable', 'ia5'):
        return ''.join(rng.choice(['a', 'b', 'C', ' ', '  ', 'Z', '1', '.', ':', ',', '-']) for _ in range(n))
    if form == 'teletex':
        return ''.join(rng.choice(['a', 'B', ' ', '  ', '\u00e9', '\u00c9', '\u00df', '\u00a0', ':', '\u00ad']) for _ in range(n))
    return ''.join(rng.choice(['a', 'B', ' ', '  ', '\u00e9', '\u00c9', '\u0416', '\u0436', '\u03c3', '\u03a3', '\u3000', '\u200b', '\ufb01', 'fi', '\t', '\x1e',
                               '\x1f', '\ufe8f', '\uff41', ':', '\u00bd', '\ufe0e', '\u00ad']) for _ in range(n))


def variant(rng, s, form):
    """the same text for a comparison"""
    enc = STRINGS[form][1]
    def ok(x):
        try:
            x.encode(enc)
            return form != 'bmp' or all(ord(c) < 0x10000 for c in x)
        except UnicodeEncodeError:
            return False
    for _ in range(20):
        how = rng.randrange(6)
        if how == 0:
            t = ''.join(rng.choice([c.lower(), c.upper()]) if len(c.upper()) == len(c.lower()) == 1 else c for c in s)
        elif how == 1:
            t = rng.choice(['', ' ', '   ']) + s + rng.choice(['', ' ', '\t' if form != 'printable' else ' '])
        elif how == 2:
            t = s.replace(' ', rng.choice([' ', '   ', '\u00a0', '\u3000']))
        elif how == 3:
            k = rng.randrange(len(s) + 1)
            t = s[:k] + rng.choice(['\u200b', '\u00ad', '\ufe00', '\x00', '\x1f']) + s[k:]
        elif how == 4:
            t = unicodedata.normalize(rng.choice(['NFC', 'NFD', 'NFKC']), s)
        else:
            t = s
        if form in ('printable', 'ia5') and not all(c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 '()+,-./:=?" for c in t):
            continue
        if form == 'teletex' and any(ord(c) < 0x20 or 0x7f <= ord(c) < 0xa0 for c in t):
            continue
        if ok(t):
            return t
    return s


def attribute(rng):
    t = rng.choice(sorted(TYPES))
    if t == 'unique_identifier':
        return t, 'bits', (rng.choice([b'a', b'a', b'A', b'\x81\x9f', b'a \x1fcommon_name:  b', b'a\x1e', b'\xf0', gen.rbytes(rng, 3)]), 0)
    if t in FREE and rng.random() < .4:
        return t, 'der', rng.choice([der.integer(1), der.integer(2), der.boolean(True), der.NULL, der.octets(b'a'), der.octets(b' a '), der.seq(der.integer(1)),
                                     der.tlv(3, b'\0a'), der.oid('1.2.3'), der.seq()])
    f = rng.choice(forms_of(t))
    s = text(rng, f)
    if f == 'ia5':
        s = 'ab' + s.replace(' ', '').replace('.', '').replace('-', '').replace(':', '').replace(',', '')
    if t == 'email_address':
        s = s + '@' + rng.choice(['example.com', 'Example.com', 'b.org'])
    return t, f, s


def rename(rng, name):
    """a change that may or may not matter"""
    name = [list(r) for r in name]
    how = rng.randrange(9)
    if not name:
        return name
    i = rng.randrange(len(name))
    r = name[i]
    j = rng.randrange(len(r))
    t, f, v = r[j]
    if how == 0:
        rng.shuffle(r)
    elif how == 1:
        rng.shuffle(name)
    elif how == 2 and f in STRINGS:
        g = rng.choice(forms_of(t))
        w = variant(rng, v, g if f not in ('ia5',) else f)
        try:
            w.encode(STRINGS[g][1])
            if g == 'teletex' and any(ord(c) < 0x20 or 0x7f <= ord(c) < 0xa0 for c in w):
                return name
            r[j] = t, g, w
        except UnicodeEncodeError:
            pass
    elif how == 3 and f in STRINGS and f != 'ia5':
        r[j] = t, f, variant(rng, v, f)
    elif how == 4:
        r[j] = attribute(rng)
    elif how == 5:
        r.append(rng.choice(r) if rng.random() < .5 else attribute(rng))
    elif how == 6 and len(r) > 1:
        r.pop(j)
    elif how == 7:
        name.insert(i, [attribute(rng)])
    elif how == 8 and len(name) > 1:
        a = name.pop(i)
        name[i - 1 if i else 0].extend(a)
    # identical attributes of a set are one value: leave them to DER
    return name


def fresh(rng):
    return [[attribute(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))] for _ in range(rng.choice([0, 1, 2, 3, 4]))]


def readable(name):
    try:
        x = x509.Name.load(wire(name))
        x.native
        key(name)
        return True
    except (ValueError, Prohibited):
        return False


class Names(Bounded):
    name = 'pairs and triples of names: every string type, spacing, case, order, and values that are not strings'
    rule = 'random names of up to 4 components and 3 attributes each; the others made from them by 0 to 3 changes; distinct: the names'
    seconds = 30

    def cases(self, rng, tier):
        while True:
            a = fresh(rng)
            b = a
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                b = rename(rng, b)
            c = rename(rng, b)
            yield a, b, c, [rng.randrange(6) for _ in range(3)]

    def oracle(self, case):
        a, b, c, how = case
        if not (readable(a) and readable(b) and readable(c)):
            return None
        wa, wb, wc = wire(a), wire(b), wire(c)
        m = compare(a, b, wa, wb, how[:2]) or compare(b, c, wb, wc, how[1:]) or compare(a, c, wa, wc, (how[0], how[2]))
        if m:
            return m
        x, y, z = load(wa), load(wb), load(wc)
        if x == y and y == z and not x == z:
            return 'equality is not transitive for %s, %s, %s' % (wa.hex(), wb.hex(), wc.hex())
        for o in (5, 'a', None, wa, x.chosen if len(x.chosen) else 7, core.Null()):
            if x == o or not x != o:
                return 'the name equals %r' % (o,)


class Changed(Bounded):
    name = 'names that are changed after they were compared'
    rule = 'random names: read, compared and hashed, then given the attributes of another; distinct: the names'
    seconds = 10

    def cases(self, rng, tier):
        while True:
            yield fresh(rng), fresh(rng), rng.randrange(3)

    def oracle(self, case):
        a, b, how = case
        if not (readable(a) and readable(b)) or not a or not b:
            return None
        x, y = load(wire(a)), load(wire(b))
        for o in (x, y):
            o.native, o.hashable, o.sha1, o.sha256, o == o
        if how == 0:            # a component
            x.chosen[0] = y.chosen[0]
            a = [b[0]] + a[1:]
        elif how == 1:
            x.chosen.append(y.chosen[0])
            a = a + [b[0]]
        else:                   # an attribute in place
            if len(a[0]) != 1 or len(b[0]) != 1 or a[0][0][0] != b[0][0][0]:
                return None
            x.chosen[0][0]['value'] = y.chosen[0][0]['value']
            a = [b[0]] + a[1:]
        w = load(wire(a))
        if x.dump() != w.dump():
            return 'the changed name encodes as %s, not %s' % (x.dump().hex(), w.dump().hex())
        if not x == w or not w == x or x.hashable != w.hashable or x.sha1 != w.sha1 or x.sha256 != w.sha256 or x.native != w.native:
            return 'the changed name %s does not equal a fresh one, or has another hash or native value' % w.dump().hex()
        return compare(a, b, x.dump(), wire(b))


# ------------------------------------------------------------------------------------------ symbolic
class Sym(Unit):
    """the comparisons over any prepared values: prepped_value is a contract giving an arbitrary value per attribute"""
    max_paths = 4000
    time_s = 200
    cost = 30
    assumptions = ('prepped_value depends on the attribute value alone (string preparation is decided separately)',)

    def setup(self, it, *names):
        c = it.ctx
        vals = {}

        def prepped(it_, f, args, kwargs):
            o = args[0]
            if id(o) not in vals:
                vals[id(o)] = o, c.in_int('v%d' % len(vals))
            return vals[id(o)][1]
        it.contracts = dict(it.contracts)
        it.contracts[X + 'NameTypeAndValue.prepped_value'] = prepped
        for n in names:
            for r in n:
                for a in r:
                    it.getattr(a, 'prepped_value')
        return lambda a: Z(it.getattr(a, 'prepped_value'))


class Attr(Sym):
    name = 'attributes are equal exactly when type and prepared value are'
    targets = (X + 'NameTypeAndValue.__eq__', X + 'NameTypeAndValue.__ne__')
    covers = ('same type', 'other type')

    def run(self, it):
        c = it.ctx
        ts = sorted(TYPES)[:3]
        i, j = c.choose(3), c.choose(3)
        a, b = [x509.NameTypeAndValue({'type': ts[k], 'value': core.UTF8String('x')}) if ts[k] in FREE else
                x509.NameTypeAndValue({'type': ts[k], 'value': x509.DirectoryString(name='utf8_string', value='x')}) for k in (i, j)]
        v = self.setup(it, [[a, b]])
        c.cover('same type' if i == j else 'other type')
        for x, y in ((a, b), (b, a)):
            w = z3.And(i == j, v(a) == v(b))
            c.prove('==', Z(self.eq(it, x, y)) == w)
            c.prove('!=', Z(self.ne(it, x, y)) == z3.Not(w))
        c.prove('other objects', Z(self.eq(it, a, core.Null())) == False)   # noqa

    def eq(self, it, x, y):
        r, e = meth(it, x, '__eq__', y)
        it.ctx.prove('comparison does not fail', r == 'ret')
        return e

    ne = lambda self, it, x, y: meth(it, x, '__ne__', y)[1]


PERMS = {k: list(itertools.permutations(range(k))) for k in range(4)}


class Component(Attr):
    """components of m and n attributes: equal exactly when some pairing makes every attribute equal"""
    targets = (X + 'RelativeDistinguishedName.__eq__', X + 'RelativeDistinguishedName.__ne__', X + 'RelativeDistinguishedName._get_values')
    covers = ()

    def __init__(self, m, n):
        self.m, self.n = m, n
        self.name = 'components of %d and %d attributes: equal as multisets' % (m, n)
        self.thorough_only = m == n == 3
        self.bounded_note = 'numbers of attributes fixed, of two types; prepared values unbounded'

    def attrs(self, c, k):
        ts = ('common_name', 'surname')
        out = []
        for i in range(k):
            t = ts[c.choose(2)]
            out.append((t, x509.NameTypeAndValue({'type': t, 'value': x509.DirectoryString(name='utf8_string', value='x')})))
        return out

    def run(self, it):
        c = it.ctx
        a, b = self.attrs(c, self.m), self.attrs(c, self.n)
        r, s = [x509.RelativeDistinguishedName([x for _, x in k]) for k in (a, b)]
        # the elements as the component holds them
        a = [(x['type'].native, x) for x in r]
        b = [(x['type'].native, x) for x in s]
        v = self.setup(it, [[x for _, x in a + b]])
        w = z3.BoolVal(False)
        if self.m == self.n:
            w = z3.Or(*[z3.And(True, *[z3.And(a[i][0] == b[p[i]][0], v(a[i][1]) == v(b[p[i]][1])) for i in range(self.m)]) for p in PERMS[self.m]])
        for x, y in ((r, s), (s, r)):
            c.prove('==', Z(self.eq(it, x, y)) == w)
            c.prove('!=', Z(self.ne(it, x, y)) == z3.Not(w))


class Sequences(Attr):
    """names of m and n components: equal exactly when they have as many components and each equals the one in its place"""
    targets = (X + 'RDNSequence.__eq__', X + 'RDNSequence.__ne__', X + 'Name.__eq__', X + 'Name.__ne__')
    covers = ()
    assumptions = ('contract of RelativeDistinguishedName.__eq__: symmetric, depends on the components alone (its own units)',)

    def __init__(self, m, n):
        self.m, self.n = m, n
        self.name = 'names of %d and %d components: equal component by component, in order' % (m, n)
        self.bounded_note = 'numbers of components fixed; the components are arbitrary'

    def run(self, it):
        c = it.ctx
        mk = lambda k: x509.Name(name='', value=x509.RDNSequence([x509.RelativeDistinguishedName([x509.NameTypeAndValue(
            {'type': 'common_name', 'value': x509.DirectoryString(name='utf8_string', value='x')})]) for _ in range(k)]))
        a, b = mk(self.m), mk(self.n)
        ids = {}
        for o in list(a.chosen) + list(b.chosen):
            ids[id(o)] = o, c.in_int('c%d' % len(ids))

        def equal(it_, f, args, kwargs):
            if len(args) == 2 and id(args[0]) in ids and id(args[1]) in ids:
                return it.models.eq(it, ids[id(args[0])][1], ids[id(args[1])][1])
            return MISSING

        def differ(it_, f, args, kwargs):
            if len(args) == 2 and id(args[0]) in ids and id(args[1]) in ids:
                return SBool(ids[id(args[0])][1].z != ids[id(args[1])][1].z)
            return MISSING
        it.contracts = dict(it.contracts)
        it.contracts[X + 'RelativeDistinguishedName.__eq__'] = equal
        it.contracts[X + 'RelativeDistinguishedName.__ne__'] = differ
        v = lambda o: ids[id(o)][1].z
        w = z3.BoolVal(self.m == self.n)
        if self.m == self.n:
            w = z3.And(True, *[v(p) == v(q) for p, q in zip(a.chosen, b.chosen)])
        for x, y in ((a, b), (b, a), (a.chosen, b.chosen), (b.chosen, a.chosen)):
            c.prove('==', Z(self.eq(it, x, y)) == w)
            c.prove('!=', Z(self.ne(it, x, y)) == z3.Not(w))


LEVEL = 'other'
UNITS = [Attr] + [Component(m, n) for m in (1, 2, 3) for n in (1, 2, 3) if abs(m - n) < 2] + [
    Sequences(m, n) for m, n in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (3, 3), (4, 4), (3, 4))]
BOUNDED = [Prep, Text, Small, Names, Changed]
