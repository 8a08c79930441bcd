"""Shared by C11 - C16: random declarations and values against the independent codec of oracle/schema.py, histories of changes
against a plain Python model, and the encoded values of /repo/tests/fixtures."""
from .common import *  # noqa
from oracle import schema, ops, x690, fixtures
import random as _random

KINDS = {'seq': ('seq', 'seqof'), 'set': ('set', 'setof'), 'all': None}


def contains(S, kinds):
    if S[0] in kinds:
        return True
    if S[0] in ('seq', 'set'):
        return any(contains(f, kinds) for _, f, _ in S[2])
    if S[0] in ('seqof', 'setof'):
        return contains(S[2], kinds)
    if S[0] == 'choice':
        return any(contains(a, kinds) for _, a in S[2])
    return False


def decl(rng, kinds=None, depth=None):
    g = schema.Gen(rng)
    while True:
        S = g.top(rng.choice([0, 1, 2, 2]) if depth is None else depth)
        if kinds is None or S[0] in kinds or rng.random() < .3 and contains(S, kinds):
            return g, S


def attempt(f):
    """('ret', value), ('refused', message) or ('escaped', message)"""
    try:
        return 'ret', f()
    except (ValueError, TypeError) as e:
        return 'refused', str(e)[:200]
    except Exception as e:
        return 'escaped', '%s: %s' % (type(e).__name__, str(e)[:200])


# ------------------------------------------------------------------------------------------------ building
def ways(S, v, rng):
    """the ways a value can be constructed"""
    kind = S[0]
    yield 'from Python values', lambda: schema.build(S, v)
    p = schema.params_of(S)
    if kind in ('seq', 'set'):
        def objs():
            o = schema.cls_of(S)(**p) if v else schema.cls_of(S)({}, **p)
            names = [(n, f) for n, f, q in S[2] if schema.has(v, n)]
            rng.shuffle(names)
            for n, f in names:
                if rng.random() < .5:
                    o[n] = schema.build(f, schema.get(v, n)) if rng.random() < .5 else schema.build(
                        schema.bare(f), schema.get(v, n))
                elif rng.random() < .5:
                    o[[k for k, _, _ in S[2]].index(n)] = schema.native_in(f, schema.get(v, n))
                else:
                    o[n] = schema.native_in(f, schema.get(v, n))
            return o
        yield 'field by field', objs
        yield 'from objects', lambda: schema.cls_of(S)(dict((n, schema.build(schema.bare(f), schema.get(v, n)))
                                                             for n, f, q in S[2] if schema.has(v, n)), **p)
    elif kind in ('seqof', 'setof'):
        def objs():
            o = schema.cls_of(S)(**p)
            for x in v:
                o.append(schema.native_in(S[2], x) if rng.random() < .5 else schema.build(S[2], x))
            if not v:
                return schema.cls_of(S)([], **p)
            return o
        yield 'element by element', objs
        yield 'from objects', lambda: schema.cls_of(S)([schema.build(S[2], x) for x in v], **p)
    elif kind == 'choice':
        a = dict(S[2])[v[0]]
        yield 'from a dict', lambda: schema.cls_of(S)({v[0]: schema.native_in(a, v[1])}, **p)
        yield 'from a tuple', lambda: schema.cls_of(S)((v[0], schema.native_in(a, v[1])), **p)
        yield 'from an object', lambda: schema.cls_of(S)(v[0], schema.build(a, v[1]), **p)


def chk_build(case):
    S, v, seed = case
    rng = _random.Random(seed)
    e = schema.enc(S, v)
    for how, f in ways(S, v, rng):
        r, o = attempt(f)
        if r != 'ret':
            return 'a value built %s is refused: %s' % (how, o)
        r, d = attempt(o.dump)
        if r != 'ret':
            return 'a value built %s can not be encoded: %s' % (how, d)
        if d != e:
            return 'a value built %s encodes as %s and not %s' % (how, d.hex(), e.hex())
        r, w = attempt(lambda: schema.walk(S, o))
        if r != 'ret' or not schema.same(S, w, v):
            return 'a value built %s reads as %r' % (how, w)
        r, n = attempt(lambda: schema.plain(o.native))
        if r != 'ret':
            return 'a value built %s has no native value: %s' % (how, n)
        if not contains(S, ('setof',)) and n != schema.native_out(S, v):
            return 'a value built %s has the native value %r' % (how, n)
        if o.dump() != e:
            return 'reading a value built %s changes its encoding' % how
    return chk_der(S, v, e)


def chk_der(S, v, e):
    for read in ('fields', 'native', 'children'):
        r, o = attempt(lambda: schema.load(S, e))
        if r != 'ret':
            return '%s is refused: %s' % (e.hex(), o)
        if read == 'native':
            r, n = attempt(lambda: schema.plain(o.native))
            if r != 'ret' or (not contains(S, ('setof',)) and n != schema.native_out(S, v)):
                return '%s has the native value %r' % (e.hex(), n)
        elif read == 'fields':
            r, w = attempt(lambda: schema.walk(S, o))
            if r != 'ret' or not schema.same(S, w, v):
                return '%s reads as %r' % (e.hex(), w)
            bad = absent(S, v, o)
            if bad:
                return '%s: %s' % (e.hex(), bad)
        elif S[0] in ('seqof', 'setof'):
            if len(o) != len(v) or len(list(o)) != len(v):
                return '%s has %d elements' % (e.hex(), len(o))
        if o.dump() != e:
            return 'after reading the %s, %s encodes as %s' % (read, e.hex(), o.dump().hex())
        if o.dump(force=True) != e:
            return '%s encodes as %s when forced' % (e.hex(), o.dump(force=True).hex())


def absent(S, v, o):
    """fields that were left out read as their default or as nothing"""
    if S[0] not in ('seq', 'set'):
        return
    for n, f, q in S[2]:
        if schema.has(v, n):
            continue
        x = o[n]
        if q == 'optional':
            if x.native is not None or x.dump() != b'':
                return 'the absent field %s reads as %r' % (n, x.native)
        elif isinstance(q, tuple):
            if not schema.same(f, schema.walk(f, x), q[1]):
                return 'the defaulted field %s reads as %r' % (n, x.native)


class Build(Bounded):
    rule = 'random declarations (nested to depth 2, every tagging form) and values, built in every way, encoded, decoded; distinct ' \
           'by declaration and value'
    seconds = 20
    kinds = None
    name = 'random declarations and values'

    def cases(self, rng, tier):
        while True:
            g, S = decl(rng, self.kinds)
            for _ in range(2):
                yield S, g.value(S), rng.getrandbits(30)

    def oracle(self, case):
        return chk_build(case)


# ------------------------------------------------------------------------------------------------ mutated data
def tree(data):
    """nested lists [class, method, tag, contents or children]"""
    out = []
    for d in schema.split(data):
        c, m, t, h, con, tr = schema.one(d)
        out.append([c, m, t, tree(con) if m else con])
    return out


def untree(nodes):
    return b''.join(x690.emit(c, m, t, untree(x) if isinstance(x, list) else x) for c, m, t, x in nodes)


def nodes(t, path=()):
    for i, n in enumerate(t):
        yield t, i
        if isinstance(n[3], list):
            for x in nodes(n[3]):
                yield x


def mutate_tree(rng, data, what=None):
    """a well-formed encoding that differs in one place"""
    t = tree(data)
    if not t:
        return data
    places = list(nodes(t))
    for _ in range(rng.choice([1, 1, 1, 2])):
        lst, i = rng.choice(places)
        if i >= len(lst):
            continue
        n = lst[i]
        op = rng.choice(what or ['class', 'tag', 'method', 'drop', 'twice', 'swap', 'surplus', 'empty', 'wrap', 'unwrap', 'other'])
        if op == 'class':
            n[0] = (n[0] + rng.randrange(1, 4)) % 4
        elif op == 'tag':
            n[2] = rng.choice([n[2] + 1, max(n[2] - 1, 0), n[2] ^ 1, n[2] + 31, rng.randrange(32), n[2] + 128])
        elif op == 'method':
            if n[1]:
                n[1], n[3] = 0, untree(n[3])
            else:
                try:
                    n[1], n[3] = 1, tree(n[3])
                except x690.Bad:
                    continue
        elif op == 'drop' and lst is not t:
            del lst[i]
        elif op == 'twice' and lst is not t:
            lst.insert(rng.randrange(len(lst) + 1), n)
        elif op == 'swap' and len(lst) > 1:
            j = rng.randrange(len(lst))
            lst[i], lst[j] = lst[j], lst[i]
        elif op == 'surplus' and isinstance(n[3], list):
            n[3].insert(rng.choice([len(n[3]), rng.randrange(len(n[3]) + 1)]), rng.choice(
                [[0, 0, 5, b''], [0, 0, 2, b'\x05'], [2, 0, 0, b'x'], [0, 1, 16, []], [0, 0, 4, b''], [2, 1, 1, [[0, 0, 2, b'\x01']]]]))
        elif op == 'empty':
            n[3] = [] if n[1] else b''
        elif op == 'wrap':
            lst[i] = [2, 1, rng.randrange(4), [n]]
        elif op == 'unwrap' and n[1] and len(n[3]) == 1:
            lst[i] = n[3][0]
        elif op == 'other':
            j = rng.choice(places)
            lst[i] = list(j[0][j[1]]) if j[1] < len(j[0]) and not inside(n, j[0][j[1]]) else n
    try:
        return untree(t)
    except RecursionError:
        return data


def inside(n, m):
    if n is m:
        return True
    return isinstance(m[3], list) and any(inside(n, x) for x in m[3])


def chk_decode(case):
    """any bytes under a declaration: the value the reference decoder finds, or refused"""
    S, data = case
    try:
        ref = schema.dec(S, data)
    except x690.Bad as e:
        ref, why = 'bad', str(e)
    except schema.Unclear:
        return None

    def read():
        o = schema.load(S, data)
        w = schema.walk(S, o)
        o.native
        return o, w
    r, x = attempt(read)
    if r == 'escaped':
        return '%s: %s' % (data.hex(), x)
    if ref == 'bad':
        if r == 'ret':
            return '%s is not a value of the declaration (%s) but reads as %r' % (data.hex(), why, x[1])
        return
    if r != 'ret':
        if contains(S, ('any',)):
            return              # values of unknown type may be refused when they are read
        return '%s is refused: %s' % (data.hex(), x)
    o, w = x
    if not schema.same(S, w, ref):
        return '%s reads as %r and not %r' % (data.hex(), w, ref)
    d = o.dump()
    if d != data and not contains(S, ('any',)) and not schema.same(S, schema.dec(S, d), ref):
        return '%s encodes as %s after reading' % (data.hex(), d.hex())
    n = o.native
    o2 = schema.load(S, data)
    n2 = o2.native
    if schema.plain(n) != schema.plain(n2):
        return '%s: native value %r, after reading the fields %r' % (data.hex(), n2, n)


class Decode(Bounded):
    rule = 'encodings of random values with one or two structural changes (element dropped, doubled, swapped, added, retagged, ' \
           'rewrapped) and byte changes; distinct by declaration and bytes'
    seconds = 20
    kinds = None
    what = None
    name = 'altered encodings against the reference decoder'

    def cases(self, rng, tier):
        while True:
            g, S = decl(rng, self.kinds)
            e = schema.enc(S, g.value(S))
            for _ in range(6):
                yield S, mutate_tree(rng, e, self.what)
            if rng.random() < .4:
                yield S, gen.mutate(rng, e)
            if rng.random() < .3:
                g2, S2 = decl(rng, self.kinds)
                yield S2, e
            b = schema.enc(S, g.value(S), schema.Ber(rng))
            yield S, b
            if rng.random() < .5:
                yield S, gen.mutate(rng, b)

    def oracle(self, case):
        return chk_decode(case)


# ------------------------------------------------------------------------------------------------ histories
class Histories(Bounded):
    name = 'histories of reads, changes and copies'
    rule = 'random declarations, start values (built, DER, BER) and up to 8 steps on up to three copies, against a plain model; ' \
           'distinct by declaration, value and steps'
    seconds = 25
    kinds = None
    steps = 8
    depth = 2

    def cases(self, rng, tier):
        while True:
            yield ops.case(rng, rng.choice([1, self.depth, self.depth]), self.steps, self.kinds)

    def oracle(self, case):
        r, m = attempt(lambda: ops.run(case))
        return m if r == 'ret' else '%s: %s' % (r, m)
