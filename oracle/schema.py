"""Random ASN.1 type declarations, their library classes, and an independent encoder and decoder (X.690) for them.

A declaration is a nested tuple (kind, tags, ...):
  tags = (inner, outer, param): inner None or (class, tag) replacing the universal tag by class attributes; outer a tuple of
  explicit (class, tag) as class attributes, innermost first; param None, ('i', class, tag, form) or ('e', ((class, tag), ...), form)
  as parameters of the field.
A value is plain Python: sequences are tuples of (name, value) with absent fields left out, choices (name, value), Any DER bytes."""
from . import x690
from .x690 import Bad

from asn1crypto import core

NOTAGS = (None, (), None)
UNIV = {'bool': 1, 'int': 2, 'bits': 3, 'octets': 4, 'null': 5, 'oid': 6, 'enum': 10, 'utf8': 12, 'seq': 16, 'set': 17,
        'seqof': 16, 'setof': 17, 'ia5': 22, 'bmp': 30, 'vis': 26}
BASE = {'bool': core.Boolean, 'int': core.Integer, 'bits': core.BitString, 'octets': core.OctetString, 'null': core.Null,
        'oid': core.ObjectIdentifier, 'enum': core.Enumerated, 'utf8': core.UTF8String, 'ia5': core.IA5String,
        'bmp': core.BMPString, 'seq': core.Sequence, 'set': core.Set, 'seqof': core.SequenceOf, 'setof': core.SetOf,
        'choice': core.Choice, 'any': core.Any, 'vis': core.VisibleString}
PRIMS = ['bool', 'int', 'bits', 'octets', 'null', 'oid', 'enum', 'utf8', 'ia5', 'bmp', 'vis']
CONSTR = ('seq', 'set', 'seqof', 'setof')
STRINGS = ('octets', 'bits', 'utf8', 'ia5', 'bmp', 'vis')
CLASSES = ['universal', 'application', 'context', 'private']
ENUM = {0: 'zero', 1: 'one', 2: 'two', 300: 'many'}


# ------------------------------------------------------------------------------------------------ identifiers
def inner_id(S):
    kind, (inner, outer, param) = S[0], S[1]
    if kind in ('choice', 'any'):
        return None
    if param and param[0] == 'i':
        return param[1], param[2]
    return inner or (0, UNIV[kind])


def outers(S):
    """explicit tags, innermost first"""
    _, outer, param = S[1]
    return tuple(outer) + (tuple(param[1]) if param and param[0] == 'e' else ())


def ids(S):
    """the (class, tag) pairs a value may begin with; None: any"""
    o = outers(S)
    if o:
        return {o[-1]}
    if S[0] == 'any':
        return None
    if S[0] == 'choice':
        out = set()
        for _, a in S[2]:
            x = ids(a)
            if x is None:
                return None
            out |= x
        return out
    return {inner_id(S)}


# ------------------------------------------------------------------------------------------------ primitive contents
def b128(n):
    g = [n % 128]
    n //= 128
    while n:
        g.append(128 + n % 128)
        n //= 128
    return bytes(reversed(g))


def int_octets(v):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
        n += 1
    return (v % (1 << (8 * n))).to_bytes(n, 'big')


def prim(kind, v):
    if kind == 'bool':
        return b'\xff' if v else b'\x00'
    if kind == 'int':
        return int_octets(v)
    if kind == 'enum':
        return int_octets([k for k, x in ENUM.items() if x == v][0])
    if kind == 'octets':
        return v
    if kind == 'null':
        return b''
    if kind == 'oid':
        a = [int(x) for x in v.split('.')]
        return b''.join(b128(x) for x in [a[0] * 40 + a[1]] + a[2:])
    if kind == 'utf8':
        return v.encode('utf-8')
    if kind in ('ia5', 'vis'):
        return v.encode('ascii')
    if kind == 'bmp':
        return v.encode('utf-16-be')
    if kind == 'bits':
        pad = -len(v) % 8
        n = 0
        for b in v + (0,) * pad:
            n = n * 2 + b
        return bytes([pad]) + n.to_bytes((len(v) + pad) // 8, 'big')
    raise AssertionError(kind)


def unprim(kind, c):
    if kind == 'bool':
        if len(c) != 1:
            raise Unclear('boolean')
        return c != b'\x00'
    if kind in ('int', 'enum'):
        if not c:
            raise Unclear('integer without contents octets')
        n = int.from_bytes(c, 'big')
        n = n - (1 << 8 * len(c)) if c[0] & 128 else n
        if kind == 'int':
            return n
        if n not in ENUM:
            raise Bad('enum')
        return ENUM[n]
    if kind == 'octets':
        return c
    if kind == 'null':
        if c:
            raise Unclear('null')
        return None
    if kind == 'oid':
        if not c or c[-1] & 128:
            raise Bad('oid')
        arcs, n, start = [], 0, True
        for b in c:
            if start and b == 128:
                raise Bad('oid padding')
            n, start = n * 128 + (b & 127), not b & 128
            if start:
                arcs.append(n)
                n = 0
        f = min(arcs[0] // 40, 2)
        return '.'.join(map(str, [f, arcs[0] - 40 * f] + arcs[1:]))
    try:
        if kind == 'utf8':
            return c.decode('utf-8')
        if kind == 'vis' and any(b > 127 for b in c):
            raise Unclear('visible string outside of ASCII')
        if kind in ('ia5', 'vis'):
            return c.decode('ascii')
        if kind == 'bmp':
            return c.decode('utf-16-be')
    except UnicodeDecodeError:
        raise Bad('text')
    if kind == 'bits':
        if not c or c[0] > 7 or (c[0] and len(c) == 1):
            raise Bad('bits')
        s = ''.join(format(b, '08b') for b in c[1:])
        return tuple(int(x) for x in (s[:-c[0]] if c[0] else s))
    raise AssertionError(kind)


# ------------------------------------------------------------------------------------------------ encoder
def get(v, name):
    for k, x in v:
        if k == name:
            return x
    raise KeyError(name)


def has(v, name):
    return any(k == name for k, _ in v)


def set_key(enc):
    """order of the components of a set: by tag (class, number)"""
    c, m, t, h, ln = x690.header(enc, 0)
    return c, t


class Der(object):
    def ident(self, cls, method, tag, contents):
        return x690.emit(cls, method, tag, contents)

    def order(self, kind, encs):
        if kind == 'set':
            return sorted(encs, key=set_key)
        if kind == 'setof':
            return sorted(encs)
        return encs

    def omit(self, S, v, d):
        return enc(S, v) == enc(S, d)

    def string(self, cls, tag, kind, c):
        return self.ident(cls, 0, tag, c)


class Ber(Der):
    def __init__(self, rng):
        self.rng = rng

    def ident(self, cls, method, tag, contents):
        i = x690.identifier(cls, method, tag)
        r = self.rng.random()
        if method and r < .25 and x690.indefinite_depth(i + b'\x80' + contents + b'\0\0') < 9:
            return i + b'\x80' + contents + b'\0\0'
        n = len(contents)
        if r < .5:
            ln = n.to_bytes((n.bit_length() + 7) // 8 or 1, 'big')
            ln = b'\0' * self.rng.choice([0, 0, 1, 3]) + ln
            return i + bytes([128 + len(ln)]) + ln + contents
        return x690.emit(cls, method, tag, contents)

    def order(self, kind, encs):
        if kind == 'setof' or kind == 'set':
            encs = list(encs)
            self.rng.shuffle(encs)
        return encs

    def omit(self, S, v, d):
        return Der.omit(self, S, v, d) and self.rng.random() < .5

    def string(self, cls, tag, kind, c):
        if kind in STRINGS and self.rng.random() < .2:
            u = UNIV[kind]
            if kind == 'bits':
                k = self.rng.randrange(len(c)) if len(c) > 1 else 0
                parts = [b'\0' + c[1:1 + k], c[:1] + c[1 + k:]] if c[:1] == b'\0' or k < len(c) - 1 else [c]
            else:
                k = self.rng.randrange(len(c) + 1)
                if kind in ('bmp', 'utf8'):
                    k = 0
                parts = [c[:k], c[k:]]
            return x690.identifier(cls, 1, tag) + b'\x80' + b''.join(x690.emit(0, 0, u, p) for p in parts) + b'\0\0'
        return self.ident(cls, 0, tag, c)


DER = Der()


def enc(S, v, how=DER):
    kind = S[0]
    if kind == 'any':
        out = v
    elif kind == 'choice':
        out = enc(dict(S[2])[v[0]], v[1], how)
    else:
        cls, tag = inner_id(S)
        if kind in ('seq', 'set'):
            parts = []
            for name, f, opt in S[2]:
                if not has(v, name):
                    continue
                x = get(v, name)
                if isinstance(opt, tuple) and how.omit(f, x, opt[1]):
                    continue
                parts.append(enc(f, x, how))
            out = how.ident(cls, 1, tag, b''.join(how.order(kind, parts)))
        elif kind in ('seqof', 'setof'):
            out = how.ident(cls, 1, tag, b''.join(how.order(kind, [enc(S[2], x, how) for x in v])))
        else:
            out = how.string(cls, tag, kind, prim(kind, v))
    for cls, tag in outers(S):
        out = how.ident(cls, 1, tag, out)
    return out


# ------------------------------------------------------------------------------------------------ decoder
def split(data):
    out, pos = [], 0
    while pos < len(data):
        c, m, t, h, ln = x690.header(data, pos)
        end = x690.value_end(data, pos)
        out.append(data[pos:end])
        pos = end
    return out


def one(data):
    info, used = x690.parse(data)
    if used != len(data):
        raise Bad('surplus data')
    return info


class Unclear(Exception):
    """the reference takes no side"""


def chunks(kind, data):
    """contents of a constructed string"""
    parts = []
    for d in split(data):
        c, m, t, h, con, tr = one(d)
        if (c, t) != (0, UNIV[kind]):
            raise Bad('chunk')
        if m:
            if not tr:
                raise Unclear('definite constructed string')
            con = chunks(kind, con)
        parts.append(con)
    if kind == 'bits':
        if any(not p or p[0] for p in parts[:-1]) or any(not p for p in parts[-1:]):
            raise Bad('bit chunk')
        return (parts[-1][:1] if parts else b'\0') + b''.join(p[1:] for p in parts)
    return b''.join(parts)


def dec(S, data, depth=0):
    """value denoted by exactly these bytes under the declaration; Bad if none"""
    for cls, tag in reversed(outers(S)):
        c, m, t, h, data, tr = one(data)
        if (c, m, t) != (cls, 1, tag):
            raise Bad('explicit tag')
        if not data:
            raise Bad('empty explicit tag')
    kind = S[0]
    c, m, t, h, con, tr = one(data)
    if kind == 'any':
        return data
    if kind == 'choice':
        for name, a in S[2]:
            x = ids(a)
            if x is None or (c, t) in x:
                return name, dec(a, data)
        raise Bad('no alternative')
    if (c, t) != inner_id(S):
        raise Bad('tag')
    if kind in CONSTR:
        if not m:
            raise Bad('method')
    elif m:
        if kind not in STRINGS:
            raise Bad('method')
        if not tr:
            raise Unclear('definite constructed string')
        con = chunks(kind, con)
    if kind in ('seqof', 'setof'):
        return tuple(dec(S[2], d) for d in split(con))
    if kind == 'seq':
        out, parts, i = [], split(con), 0
        for name, f, opt in S[2]:
            x = ids(f)
            if i < len(parts):
                pc, pm, pt, _, _ = x690.header(parts[i], 0)
                if x is None or (pc, pt) in x:
                    out.append((name, dec(f, parts[i])))
                    i += 1
                    continue
            if opt is None:
                raise Bad('missing ' + name)
            if isinstance(opt, tuple):
                out.append((name, opt[1]))
        if i < len(parts):
            raise Bad('surplus element')
        return tuple(out)
    if kind == 'set':
        got = {}
        for p in split(con):
            pc, pm, pt, _, _ = x690.header(p, 0)
            for name, f, opt in S[2]:
                x = ids(f)
                if x is None or (pc, pt) in x:
                    if name in got:
                        raise Bad('twice')
                    got[name] = dec(f, p)
                    break
            else:
                raise Bad('unknown component')
        out = []
        for name, f, opt in S[2]:
            if name in got:
                out.append((name, got[name]))
            elif opt is None:
                raise Bad('missing')
            elif isinstance(opt, tuple):
                out.append((name, opt[1]))
        return tuple(out)
    return unprim(kind, con)


def canon(S, v):
    """the value with every defaulted field present (what reading reports)"""
    kind = S[0]
    if kind in ('seq', 'set'):
        out = []
        for name, f, opt in S[2]:
            if has(v, name):
                out.append((name, canon(f, get(v, name))))
            elif isinstance(opt, tuple):
                out.append((name, canon(f, opt[1])))
        return tuple(out)
    if kind == 'setof' or kind == 'seqof':
        return tuple(canon(S[2], x) for x in v)
    if kind == 'choice':
        return v[0], canon(dict(S[2])[v[0]], v[1])
    return v


def same(S, a, b):
    """do the two values encode identically (sets compared as sets)"""
    return enc(S, a) == enc(S, b)


# ------------------------------------------------------------------------------------------------ the library's side
_LIB = {}


def form_tag(param):
    kind, form = param[0], param[-1]
    if kind == 'i':
        c, t = param[1], param[2]
        if form == 'int' and c == 2:
            return {'implicit': t}
        if form == 'num':
            return {'implicit': (c, t)}
        if form == 'legacy':
            return {'tag_type': 'implicit', 'tag': t} if c == 2 else {'implicit': (c, t)}
        return {'implicit': (CLASSES[c], t)}
    tags = param[1]
    if len(tags) == 1:
        c, t = tags[0]
        if form == 'int' and c == 2:
            return {'explicit': t}
        if form == 'num':
            return {'explicit': (c, t)}
        if form == 'legacy':
            return {'tag_type': 'explicit', 'tag': t} if c == 2 else {'explicit': (c, t)}
        return {'explicit': (CLASSES[c], t)}
    return {'explicit': tuple((c, t) if form == 'num' else (CLASSES[c], t) for c, t in tags)}


def params_of(S):
    return form_tag(S[1][2]) if S[1][2] else {}


def bare(S):
    """without the parameters"""
    return (S[0], S[1][:2] + (None,)) + S[2:]


def cls_of(S):
    """the library class of the declaration, without its parameters"""
    S = bare(S)
    if S in _LIB:
        return _LIB[S]
    kind, (inner, outer, _) = S[0], S[1]
    ns = {}
    if inner:
        ns['class_'], ns['tag'] = inner
    if outer:
        ns['explicit'] = outer[0] if len(outer) == 1 else outer
    if kind == 'enum':
        ns['_map'] = dict(ENUM)
    if kind in ('seq', 'set'):
        fs = []
        for name, f, opt in S[2]:
            p = params_of(f)
            if opt == 'optional':
                p['optional'] = True
            elif opt:
                p['default'] = native_in(f, opt[1])
            fs.append((name, cls_of(f), p) if p else (name, cls_of(f)))
        ns['_fields'] = fs
    elif kind in ('seqof', 'setof'):
        ns['_child_spec'] = cls_of(S[2])
    elif kind == 'choice':
        ns['_alternatives'] = [(n, cls_of(a), params_of(a)) if params_of(a) else (n, cls_of(a)) for n, a in S[2]]
    elif not ns:
        _LIB[S] = BASE[kind]
        return BASE[kind]
    _LIB[S] = type(str('%s%d' % (kind, len(_LIB))), (BASE[kind],), ns)
    return _LIB[S]


def native_in(S, v):
    """a Python value the library takes for the value"""
    kind = S[0]
    if kind in ('seq', 'set'):
        return dict((n, native_in(f, get(v, n))) for n, f, o in S[2] if has(v, n))
    if kind in ('seqof', 'setof'):
        return [native_in(S[2], x) for x in v]
    if kind == 'choice':
        a = dict(S[2])[v[0]]
        return cls_of(S)(v[0], native_in(a, v[1]))
    if kind == 'any':
        return core.load(v)
    if kind == 'null':
        return cls_of(S)()
    return v


def build(S, v, **extra):
    """a library object constructed from Python values"""
    p = params_of(S)
    p.update(extra)
    kind = S[0]
    if kind == 'choice':
        return cls_of(S)(v[0], native_in(dict(S[2])[v[0]], v[1]), **p)
    if kind == 'null':
        return cls_of(S)(**p)
    return cls_of(S)(native_in(S, v), **p)


def load(S, data, strict=True):
    return cls_of(S).load(data, strict=strict, **params_of(S))


def native_out(S, v):
    """what .native should report"""
    kind = S[0]
    if kind in ('seq', 'set'):
        v = canon(S, v)
        return [(n, native_out(f, get(v, n)) if has(v, n) else None) for n, f, o in S[2]]
    if kind in ('seqof', 'setof'):
        return [native_out(S[2], x) for x in v]
    if kind == 'choice':
        return native_out(dict(S[2])[v[0]], v[1])
    if kind == 'any':
        return plain(core.load(v).native)
    return v


def plain(n):
    """comparable form of a native value of the library"""
    if hasattr(n, 'items'):
        return [(k, plain(x)) for k, x in n.items()]
    if isinstance(n, list):
        return [plain(x) for x in n]
    return n


def walk(S, o):
    """the value of a library object, read field by field"""
    kind = S[0]
    if kind in ('seq', 'set'):
        out = []
        for name, f, opt in S[2]:
            x = o[name]
            if x is core.VOID:
                continue
            out.append((name, walk(f, x)))
        return tuple(out)
    if kind in ('seqof', 'setof'):
        return tuple(walk(S[2], x) for x in o)
    if kind == 'choice':
        return o.name, walk(dict(S[2])[o.name], o.chosen)
    if kind == 'any':
        d = o.dump()
        for _ in outers(S):
            d = x690.parse(d)[0][4]
        return d
    n = o.native
    return n


# ------------------------------------------------------------------------------------------------ generators
class Gen(object):
    def __init__(self, rng, explicit_any=True, setof_dups=True):
        self.rng = rng

    def tagnum(self):
        return self.rng.choice([0, 1, 2, 3, 5, 30, 31, 40, 127, 128, 1000])

    def tags(self, kind, p_tag=.4, uniq=None):
        rng = self.rng
        inner, outer, param = None, (), None
        r = rng.random()
        if r < p_tag:
            n = uniq if uniq is not None else self.tagnum()
            cls = rng.choice([2, 2, 2, 1, 3])
            form = rng.choice(['int', 'num', 'name', 'legacy'])
            if kind in ('choice', 'any') or rng.random() < .45:
                e = [(cls, n)]
                while rng.random() < .2:
                    e.insert(0, (rng.choice([1, 2, 2, 3]), self.tagnum()))
                param = ('e', tuple(e), form)
                if rng.random() < .2:
                    k = rng.randrange(len(e) + 1)
                    outer, rest = tuple(e[:k]), tuple(e[k:])
                    param = ('e', rest, form) if rest else None
            else:
                param = ('i', cls, n, form)
        elif r < p_tag + .04 and kind not in ('choice', 'any'):
            inner = (rng.choice([1, 3]), self.tagnum())
        return inner, outer, param

    def spec(self, depth, kinds=None, p_tag=.3, uniq=None):
        rng = self.rng
        kind = rng.choice(kinds) if kinds else rng.choice(PRIMS + ['int', 'octets', 'utf8'] + ['any'] * (rng.random() < .3)) \
            if depth <= 0 or rng.random() < .5 else rng.choice(['seq', 'seq', 'set', 'seqof', 'setof', 'choice'])
        t = self.tags(kind, p_tag, uniq)
        if kind == 'seq':
            return kind, t, self.fields(depth - 1, False)
        if kind == 'set':
            return kind, t, self.fields(depth - 1, True)
        if kind in ('seqof', 'setof'):
            c = self.spec(depth - 1, p_tag=.1)
            if c[1][2]:
                c = bare(c)
            return kind, t, c
        if kind == 'choice':
            alts, seen = [], set()
            for i in range(rng.choice([1, 2, 3, 4])):
                a = self.spec(depth - 1, uniq=20 + i)
                x = ids(a)
                if x is None or x & seen:
                    continue
                seen |= x
                alts.append(('alt%d' % i, a))
            if not alts:
                alts = [('alt', ('int', NOTAGS))]
            return kind, t, tuple(alts)
        return kind, t

    def top(self, depth):
        """a declaration that can be loaded on its own"""
        while True:
            S = self.spec(depth)
            if S[0] != 'any':
                return S

    def fields(self, depth, is_set):
        rng = self.rng
        out, run = [], set()
        n = rng.choice([1, 2, 3, 3, 4, 5])
        for i in range(n):
            last = i == n - 1
            f = self.spec(depth, uniq=i, p_tag=.5)
            opt = None
            if rng.random() < .45:
                opt = 'optional'
                if rng.random() < .5 and f[0] in ('int', 'bool', 'octets', 'utf8', 'enum', 'seq', 'seqof', 'oid', 'bits', 'ia5',
                                                  'setof', 'set'):
                    opt = ('default', self.value(f))
                    if not default_ok(f, opt[1]):
                        opt = 'optional'
            x = ids(f)
            if is_set:
                if f[0] == 'any' and not outers(f) or x is None or x & run:
                    continue
                run |= x
            else:
                if x is None:
                    # anything: only where it can not be confused
                    if run or (opt is not None and not last):
                        continue
                    if isinstance(opt, tuple):
                        opt = None
                elif x & run:
                    continue
                if opt is None:
                    run = set()
                elif x is not None:
                    run |= x
                else:
                    run = {('any',)}
            out.append(('f%d' % i, f, opt))
        return tuple(out) or (('f0', ('int', NOTAGS), None),)

    def value(self, S, depth=0):
        rng = self.rng
        kind = S[0]
        if kind == 'bool':
            return rng.random() < .5
        if kind == 'int':
            return rng.choice([0, 1, -1, 127, 128, -128, -129, 255, 2 ** 31, -2 ** 64, rng.getrandbits(rng.choice([4, 40, 300]))])
        if kind == 'enum':
            return rng.choice(sorted(ENUM.values()))
        if kind == 'octets':
            return bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 2, 5, 5, 130 if not depth else 3])))
        if kind == 'null':
            return None
        if kind == 'oid':
            return rng.choice(['1.2.840.113549', '2.5.4.3', '0.0', '2.999.1', '1.39.128.16384', '2.100000.3'])
        if kind == 'utf8':
            return rng.choice(['', 'a', 'b\u00e9', '\u4e2d', 'x' * 126, '\U0001f600'])
        if kind in ('ia5', 'vis'):
            return rng.choice(['', 'a', 'host', 'A' * 7])
        if kind == 'bmp':
            return rng.choice(['', 'a', '\u4e2d\u6587'])
        if kind == 'bits':
            return tuple(rng.randrange(2) for _ in range(rng.choice([0, 1, 7, 8, 9, 16, 17])))
        if kind == 'any':
            k = rng.choice(['int', 'octets', 'utf8', 'null', 'bool', 'oid'])
            if rng.random() < .2:
                return x690.emit(0, 1, 16, x690.emit(0, 0, 2, b'\x05') * rng.randrange(3))
            return enc((k, NOTAGS), self.value((k, NOTAGS)))
        if kind in ('seqof', 'setof'):
            return tuple(self.value(S[2], depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 4])))
        if kind == 'choice':
            n, a = rng.choice(S[2])
            return n, self.value(a, depth + 1)
        out = []
        for name, f, opt in S[2]:
            if opt is None or rng.random() < .6:
                v = self.value(f, depth + 1)
                if isinstance(opt, tuple) and rng.random() < .3:
                    v = opt[1]
                out.append((name, v))
        return tuple(out)


def default_ok(S, v):
    """defaults the library can be given: a plain Python value without choices or empty nested values"""
    kind = S[0]
    if kind in ('choice', 'any', 'null'):
        return False
    if kind in ('seq', 'set'):
        return all(default_ok(f, get(v, n)) for n, f, o in S[2] if has(v, n)) and len(v) > 0
    if kind in ('seqof', 'setof'):
        return all(default_ok(S[2], x) for x in v) and S[2][0] not in ('choice', 'any', 'null')
    return True
