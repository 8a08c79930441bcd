"""Symbolic decoding and encoding of declared structures through the real core code (_parse_build, _build, _parse_children,
__getitem__, _set_contents, dump ...), against the contracts of parser._parse (C02) and parser._dump_header (C01).

The bytes are symbolic: every element has any class, method, tag number and contents of any size.  Declarations are concrete (the
families listed in the units); the reference is the X.690 reading of the same declaration, evaluated on the same symbolic elements."""
from .common import *  # noqa
from oracle import schema, x690
from oracle.schema import Bad


def same_atoms(a, b):
    if len(a.atoms) != len(b.atoms):
        return False
    for x, y in zip(a.atoms, b.atoms):
        if x is y:
            continue
        if type(x) is not type(y):
            return False
        if repr_atom(x) != repr_atom(y):
            return False
    return True


def repr_atom(x):
    out = [type(x).__name__]
    for k in type(x).__slots__ if hasattr(type(x), '__slots__') else sorted(vars(x)):
        v = getattr(x, k, None)
        out.append(v.sexpr() if isinstance(v, z3.ExprRef) else repr(v))
    return out


def cut(atoms, n):
    """the atoms making up the first n octets, and the rest; None when that is not at a place known by syntax"""
    out, rest, left = [], [x for x in atoms if not (isinstance(x.n(), int) and x.n() == 0)], simp(n)
    while not (isinstance(left, int) and left == 0):
        if not rest:
            return None
        x = rest[0]
        k = x.n()
        if isinstance(x, Lit) and isinstance(left, int) and left < k:
            return out + [Lit(x.b[:left])], [Lit(x.b[left:])] + rest[1:]
        left = simp(left - k)
        if isinstance(left, int) and left < 0:
            return None
        out.append(x)
        rest = rest[1:]
    return out, rest


def begins(data, h):
    """does the rope start with the rope h"""
    xs, ys = list(data), list(atoms_of(h))
    for i, y in enumerate(ys):
        if i >= len(xs):
            return False
        x = xs[i]
        if isinstance(x, Lit) and isinstance(y, Lit):
            if x.b == y.b or i == len(ys) - 1 and x.b.startswith(y.b):
                continue
            return False
        if isinstance(x, View) and isinstance(y, View) and i == len(ys) - 1:
            return x.arr.eq(y.arr) and simp(bound(x.off) == bound(y.off)) is True
        if type(x) is not type(y) or repr_atom(x) != repr_atom(y):
            return False
    return True


class Piece(object):
    """one element: what the contract of _parse reports for it"""

    def __init__(self, cls, method, tag, header, contents, trailer, start, end):
        self.cls, self.method, self.tag = cls, method, tag
        self.header, self.contents, self.trailer, self.start, self.end = header, contents, trailer, start, end

    @property
    def whole(self):
        return concat(self.header, self.contents, self.trailer)

    @property
    def info(self):
        return self.cls, self.method, self.tag, self.header, self.contents, self.trailer


class Wire(object):
    """the contract of parser._parse on symbolic buffers, and of parser._dump_header"""

    def __init__(self, it, trailers=False, split=True):
        self.it, self.c = it, it.ctx
        self.split = split      # cases for short and long headers, or one header with facts
        self.trailers = trailers
        self.bufs = []          # (buffer, [pieces], [starts])
        self.headers = []
        self.ranks = []
        it.bytes_eq_hook = self.same
        it.bytes_order = lambda it_, x: self.order(it_, x)
        it.contracts = dict(it.contracts)
        it.contracts['asn1crypto.parser._parse'] = self.parse
        it.contracts['asn1crypto.parser._dump_header'] = self.dump_header

    # ---- decoding
    def lookup(self, data):
        for b in self.bufs:
            if b[0] is data or isinstance(data, SBytes) and isinstance(b[0], SBytes) and same_atoms(data, b[0]):
                return b

    def emitted(self, data):
        """the elements of a buffer that is a run of values whose headers came from _dump_header (decided by syntax alone)"""
        out, rest = [], list(atoms_of(data))
        while rest:
            x = self.first(rest)
            if x is None or len(out) > 20:
                return None
            out.append(x[0])
            rest = x[1]
        return out

    def first(self, atoms):
        for cl, me, tg, ln, h in self.headers:
            if begins(atoms, h):
                x = cut(atoms, bound(blen(h)))
                y = cut(x[1], ln) if x else None
                if y:
                    p = Piece(cl, me, tg, h, mkbytes(y[0]), b'', z3.IntVal(0), simp(bound(blen(h)) + ln))
                    return p, y[1]
        lead = atoms[0]
        if isinstance(lead, Lit) and len(lead.b) >= 2:
            # a value that is written out
            try:
                cl, me, tg, pos, k = x690.header(lead.b, 0)
            except x690.Bad:
                return None
            y = None if k is None else cut([Lit(lead.b[pos:])] + list(atoms[1:]), z3.IntVal(k))
            if y:
                return Piece(cl, me, tg, lead.b[:pos], mkbytes(y[0]), b'', z3.IntVal(0), z3.IntVal(pos + k)), y[1]

    def element(self, data):
        """the buffer is the whole of an element read before"""
        for b in self.bufs:
            for p in b[1]:
                if p is not None and isinstance(p.whole, SBytes) and same_atoms(data, p.whole):
                    return p

    def same(self, a, b):
        """runs of values with headers of _dump_header are equal when they are the same run of the same values (X.690 encodings
        are uniquely decodable, the contract of _dump_header is injective)"""
        xs, ys = self.run_of(a), self.run_of(b)
        if not xs or not ys:
            return None
        if len(xs) != len(ys):
            return False
        cs = []
        for x, y in zip(xs, ys):
            if (x.cls, x.method, x.tag) != (y.cls, y.method, y.tag):
                return False
            e = self.it.models.bytes_eq(self.it, x.contents, y.contents)
            if e is False:
                return False
            if e is not True:
                cs.append(e.z)
        return mkbool(z3.And(cs)) if cs else True

    def run_of(self, a):
        if isinstance(a, (bytes, bytearray)):
            a = SBytes([Lit(bytes(a))]) if a else None
        if a is None or not any(isinstance(x, View) for x in a.atoms) and not a.concrete():
            return None
        h = self.headers
        if a.concrete() is None and not any(begins(a.atoms, x[4]) for x in h) and not isinstance(a.atoms[0], Lit):
            return None
        return self.emitted(a)

    def buffer(self, data):
        b = self.lookup(data)
        if b is not None:
            return b
        b = (data, [], [z3.IntVal(0)])
        self.bufs.append(b)
        return b

    def known(self, data, pieces):
        """a buffer that is the concatenation of known elements"""
        starts, pos = [z3.IntVal(0)], z3.IntVal(0)
        for p in pieces:
            pos = simp(pos + bound(blen(p.whole)))
            starts.append(pos)
        self.bufs.append((data, list(pieces), starts))

    def piece(self, data, k):
        """the k-th element of the buffer; Bad when it is not a complete value"""
        b = self.buffer(data)
        if k < len(b[1]):
            p = b[1][k]
        else:
            assert k == len(b[1])
            p = self.fresh(data, b[2][k])
            b[1].append(p)
            if p is not None:
                b[2].append(bound(p.end))
        if p is None:
            raise Bad('not a complete value')
        return p

    def more(self, data, k):
        """are there octets after the first k elements"""
        return self.c.branch(bound(self.buffer(data)[2][k]) < bound(blen(data)))

    def fresh(self, data, start):
        c = self.c
        n = bound(blen(data))
        c.assume(bound(start) < n)
        if not c.branch(c.fresh_bool('complete value').z):
            return None
        cls, method, tag = c.fresh_int('class'), c.fresh_int('method'), c.fresh_int('tag')
        c.fact(z3.And(cls.z >= 0, cls.z <= 3, method.z >= 0, method.z <= 1, tag.z >= 0))
        h, e = c.fresh_int('contents start'), c.fresh_int('contents end')
        c.fact(z3.And(h.z >= start + 2, e.z >= h.z, e.z <= n))
        header, contents = slc(self.it, data, start, h), slc(self.it, data, h, e)
        trailer, end = b'', e
        if self.trailers and c.choose(2):
            c.fact(z3.And(method.z == 1, e.z + 2 <= n))
            trailer, end = b'\0\0', SInt(simp(e.z + 2))
        p = Piece(cls, method, tag, header, contents, trailer, start, end.z)
        return p

    def parse(self, it, f, args, kwargs):
        a = names_bound(f, args, kwargs)
        if a is None or a.get('lengths_only'):
            return MISSING
        data = a['encoded_data']
        if not isinstance(data, SBytes):
            return MISSING
        ptr = Z(a['pointer'])
        self.c.prove('a value is read within the data', z3.And(ptr >= 0, Z(a['data_len']) == bound(blen(data))))
        b = self.lookup(data)
        if b is None:
            ps = self.emitted(data)
            if not ps:
                p = self.element(data)
                ps = [p] if p else None
            if ps:
                self.known(data, ps)
            b = self.buffer(data)
        for k, s in enumerate(b[2]):
            if self.c.implied(ptr == bound(s)):
                if not self.more(data, k):
                    raise PyRaise(ValueError('Insufficient data'))
                try:
                    p = self.piece(data, k)
                except Bad:
                    raise PyRaise(ValueError('not a complete value'))
                return (p.info, mkint(b[2][k + 1]))
        raise Unsupported('_parse called at another place: %r in %r knowing %r headers %r' % (a['pointer'], data, b[2], self.headers))

    # ---- encoding
    def dump_header(self, it, f, args, kwargs):
        a = names_bound(f, args, kwargs)
        if a is None or not isinstance(a['contents'], SBytes):
            return MISSING
        return self.header(a['class_'], a['method'], a['tag'], a['contents'])

    def header(self, cls, method, tag, contents):
        """the contract of _dump_header: equal arguments and lengths give equal headers; a header of a tag below 31 starts with
        the identifier octet and, when the contents are shorter than 128, is that and the length"""
        c = self.c
        n = bound(blen(contents))
        for cl, me, tg, ln, h in list(self.headers):
            if (cl, me, tg) == (cls, method, tag) and c.implied(ln == n):
                if simp(ln == n) is not True:
                    self.headers.append((cl, me, tg, n, h))
                return h
        first = x690.identifier(cls, method, tag)
        if not self.split:
            h = c.fresh_bytes('header', len(first) + 1)
        elif c.branch(n < 128):
            h = mkbytes([Lit(first), Byt(simp(n))])
        else:
            h = c.fresh_bytes('header', len(first) + 2)
            c.fact(z3.And([at(self.it, h, i) == x for i, x in enumerate(first)] + [at(self.it, h, len(first)) > 128]))
            for cl, me, tg, l2, h2 in self.headers:
                if (cl, me, tg) == (cls, method, tag):
                    # longer contents never have a shorter header
                    c.fact(z3.If(l2 < n, bound(blen(h2)) <= bound(blen(h)), bound(blen(h2)) >= bound(blen(h))))
        self.headers.append((cls, method, tag, n, h))
        return h

    def tlv(self, cls, method, tag, contents, inside=()):
        """one element as a Piece; inside: the elements its contents are made of"""
        if not isinstance(contents, SBytes):
            e = x690.emit(cls, method, tag, contents)
            h = e[:len(e) - len(contents)]
            p = Piece(cls, method, tag, h, contents, b'', z3.IntVal(0), z3.IntVal(len(e)))
        else:
            h = self.header(cls, method, tag, contents)
            p = Piece(cls, method, tag, h, contents, b'', z3.IntVal(0), None)
            p.end = bound(blen(p.whole))
            if inside:
                self.learn(contents, inside)
        return p

    def learn(self, data, pieces):
        if isinstance(data, SBytes) and self.lookup(data) is None:
            self.known(data, pieces)


# ------------------------------------------------------------------------------------------------ reference decoding
class Ref(object):
    """what X.690 assigns to a symbolic element under a declaration: nested values whose leaves are (declaration, contents)"""

    def __init__(self, wire):
        self.w, self.c = wire, wire.c

    def is_id(self, p, i):
        return self.c.branch(z3.And(Z(p.cls) == i[0], Z(p.tag) == i[1]))

    def begins(self, p, S):
        x = schema.ids(S)
        if x is None:
            return True
        return self.c.branch(z3.Or([z3.And(Z(p.cls) == a, Z(p.tag) == b) for a, b in sorted(x)]))

    def only(self, data):
        """the single element the buffer must hold"""
        if not self.w.more(data, 0):
            raise Bad('nothing')
        p = self.w.piece(data, 0)
        if self.w.more(data, 1):
            raise Bad('surplus')
        return p

    def dec(self, S, p):
        for i in reversed(schema.outers(S)):
            if not (self.is_id(p, i) and self.c.branch(Z(p.method) == 1)):
                raise Bad('explicit tag')
            p = self.only(p.contents)
        kind = S[0]
        if kind == 'any':
            return ('any', p)
        if kind == 'choice':
            for name, a in S[2]:
                if self.begins(p, a):
                    return ('choice', name, self.dec(a, p))
            raise Bad('no alternative')
        if not self.is_id(p, schema.inner_id(S)):
            raise Bad('tag')
        if kind in schema.CONSTR:
            if not self.c.branch(Z(p.method) == 1):
                raise Bad('method')
        elif self.c.branch(Z(p.method) == 1):
            raise Bad('method')
        if kind == 'seq':
            return self.seq(S, p.contents)
        if kind == 'set':
            return self.set(S, p.contents)
        return ('leaf', S, p.contents)

    def seq(self, S, data):
        out, k = [], 0
        for name, f, opt in S[2]:
            if self.w.more(data, k):
                p = self.w.piece(data, k)
                if self.begins(p, f):
                    out.append((name, self.dec(f, p)))
                    k += 1
                    continue
            if opt is None:
                raise Bad('missing ' + name)
            out.append((name, ('default', f, opt[1]) if isinstance(opt, tuple) else None))
        if self.w.more(data, k):
            self.w.piece(data, k)
            raise Bad('surplus element')
        return ('fields', out)

    def set(self, S, data):
        got, k = {}, 0
        while self.w.more(data, k):
            p = self.w.piece(data, k)
            for name, f, opt in S[2]:
                if self.begins(p, f):
                    if name in got:
                        raise Bad('twice')
                    got[name] = self.dec(f, p)
                    break
            else:
                raise Bad('unknown component')
            k += 1
        out = []
        for name, f, opt in S[2]:
            if name in got:
                out.append((name, got[name]))
            elif opt is None:
                raise Bad('missing')
            else:
                out.append((name, ('default', f, opt[1]) if isinstance(opt, tuple) else None))
        return ('fields', out)


class Decode(Unit):
    """any byte string under one declaration: the fields X.690 assigns, or ValueError"""
    targets = ('asn1crypto.core._parse_build', 'asn1crypto.core._build', 'asn1crypto.core.Sequence._parse_children',
               'asn1crypto.core.Sequence.__getitem__', 'asn1crypto.core.Sequence._lazy_child')
    unroll = 40
    covers = ('accepted', 'refused')
    time_s = 240
    assumptions = ('contract of parser._parse (C02)',)

    def __init__(self, name, S, kinds=(), thorough=False):
        self.name = name
        self.S = S
        self.thorough_only = thorough
        self.bounded_note = 'the declaration is fixed; elements have any class, method, tag and contents'

    def run(self, it):
        c = it.ctx
        S = self.S
        w = Wire(it)
        data = c.in_bytes('data', 1)
        cls = schema.cls_of(S)
        k, o = outcome(it, cls.load, data, strict=True, **schema.params_of(S))
        got = o
        if k == 'ret':
            k, got = self.read(it, S, o)
        r = Ref(w)
        try:
            ref = r.dec(S, r.only(data))
        except Bad as e:
            c.cover('refused')
            c.prove('data that does not match the declaration is refused', k == 'exc')
            c.prove('refused with ValueError', k == 'exc' and isinstance(got, ValueError))
            return
        c.cover('accepted')
        c.prove('data that matches the declaration is accepted', k == 'ret')
        if k == 'ret':
            self.agree(it, S, got, ref, '')
            kd, d = meth(it, o, 'dump')
            c.prove('it encodes to the bytes it was read from', kd == 'ret' and is_bytes(d) and beq(it, d, data))

    def read(self, it, S, o):
        """read every field through the public interface"""
        try:
            return 'ret', self.walk(it, S, o)
        except PyRaise as e:
            return 'exc', e.exc

    def walk(self, it, S, o):
        kind = S[0]
        if kind in ('seq', 'set'):
            out = []
            for name, f, opt in S[2]:
                x = it.getitem(o, name)
                out.append((name, None if x is core.VOID else self.walk(it, f, x)))
            return ('fields', o, out)
        if kind == 'choice':
            n = it.getattr(o, 'name')
            return ('choice', o, n, self.walk(it, dict(S[2])[n], it.getattr(o, 'chosen')))
        return ('leaf', o, it.call(it.getattr(o, 'dump'), [], {}) if kind == 'any' else it.getattr(o, 'contents'))

    def agree(self, it, S, got, ref, path):
        c = it.ctx
        at_ = ' at ' + path if path else ''
        if ref is None or got is None:
            c.prove('an absent field reads as absent' + at_, ref is None and got is None)
            return
        c.prove('the value has the declared class' + at_, type(got[1]) is schema.cls_of(S))
        if ref[0] == 'default':
            k, d = meth(it, got[1], 'dump')
            want = schema.enc(S, ref[2])
            c.prove('a defaulted field reads as its default' + at_, k == 'ret' and is_bytes(d) and beq(it, d, want))
        elif ref[0] == 'fields':
            for (n, f, opt), (n1, g), (n2, r) in zip(S[2], got[2], ref[1]):
                self.agree(it, f, g, r, path + '.' + n)
        elif ref[0] == 'choice':
            c.prove('the chosen alternative is the one that matches' + at_, got[2] == ref[1])
            if got[2] == ref[1]:
                self.agree(it, dict(S[2])[ref[1]], got[3], ref[2], path + '.' + ref[1])
        elif ref[0] == 'any':
            c.prove('the value is the element' + at_, is_bytes(got[2]) and beq(it, got[2], ref[1].whole))
        else:
            c.prove('the contents are those of its element' + at_, is_bytes(got[2]) and beq(it, got[2], ref[2]))

    def oracle(self, i):
        from .structs import chk_decode
        return chk_decode((self.S, i['data']))


N = schema.NOTAGS


def imp(n, cls=2):
    return (None, (), ('i', cls, n, 'num'))


def exp(*ts):
    return (None, (), ('e', tuple(t if isinstance(t, tuple) else (2, t) for t in ts), 'num'))


def seq(*fs, **k):
    return ('seq', k.get('tags', N), tuple(f if len(f) == 3 else f + (None,) for f in fs))


def set_(*fs, **k):
    return ('set', k.get('tags', N), tuple(f if len(f) == 3 else f + (None,) for f in fs))


OCT = ('octets', N)
INT = ('int', N)


# ------------------------------------------------------------------------------------------------ encoding
def senc(w, S, v):
    """DER of a symbolic value, by X.690 (the reference; headers by the contract of _dump_header)"""
    return v if S[0] == 'any' else spiece(w, S, v).whole


def spiece(w, S, v):
    c, it = w.c, w.it
    kind = S[0]
    if kind == 'choice':
        out = spiece(w, dict(S[2])[v[0]], v[1])
    else:
        cls, tag = schema.inner_id(S)
        if kind in ('seq', 'set'):
            parts = []
            for name, f, opt in S[2]:
                if not schema.has(v, name):
                    continue
                x = schema.get(v, name)
                if isinstance(opt, tuple) and c.branch(leaf_eq(it, f, x, opt[1])):
                    continue
                parts.append((first_id(f, x) if kind == 'set' else None, spiece(w, f, x)))
            if kind == 'set':
                parts.sort(key=lambda p: p[0])
            ps = [p[1] for p in parts]
            out = w.tlv(cls, 1, tag, concat(*[p.whole for p in ps]), ps)
        elif kind in ('seqof', 'setof'):
            ps = [spiece(w, S[2], x) for x in v]
            if kind == 'setof':
                ps = w.ordered(ps)
            out = w.tlv(cls, 1, tag, concat(*[p.whole for p in ps]), ps)
        else:
            out = w.tlv(cls, 0, tag, v if is_bytes(v) else schema.prim(kind, v))
    for cls, tag in schema.outers(S):
        out = w.tlv(cls, 1, tag, out.whole, [out])
    return out


def leaf_eq(it, S, a, b):
    """are two values of a simple type or of a sequence of them the same"""
    if S[0] in ('seq', 'set'):
        zs = []
        for n, f, q in S[2]:
            if schema.has(a, n) != schema.has(b, n):
                return z3.BoolVal(False)
            if schema.has(a, n):
                zs.append(leaf_eq(it, f, schema.get(a, n), schema.get(b, n)))
        return z3.And(zs) if zs else z3.BoolVal(True)
    if S[0] in ('seqof', 'setof'):
        return z3.And([z3.BoolVal(len(a) == len(b))] + [leaf_eq(it, S[2], x, y) for x, y in zip(a, b)])
    if is_bytes(a):
        return beq(it, a, b)
    return z3.BoolVal(a == b)


def first_id(S, v):
    while S[0] == 'choice' and not schema.outers(S):
        S, v = dict(S[2])[v[0]], v[1]
    return sorted(schema.ids(S))[0]


def svalue(c, S, path='v', count=(0, 1, 2)):
    """a symbolic value: any octets, every choice of present fields, alternatives and counts"""
    kind = S[0]
    if kind == 'octets':
        return c.in_bytes(path, 0)
    if kind in ('seq', 'set'):
        out = []
        for n, f, opt in S[2]:
            p = path + '.' + n
            if opt is not None:
                k = c.choose(2)
                c.input(p + '?', k)
                if not k:
                    continue
            out.append((n, svalue(c, f, p, count)))
        return tuple(out)
    if kind in ('seqof', 'setof'):
        n = count[c.choose(len(count))]
        c.input(path + '#', n)
        return tuple(svalue(c, S[2], '%s[%d]' % (path, i), count) for i in range(n))
    if kind == 'choice':
        k = c.choose(len(S[2]))
        c.input(path + '!', k)
        return S[2][k][0], svalue(c, S[2][k][1], path + '.' + S[2][k][0], count)
    if kind == 'bool':
        return bool(c.choose(2))
    raise AssertionError(kind)


def rvalue(i, S, path='v'):
    """the concrete value of a replayed input"""
    kind = S[0]
    if kind == 'octets':
        return i[path]
    if kind in ('seq', 'set'):
        return tuple((n, rvalue(i, f, path + '.' + n)) for n, f, opt in S[2]
                     if opt is None or i.get(path + '.' + n + '?'))
    if kind in ('seqof', 'setof'):
        return tuple(rvalue(i, S[2], '%s[%d]' % (path, k)) for k in range(i[path + '#']))
    if kind == 'choice':
        n, a = S[2][i[path + '!']]
        return n, rvalue(i, a, path + '.' + n)
    return True


def sbuild(it, S, v):
    """a library object of the symbolic value, through the constructors"""
    cls = schema.cls_of(S)
    p = schema.params_of(S)
    if S[0] == 'choice':
        return it.call(cls, [v[0], snative(it, dict(S[2])[v[0]], v[1])], p)
    return it.call(cls, [snative(it, S, v)], p)


def snative(it, S, v):
    kind = S[0]
    if kind in ('seq', 'set'):
        return dict((n, snative(it, f, schema.get(v, n))) for n, f, o in S[2] if schema.has(v, n))
    if kind in ('seqof', 'setof'):
        return [snative(it, S[2], x) for x in v]
    if kind == 'choice':
        return it.call(schema.cls_of(S), [v[0], snative(it, dict(S[2])[v[0]], v[1])], {})
    return v


def sorder(self, it, x):
    """rank of a byte string in the order of byte strings (an external: only that it is a total order is used)"""
    for y, r in self.ranks:
        if y is x:
            return r
    r = self.c.fresh_int('rank').z
    for y, q in self.ranks:
        self.c.fact((r == q) == beq(it, x, y))
    self.ranks.append((x, r))
    return r


def ordered(self, parts):
    """sorted by the order of byte strings"""
    out = []
    for p in parts:
        j = len(out)
        while j > 0 and self.c.branch(self.order(self.it, p.whole) < self.order(self.it, out[j - 1].whole)):
            j -= 1
        out.insert(j, p)
    return out


def known_tree(self, S, v):
    """the encoding of the value, with every level known to the contract of _parse"""
    p = spiece(self, S, v)
    self.learn(p.whole, [p])
    return p.whole


Wire.order = sorder
Wire.ordered = ordered
Wire.known_tree = known_tree


class Encode(Unit):
    """any value of one declaration, built through the constructors, encodes as X.690 prescribes; decoding it gives it back"""
    targets = ('asn1crypto.core.Sequence.__init__', 'asn1crypto.core.Sequence._make_value', 'asn1crypto.core.Sequence._set_contents',
               'asn1crypto.core.Sequence.dump', 'asn1crypto.core.Asn1Value.dump')
    unroll = 40
    covers = ('encoded',)
    time_s = 240
    assumptions = ('contracts of parser._dump_header (C01) and parser._parse (C02)',)

    def __init__(self, name, S, way=None, thorough=False):
        self.name, self.S, self.way = name, S, way
        self.thorough_only = thorough
        self.bounded_note = 'the declaration is fixed, collections have up to two elements; octets are unbounded'

    def run(self, it):
        c = it.ctx
        S = self.S
        w = Wire(it)
        v = svalue(c, S)
        try:
            o = self.make(it, S, v)
            k = 'ret'
        except PyRaise as e:
            k, o = 'exc', e.exc
        c.prove('the value is accepted', k == 'ret')
        if k != 'ret':
            return
        k, d = meth(it, o, 'dump')
        want = senc(w, S, v)
        c.cover('encoded')
        c.prove('it encodes as X.690 prescribes', k == 'ret' and is_bytes(d) and beq(it, d, want))
        k, d = meth(it, o, 'dump', True)
        c.prove('a forced dump is the same', k == 'ret' and is_bytes(d) and beq(it, d, want))
        got = Fields(it).walk(S, o)
        agree(it, S, got, v, '')

    def make(self, it, S, v):
        if self.way != 'order':
            return sbuild(it, S, v)
        # the fields or elements one by one, in any order
        c = it.ctx
        rest = list(v)
        if S[0] in ('seq', 'set'):
            o = it.call(schema.cls_of(S), [{}], schema.params_of(S))
        else:
            o = it.call(schema.cls_of(S), [[]], schema.params_of(S))
        n = 0
        while rest:
            k = c.choose(len(rest))
            c.input('order%d' % n, k)
            n += 1
            x = rest.pop(k)
            if S[0] in ('seq', 'set'):
                it.models.setitem(it, o, x[0], snative(it, dict((m, f) for m, f, q in S[2])[x[0]], x[1]))
            else:
                kk, r = meth(it, o, 'append', snative(it, S[2], x))
                if kk != 'ret':
                    raise PyRaise(r)
        return o

    def oracle(self, i):
        from .structs import chk_build
        v = rvalue(i, self.S)
        if self.way == 'order':
            return chk_ordered(self.S, v, i)
        return chk_build((self.S, v, 1))


def chk_ordered(S, v, i):
    from .structs import attempt
    rest, n = list(v), 0
    o = schema.cls_of(S)({} if S[0] in ('seq', 'set') else [], **schema.params_of(S))
    while rest:
        x = rest.pop(i['order%d' % n])
        n += 1
        if S[0] in ('seq', 'set'):
            o[x[0]] = schema.native_in(dict((m, f) for m, f, q in S[2])[x[0]], x[1])
        else:
            o.append(schema.native_in(S[2], x))
    r, d = attempt(o.dump)
    e = schema.enc(S, v)
    if r != 'ret' or d != e:
        return '%r supplied in another order encodes as %s and not %s' % (v, d if r != 'ret' else d.hex(), e.hex())


class Fields(object):
    def __init__(self, it):
        self.it = it

    def walk(self, S, o):
        """the value read through the public interface; ('exc', e) in place of a part that can not be read"""
        it = self.it
        kind = S[0]
        try:
            if kind in ('seq', 'set'):
                out = []
                for name, f, opt in S[2]:
                    x = it.getitem(o, name)
                    if x is not core.VOID:
                        out.append((name, self.walk(f, x)))
                return tuple(out)
            if kind in ('seqof', 'setof'):
                return tuple(self.walk(S[2], x) for x in it.iterate(o))
            if kind == 'choice':
                n = it.getattr(o, 'name')
                return n, self.walk(dict(S[2])[n], it.getattr(o, 'chosen'))
            return it.getattr(o, 'native')
        except PyRaise as e:
            return Refused(e.exc)


class Refused(object):
    def __init__(self, exc):
        self.exc = exc


def agree(it, S, got, v, path, what='reads as the value'):
    c = it.ctx
    name = what + (' at ' + path if path else '')
    kind = S[0]
    if isinstance(got, Refused):
        c.prove(name, False)
        return
    if kind in ('seq', 'set'):
        want = {}
        for n, f, q in S[2]:
            if schema.has(v, n):
                want[n] = schema.get(v, n)
            elif isinstance(q, tuple):
                want[n] = q[1]
        have = dict(got)
        for n, f, q in S[2]:
            c.prove('%s is present exactly when it was given' % (path + '.' + n), (n in have) == (n in want))
            if n in have and n in want:
                agree(it, f, have[n], want[n], path + '.' + n, what)
    elif kind in ('seqof', 'setof'):
        c.prove(name + ': as many elements', len(got) == len(v))
        if kind == 'seqof' or len(v) < 2:
            for k, (a, b) in enumerate(zip(got, v)):
                agree(it, S[2], a, b, '%s[%d]' % (path, k), what)
    elif kind == 'choice':
        c.prove(name + ': the alternative', got[0] == v[0])
        if got[0] == v[0]:
            agree(it, dict(S[2])[v[0]], got[1], v[1], path + '.' + v[0], what)
    else:
        c.prove(name, Z(it.models.eq(it, got, v)) if is_bytes(v) else z3.BoolVal(got == v))
