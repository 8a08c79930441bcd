"""C08: chunked (constructed) strings equal their concatenation and re-encode as DER."""
import ast
import copy
from .common import *  # noqa
from .c05 import PathEndNow
from .c07 import TYPES, rtext
from oracle import x690
from pyvc.models import BitSeq
from pyvc.interp import assigned_names

CLASSES = ['OctetString', 'IntegerOctetString', 'ParsableOctetString', 'BitString', 'OctetBitString', 'IntegerBitString',
           'ParsableOctetBitString'] + sorted(TYPES)


class Ghost(object):
    """a merged value of one chunk, or an accumulated one: only its identity matters"""

    def __init__(self, what):
        self.what = what


class MergeLoop(Unit):
    """any number of chunks of any size: induction over the loop of Constructable._merge_chunks, against the contract of
    _parse_build (a value of the given class at the pointer, and a pointer beyond it) and, by structural induction, of
    _merge_chunks on each chunk"""
    targets = ('asn1crypto.core.Constructable._merge_chunks',)
    covers = ('no chunks', 'first chunk', 'later chunk', 'after the last chunk')

    def __init__(self, cls, kind):
        self.cls, self.kind = cls, kind
        self.name = '_merge_chunks of %s: the concatenation of any number of chunks' % cls

    def run(self, it):
        c = it.ctx
        cls = getattr(core, self.cls)
        con = c.in_bytes('contents', 0)
        n = bound(blen(con))
        o = cls()
        it.setattr(o, 'contents', con)
        o.__dict__.update(_indefinite=True, method=1, _trailer=b'\0\0')
        lists = self.kind == 'list'
        state = {'calls': 0}
        empty = [] if lists else b''
        phase = c.choose(3)

        def parse_build(it_, f, args, kwargs):
            a = names_bound(f, args, kwargs)
            if a is None:
                return MISSING
            c.prove('chunks are read from the contents', a['encoded_data'] is con)
            c.prove('chunks have the class of the string', a['spec'] is cls and not a['spec_params'] and not a['strict'])
            p = Z(a['pointer'])
            c.prove('chunks are read where the one before ended', p == state['at'])
            c.prove('within the contents', z3.And(p >= 0, p < n))
            nxt = c.fresh_int('next')
            c.fact(z3.And(nxt.z > p, nxt.z <= n))
            state['next'] = nxt.z
            state['calls'] += 1
            sub = cls()
            it.setattr(sub, 'contents', b'')
            state['sub'] = sub
            state['part'] = [Ghost('chunk')] if lists else c.fresh_bytes('part', 0)
            return (sub, nxt)

        def merge(it_, f, args, kwargs):
            if args and args[0] is not o:
                c.prove('the chunk just read is merged', args[0] is state.get('sub'))
                return list(state['part']) if lists else state['part']
            return MISSING

        def handler(it_, node, fr, seq):
            if not isinstance(node, ast.While) or fr.qualname.split('.')[-1] != '_merge_chunks':
                return MISSING
            mod = assigned_names(node.body) & set(fr.locals)
            accs = [m for m in mod if fr.locals[m] is None or fr.locals[m] == b'' or fr.locals[m] == []]
            ptrs = [m for m in mod if isinstance(fr.locals[m], int) and fr.locals[m] == 0]
            if len(accs) != 1 or len(ptrs) != 1:
                raise Unsupported('the loop has another form')
            acc, ptr = accs[0], ptrs[0]
            if phase == 0:
                # no chunk at all
                c.assume(n == 0)
                c.cover('no chunks')
                c.prove('the loop ends at once', not it.truth(it.eval(node.test, fr)))
                return None
            c.assume(n > 0)
            if phase == 1:
                first = c.choose(2)
                c.cover('first chunk' if first else 'later chunk')
                before = empty
                state['at'] = z3.IntVal(0)
                if not first:
                    before = [Ghost('accumulated')] if lists else c.fresh_bytes('accumulated', 0)
                    p = c.fresh_int('pointer')
                    c.fact(z3.And(p.z > 0, p.z < n))
                    fr.locals[ptr] = p
                    fr.locals[acc] = list(before) if lists else before
                    state['at'] = p.z
                c.prove('the loop goes on before the end', it.truth(it.eval(node.test, fr)))
                r = it.exec_block(node.body, fr)
                if r is not None and r[0] != 'continue':
                    c.prove('the loop runs over every chunk', False)
                c.prove('exactly one chunk is read', state['calls'] == 1)
                after = fr.locals[acc]
                if lists:
                    want = list(before) + state['part']
                    c.prove('appended', isinstance(after, list) and len(after) == len(want) and
                            all(x is y for x, y in zip(after, want)))
                else:
                    c.prove('appended', is_bytes(after) and beq(it, after, concat(before, state['part'])))
                c.prove('pointer advances', Z(fr.locals[ptr]) == state['next'])
                raise PathEndNow()
            c.cover('after the last chunk')
            state['all'] = [Ghost('all')] if lists else c.fresh_bytes('all', 0)
            fr.locals[acc] = list(state['all']) if lists else state['all']
            fr.locals[ptr] = SInt(n)
            c.prove('the loop ends at the end', not it.truth(it.eval(node.test, fr)))
            return it.exec_block(node.orelse, fr) if node.orelse else None

        it.loop_handlers.append(handler)
        it.contracts = {'asn1crypto.core._parse_build': parse_build, 'asn1crypto.core.Constructable._merge_chunks': merge}
        try:
            k, r = meth(it, o, '_merge_chunks')
        except PathEndNow:
            return
        c.prove('returns', k == 'ret')
        want = empty if phase == 0 else state['all']
        if lists:
            c.prove('the accumulated chunks', isinstance(r, list) and len(r) == len(want) and
                    all(x is y for x, y in zip(r, want)))
        elif self.kind == 'bytes':
            c.prove('the accumulated chunks', is_bytes(r) and beq(it, r, want))


class Few(Unit):
    """k chunks (each of any size), the last of them possibly itself chunked: through the real _parse_build and _build,
    against the contract of _parse"""
    targets = ('asn1crypto.core._parse_build', 'asn1crypto.core._build', 'asn1crypto.core.Constructable._copy',
               'asn1crypto.core.Asn1Value.dump')

    unroll = 60

    def __init__(self, cls, k, nested=False, thorough=False):
        self.thorough_only = thorough
        self.cls, self.k, self.nested = cls, k, nested
        self.name = '%s of %d chunks%s' % (cls, k, ', the last chunked again' if nested else '')
        self.bounded_note = 'number of chunks fixed to %d; chunk sizes and octets unbounded' % k
        self.assumptions = ('contracts of parser._parse (C02) and parser._dump_header (C01)',)
        self.covers = ('native', 'dump', 'copy')

    def run(self, it):
        c = it.ctx
        cls = getattr(core, self.cls)
        tag = cls.tag
        bits = tag == 3
        BUFS = []

        def buffer(pieces):
            """pieces: (constructed, header, contents, trailer); the buffer and where each piece starts"""
            atoms, starts, pos = [], [], 0
            for p in pieces:
                starts.append(pos)
                for x in p[1:]:
                    atoms.append(x)
                    pos = simp(pos + bound(blen(x)))
            buf = concat(*atoms)
            BUFS.append((buf, pieces, starts + [pos]))
            return buf

        parts = []

        def chunk(i):
            con = c.in_bytes('chunk%d' % i, 0)
            if bits:
                con = concat(b'\x00', con)
            parts.append(slc(it, con, 1, None) if bits else con)
            return (0, c.fresh_bytes('header%d' % i, 2), con, b'')

        pieces = [chunk(i) for i in range(self.k - (1 if self.nested else 0))]
        if self.nested:
            inner = buffer([chunk(self.k - 1), chunk(self.k)])
            pieces.append((1, bytes([0x20 | tag, 0x80]), inner, b'\0\0'))
        con = buffer(pieces)
        value = concat(*parts)

        def parse(it_, f, args, kwargs):
            a = names_bound(f, args, kwargs)
            if a is None:
                return MISSING
            for buf, ps, starts in BUFS:
                if a['encoded_data'] is buf:
                    for p, s, e in zip(ps, starts, starts[1:]):
                        if c.implied(Z(a['pointer']) == bound(s)):
                            return ((0, p[0], tag, p[1], p[2], p[3]), mkint(e))
            raise Unsupported('_parse called on something else')
        headers = []

        def dump_header(it_, f, args, kwargs):
            a = names_bound(f, args, kwargs)
            if a is None or not is_bytes(a['contents']):
                return MISSING
            for cl, me, tg, n, h in headers:
                if (cl, me, tg) == (a['class_'], a['method'], a['tag']) and c.implied(bound(blen(a['contents'])) == n):
                    return h
            h = c.fresh_bytes('emitted', 2)
            headers.append((a['class_'], a['method'], a['tag'], bound(blen(a['contents'])), h))
            return h
        it.contracts = {'asn1crypto.parser._parse': parse, 'asn1crypto.parser._dump_header': dump_header}
        o = cls()
        it.setattr(o, 'contents', con)
        o.__dict__.update(_indefinite=True, method=1, _header=bytes([0x20 | tag, 0x80]), _trailer=b'\0\0')
        p = cls()
        whole = concat(b'\x00', value) if bits else value
        it.setattr(p, 'contents', whole)

        def same(name, x):
            k1, n1 = getp(it, x, 'native')
            k2, n2 = getp(it, p, 'native')
            if k1 == 'exc' or k2 == 'exc':
                c.prove(name + ': refused exactly when the concatenation is', k1 == k2 and type(n1) is type(n2))
                return False
            if isinstance(n1, BitSeq) or isinstance(n2, BitSeq):
                if isinstance(n1, BitSeq) and isinstance(n2, BitSeq):
                    c.prove(name + ' native', z3.And(bound(n1.n) == bound(n2.n), bound(n1.v) == bound(n2.v)))
                else:
                    bs, other = (n1, n2) if isinstance(n1, BitSeq) else (n2, n1)
                    c.prove(name + ' native', other == () and bound(bs.n) == 0)
            else:
                c.prove(name + ' native', Z(it.models.eq(it, n1, n2)))
            return True
        what = c.choose(3)
        if what == 0:
            c.cover('native')
            same('chunked', o)
            return
        if what == 1:
            c.cover('dump')
            k, d = meth(it, o, 'dump', *([True] if c.choose(2) else []))
            x = o
        else:
            c.cover('copy')
            if c.choose(2):
                getp(it, o, 'native')
            k, x = meth(it, o, 'copy')
            d = x
            if k == 'ret':
                k, d = meth(it, x, 'dump')
        k2, d2 = meth(it, p, 'dump', True)
        if k == 'exc' or k2 == 'exc':
            c.prove('refused exactly when the concatenation is', k == k2 and isinstance(d, ValueError))
            return
        c.prove('no trailer and no chunking left', x.__dict__.get('_indefinite', False) is False and
                it.getattr(x, '_trailer') == b'' and it.getattr(x, 'method') == 0)
        xc = it.getattr(x, 'contents')
        if self.cls in ('OctetString', 'IntegerOctetString', 'ParsableOctetString', 'OctetBitString', 'ParsableOctetBitString'):
            c.prove('contents are the concatenation', is_bytes(xc) and beq(it, xc, whole))
        h = it.call(core._dump_header, [0, 0, tag, xc], {})
        c.prove('dump is the primitive encoding', is_bytes(d) and beq(it, d, concat(h, xc)))
        c.prove('dump is that of the concatenation', is_bytes(d2) and beq(it, d, d2))
        p = cls()
        it.setattr(p, 'contents', whole)
        same('re-encoded', x)

    def oracle(self, i):
        cl = getattr(core, self.cls)
        chunks = [i[k] for k in sorted(i) if k.startswith('chunk')]
        if sum(map(len, chunks)) > 20000:
            return None
        if cl.tag == 3:
            chunks = [b'\x00' + x for x in chunks]
        tree = list(chunks)
        if self.nested:
            tree = chunks[:-2] + [chunks[-2:]]
        return chk_tree(self.cls, tree)


class LaterPadding(Unit):
    """a bit string chunk with unused bits is refused unless it is the last"""
    targets = ('asn1crypto.core._IntegerBitString._chunks_to_int', 'asn1crypto.core.OctetBitString.__bytes__',
               'asn1crypto.core.ParsableOctetBitString._as_chunk')
    covers = ('refused', 'accepted')
    unroll = 60

    def __init__(self, cls):
        self.cls = cls
        self.name = cls + ': unused bits before the last chunk'
        self.bounded_note = 'two chunks; their sizes and octets unbounded'

    def run(self, it):
        c = it.ctx
        cls = getattr(core, self.cls)
        u1, u2 = c.choose(9), c.choose(3)
        if self.cls == 'BitString' and not u1:
            # the accepting direction needs value < 2**bits of a joined value: Few() covers it
            c.cover('accepted')
            return
        c.input('u1', u1)
        c.input('u2', u2)
        a, b = c.in_bytes('a', 1), c.in_bytes('b', 1)
        cons = [concat(bytes([u1]), a), concat(bytes([u2]), b)]
        hs = [c.fresh_bytes('h%d' % i, 2) for i in range(2)]
        buf = concat(hs[0], cons[0], hs[1], cons[1])
        mid = simp(bound(blen(hs[0])) + bound(blen(cons[0])))
        o = cls()
        it.setattr(o, 'contents', buf)
        o.__dict__.update(_indefinite=True, method=1, _header=b'\x23\x80', _trailer=b'\0\0')

        def parse(it_, f, args, kwargs):
            n = names_bound(f, args, kwargs)
            if n is None or n['encoded_data'] is not buf:
                raise Unsupported('_parse called on something else')
            if c.implied(Z(n['pointer']) == 0):
                return ((0, 0, 3, hs[0], cons[0], b''), mkint(mid))
            if c.implied(Z(n['pointer']) == bound(mid)):
                return ((0, 0, 3, hs[1], cons[1], b''), mkint(bound(blen(buf))))
            raise Unsupported('_parse called elsewhere')
        it.contracts = {'asn1crypto.parser._parse': parse}
        k, r = getp(it, o, 'native')
        parsable = self.cls == 'ParsableOctetBitString'
        if u1 or u2 > 7 or (parsable and u2):
            c.cover('refused')
            c.prove('refused with ValueError', k == 'exc' and isinstance(r, ValueError))
        else:
            c.cover('accepted')
            c.prove('accepted', k == 'ret')

    def oracle(self, i):
        if len(i['a']) + len(i['b']) > 20000:
            return None
        return chk_tree(self.cls, [bytes([i['u1']]) + i['a'], bytes([i['u2']]) + i['b']])


# ------------------------------------------------------------------------------------------- runtime contracts
ALL = dict((n, getattr(core, n)) for n in CLASSES)
ALL.update(URI=x509.URI, EmailAddress=x509.EmailAddress, NotReallyTeletexString=x509.NotReallyTeletexString,
           KeyUsage=x509.KeyUsage, DNSName=x509.DNSName, IPAddress=x509.IPAddress,
           PublicKeyBits=keys.ECPointBitString)
ALL = dict((k, v) for k, v in ALL.items() if v is not None)


def leaves(tree):
    for x in tree:
        if isinstance(x, bytes):
            yield x
        else:
            for y in leaves(x):
                yield y


def encode_tree(tag, tree):
    return b''.join(x690.emit(0, 0, tag, x) if isinstance(x, bytes) else
                    x690.identifier(0, 1, tag) + b'\x80' + encode_tree(tag, x) + b'\0\0' for x in tree)


def merged(tag, tree):
    """contents of the equivalent primitive value; None: refused"""
    ls = list(leaves(tree))
    if tag != 3:
        return b''.join(ls)
    for x in ls:
        if not x or x[0] > 7 or (x[0] and len(x) == 1):
            return None
    if any(x[0] for x in ls[:-1]):
        return None
    return bytes([ls[-1][0] if ls else 0]) + b''.join(x[1:] for x in ls)


def state(o):
    r = [o.native]
    if hasattr(type(o), '__bytes__') and type(o).__bytes__ is not core.Asn1Value.__bytes__:
        r.append(bytes(o))
    if type(o).__unicode__ is not core.Asn1Value.__unicode__:
        r.append(str(o))
    if hasattr(o, 'unused_bits'):
        r.append(len(o.unused_bits))
    return r


class Holder(core.Sequence):
    _fields = [('before', core.Integer), ('value', core.Any), ('after', core.Integer)]


_HOLD = {}


def holder(cls):
    if cls not in _HOLD:
        class H(core.Sequence):
            _fields = [('before', core.Integer), ('value', cls), ('tagged', cls, {'implicit': 1, 'optional': True}),
                       ('wrapped', cls, {'explicit': 2, 'optional': True}), ('after', core.Integer)]
        _HOLD[cls] = H
    return _HOLD[cls]


def chk_tree(name, tree, full=False):
    cls = ALL[name]
    tag = cls.tag
    cons = encode_tree(tag, tree)
    data = x690.identifier(0, 1, tag) + b'\x80' + cons + b'\0\0'
    con = merged(tag, tree)
    depth = x690.indefinite_depth(data)
    if depth > 10:
        try:
            cls.load(data)
        except ValueError:
            return None
        return '%s accepts chunks nested %d deep' % (name, depth)
    prim = None
    if con is not None:
        prim = cls.load(x690.emit(0, 0, tag, con))
        try:
            want = state(prim)
        except ValueError:
            if name == 'NotReallyTeletexString':
                return None
            prim = None
    if prim is None:
        for f in (lambda o: o.native, lambda o: o.dump(), lambda o: o.dump(force=True), lambda o: o.copy().native):
            o = cls.load(data)
            try:
                f(o)
            except ValueError:
                continue
            return '%s: %s is accepted though its chunks cannot be joined' % (name, data.hex())
        return None
    der = cls.load(x690.emit(0, 0, tag, con)).dump(force=True)
    head = x690.parse(der)[0]
    if head[:3] != (0, 0, tag):
        return '%s: %s is forced to %s' % (name, x690.emit(0, 0, tag, con).hex(), der.hex())
    exact = name not in ('BitString', 'IntegerBitString', 'OctetBitString', 'KeyUsage', 'PublicKeyBits',
                         'URI', 'EmailAddress', 'DNSName', 'NotReallyTeletexString')
    if exact and head[4] != con:
        return '%s: %s is forced to %s' % (name, x690.emit(0, 0, tag, con).hex(), der.hex())
    keep_len = name in ('IntegerBitString',) or name == 'OctetBitString'
    for how in range(9):
        o = cls.load(data, strict=True)
        if how in (1, 3, 5, 7):
            got = state(o)
            if got != want:
                return '%s: %s reads %r, the joined value %r' % (name, data.hex(), got, want)
        if how == 0 and o.native != want[0]:
            return '%s: %s has native %r, not %r' % (name, data.hex(), o.native, want[0])
        if how in (1, 2):
            d = o.dump()
        elif how in (3, 4):
            d = o.dump(force=True)
        elif how in (5, 6):
            before = o.contents, o._header, o._trailer, o._indefinite
            x = o.copy() if how == 5 else copy.copy(o)
            if (o.contents, o._header, o._trailer, o._indefinite) != before:
                return '%s: copying %s changed the original' % (name, data.hex())
            d, o = x.dump(), x
        elif how == 7:
            d = o.untag().dump()
        elif how == 8:
            d = o.retag({'implicit': 5}).dump()
            if d[:1] != b'\x85':
                return '%s: %s retagged is %s' % (name, data.hex(), d.hex())
            d = bytes([tag]) + d[1:]
        else:
            continue
        if d != der:
            return '%s: %s is re-encoded (way %d) as %s, not %s' % (name, data.hex(), how, d.hex(), der.hex())
        if (how < 7 and (o._trailer != b'' or o._indefinite or o.method != 0 or o._header[-1:] == b'\x80' and len(o._header) == 2
                         and False)):
            return '%s: %s keeps its chunking after being re-encoded (way %d)' % (name, data.hex(), how)
        if how < 7:
            now = state(o)
            if now[0] != want[0]:
                return '%s: %s reads %r after being re-encoded (way %d)' % (name, data.hex(), now, how)
            if o.dump() != der or o.dump(force=True) != der:
                return '%s: %s encodes differently the second time' % (name, data.hex())
    # assigning afterwards
    o = cls.load(data)
    o.native
    val = bytes(prim) if isinstance(prim, core.ParsableOctetString) else want[0] if name != 'NotReallyTeletexString' else 'new'
    o.set(val)
    if o.dump() != cls(val).dump() or o.native != cls(val).native or o.copy().dump() != cls(val).dump():
        return '%s: %s encodes as %s after being assigned its value' % (name, data.hex(), o.dump().hex())
    # other tagging
    for kw, outer in (({'implicit': 3}, lambda d, c: x690.identifier(2, c, 3) + d[1:]),
                      ({'explicit': 3}, lambda d, c: x690.emit(2, 1, 3, d)),
                      ({'explicit': ('application', 1)}, lambda d, c: x690.identifier(1, 1, 1) + b'\x80' + d + b'\0\0')):
        if depth == 10 and 'explicit' in kw:
            continue
        o = cls.load(outer(data, 1), strict=True, **kw)
        if o.native != want[0]:
            return '%s: %s tagged %r reads %r' % (name, data.hex(), kw, o.native)
        d = cls(**kw)
        good = x690.emit(2, 0, 3, head[4]) if 'implicit' in kw else x690.emit(*(((2, 1, 3) if kw['explicit'] == 3 else (1, 1, 1)) + (der,)))
        if o.dump() != good and o.copy().dump() != good:
            return '%s: %s tagged %r dumps %s, not %s' % (name, data.hex(), kw, o.dump().hex(), good.hex())
        o = cls.load(outer(data, 1), strict=True, **kw)
        if o.copy().dump() != good or o.dump(force=True) != good:
            return '%s: %s tagged %r is forced to %s, not %s' % (name, data.hex(), kw, o.dump(force=True).hex(), good.hex())
    # within a structure
    h = holder(cls)
    if depth >= 9:
        return None
    three = b'\x02\x01\x03'
    for ind in (0, 1):
        body = three + data + x690.identifier(2, 1, 1) + b'\x80' + cons + b'\0\0' + x690.identifier(2, 1, 2) + b'\x80' + data + b'\0\0' + three
        if ind and depth >= 8:
            continue
        whole = b'\x30\x80' + body + b'\0\0' if ind else x690.emit(0, 1, 16, body)
        s = h.load(whole, strict=True)
        for f in ('value', 'tagged', 'wrapped'):
            if s[f].native != want[0]:
                return '%s: %s in a structure reads %r as %s' % (name, data.hex(), s[f].native, f)
        good = x690.emit(0, 1, 16, three + der + x690.emit(2, 0, 1, head[4]) + x690.emit(2, 1, 2, der) + three)
        got = h.load(whole).dump(force=True)
        if got != good or s.dump(force=True) != good:
            return '%s: %s in a structure is forced to %s, not %s' % (name, data.hex(), got.hex(), good.hex())
        s = h.load(whole)
        if not ind and s.dump() != whole:
            return '%s: a structure holding %s is not dumped as loaded' % (name, data.hex())
        s['after'] = 4
        if h.load(s.dump())['value'].native != want[0] or h.load(s.dump())['wrapped'].native != want[0]:
            return '%s: a changed structure holding %s lost it' % (name, data.hex())
        s = h.load(whole)
        if s.copy().dump(force=True) != good:
            return '%s: copy of a structure holding %s is %s' % (name, data.hex(), s.copy().dump(force=True).hex())
    return None


def pieces(rng, b, n, depth):
    """cut b into a tree of chunks"""
    cuts = sorted(rng.randrange(len(b) + 1) for _ in range(n - 1))
    out = [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])] if n else []
    tree = []
    for x in out:
        if depth and rng.random() < .35:
            tree.append(pieces(rng, x, rng.choice([0, 1, 2, 3]) if not x else rng.choice([1, 2, 3]), depth - 1))
        else:
            tree.append(x)
    return tree


def bit_tree(rng, tree, pad, last=True):
    out = []
    for i, x in enumerate(tree):
        if isinstance(x, list):
            out.append(bit_tree(rng, x, pad, last and i == len(tree) - 1))
        else:
            lst = last and i == len(tree) - 1
            u = pad if lst and x else 0
            if rng.random() < .03:
                u = rng.randrange(10)
            if u and x and rng.random() < .5:
                x = x[:-1] + bytes([x[-1] >> u << u & 255])
            out.append(bytes([u]) + x if rng.random() > .01 else b'')
    return out


class Trees(Bounded):
    name = 'chunk trees'
    rule = 'every string class; 0-6 chunks per level, up to 10 levels, chunk sizes 0-300, tagged and untagged, alone and in ' \
           'structures; distinct by class and tree'
    seconds = 25

    def cases(self, rng, tier):
        names = sorted(ALL)
        for n in names:
            bits = ALL[n].tag == 3
            z = [b'\x00'] if bits else [b'']
            yield n, []
            yield n, z
            yield n, [z]
            yield n, [[]]
            yield n, [[], []]
            yield n, z * 3
            t = [b'\x00A', b'\x00B'] if bits else [b'A', b'B']
            yield n, t
            yield n, t * 2
            yield n, [t, t]
            yield n, [t, t[0], t]
            for d in range(1, 13):
                t = [t] if d % 2 else [t, z[0]]
                yield n, t
        while True:
            for n in names:
                cls = ALL[n]
                if n in TYPES:
                    b = TYPES[n][2](rtext(rng)) or b''
                elif n == 'IPAddress':
                    b = gen.rbytes(rng, rng.choice([4, 16]))
                elif n in ('URI', 'EmailAddress', 'DNSName'):
                    b = rng.choice([b'http://example.com/a', b'a@example.com', b'example.com', b'', b'xn--bcher-kva.example'])
                elif n == 'PublicKeyBits':
                    b = b'\x04' + gen.rbytes(rng, rng.choice([2, 4, 64]))
                elif n.startswith('Parsable') and rng.random() < .5:
                    b = core.Integer(gen.rint(rng)).dump()
                else:
                    b = gen.rbytes(rng, rng.choice([rng.randrange(12), rng.randrange(300)]))
                t = pieces(rng, b, rng.choice([1, 2, 2, 3, 6]), rng.choice([0, 0, 1, 2, 4]))
                if cls.tag == 3:
                    t = bit_tree(rng, t, rng.choice([0, 0, rng.randrange(8)]))
                yield n, t

    def oracle(self, case):
        return chk_tree(*case)


UNITS = [MergeLoop(n, 'list' if n in ('BitString', 'OctetBitString', 'IntegerBitString') else 'bytes')
         for n in ('OctetString', 'UTF8String', 'IntegerOctetString', 'ParsableOctetString', 'BitString', 'OctetBitString',
                   'IntegerBitString')] + \
    [Few(n, k) for n in ('OctetString', 'IntegerOctetString', 'ParsableOctetString', 'OctetBitString', 'IntegerBitString',
                         'BitString', 'ParsableOctetBitString', 'UTF8String', 'BMPString') for k in (0, 1, 2, 3)
     if k < 2 or n != 'BitString'] + [Few('BitString', 2, thorough=True)] + \
    [Few(n, 2, True) for n in ('OctetString', 'OctetBitString', 'IntegerBitString', 'UTF8String')] + \
    [LaterPadding(n) for n in ('BitString', 'OctetBitString', 'IntegerBitString', 'ParsableOctetBitString')]
BOUNDED = [Trees]
