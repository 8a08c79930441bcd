"""C02: decoding slices any byte string at exact TLV boundaries or raises ValueError.
The contract of parser._parse is a two-sided specification over every byte string, start and depth;
C03 uses the indefinite-length half of the same contract."""
from .common import *  # noqa
from .c01 import dec_templates, chk_parse, ParseTruncated
from oracle import x690

I_, B_ = z3.IntSort(), z3.BoolSort()
OKF = z3.Function('OK', I_, I_, B_)        # a complete value starts at p, nesting depth d
ENDF = z3.Function('END', I_, I_, I_)      # and ends here
CHOK = z3.Function('CHOK', I_, I_, B_)     # a run of complete values then end-of-contents starts at q
CHEND = z3.Function('CHEND', I_, I_, I_)
TE = z3.Function('TE', I_, I_)             # first octet without continuation bit, or the end of data
LIMIT = 10


def sel(a, i):
    return z3.Select(a, bound(simp(i)))


class ParseCtx(object):
    """spec functions over one byte string"""

    def __init__(self, c, data):
        self.c = c
        self.data = data
        a = data.atoms[0]
        assert isinstance(a, View) and a.off == 0
        self.arr, self.n = a.arr, bound(a.len)

    def byte(self, i):
        return self.c.byte(self.arr, simp(i))

    def zeros(self, q):
        self.byte(q), self.byte(q + 1)
        return z3.And(q + 2 <= self.n, sel(self.arr, q) == 0, sel(self.arr, q + 1) == 0)

    def unfold_children(self, q, d):
        f = self.c.fact
        z = self.zeros(q)
        e = ENDF(q, d)
        f(z3.Implies(z, z3.And(CHOK(q, d), CHEND(q, d) == q + 2)))
        f(z3.Implies(z3.And(z3.Not(z), z3.Not(OKF(q, d))), z3.Not(CHOK(q, d))))
        f(z3.Implies(z3.And(z3.Not(z), OKF(q, d)), z3.And(CHOK(q, d) == CHOK(e, d), CHEND(q, d) == CHEND(e, d))))
        f(z3.Implies(OKF(q, d), z3.And(e >= q + 2, e <= self.n)))

    def tag_end(self, p):
        """TE(p): definition"""
        t = TE(p)
        i = z3.Int('i!te')
        self.c.fact(z3.And(t >= p, z3.Implies(p <= self.n, t <= self.n)))
        self.c.fact(z3.ForAll([i], z3.Implies(z3.And(i >= p, i < t), z3.Select(self.arr, i) >= 128),
                              patterns=[z3.Select(self.arr, i)]))
        self.c.fact(z3.Implies(t < self.n, self.byte(t) < 128))
        return t


def children_templates(env):
    it = env.it
    px = getattr(it, 'parse_ctx', None)
    out, var = [], []
    if px is None:
        return out, var
    d = simp(px.depth + 1)
    for q in env.ints:
        def same(e, q=q):
            px.unfold_children(e.c(q), d)
            px.unfold_children(e.e(q), d)
            return z3.And(CHOK(e.c(q), d) == CHOK(e.e(q), d), CHEND(e.c(q), d) == CHEND(e.e(q), d))
        out.append(('%s on the orbit of values' % q, same))
        out.append(('%s within the data' % q, lambda e, q=q: z3.And(e.c(q) >= e.e(q), e.c(q) <= px.n)))
        var.append(('bytes left after %s' % q, lambda e, q=q: px.n - e.c(q)))
    return out, var


def parse_contract(it, f, args, kwargs):
    """the contract of parser._parse, used for the recursive call"""
    if not calls_self(it, f) or getattr(it, 'parse_ctx', None) is None:
        return MISSING
    b = names_bound(f, args, kwargs)
    if b is None:
        return MISSING
    c, px = it.ctx, it.parse_ctx
    ed, dl, ptr, lo, dep = b['encoded_data'], b['data_len'], b['pointer'], b['lengths_only'], b['depth']
    c.prove('nested call: same byte string', beq(it, ed, px.data))
    c.prove('nested call: same length', Z(dl) == px.n)
    c.prove('nested call: starts inside the data', z3.And(Z(ptr) >= 0, Z(ptr) <= px.n))
    c.prove('nested call: one level deeper', Z(dep) == px.depth + 1)
    p, d = Z(ptr), simp(px.depth + 1)
    if not c.branch(OKF(p, d)):
        raise PyRaise(ValueError('nested value refused'))
    e = ENDF(p, d)
    c.fact(z3.And(e >= p + 2, e <= px.n))
    if it.truth(lo):
        h = c.fresh_int('hdr_end')
        c.fact(z3.And(h.z > p, h.z <= e))
        return (h, mkint(e))
    raise Unsupported('nested call for parts')


class ParseSpec(Unit):
    """_parse(data, len(data), pointer, lengths_only, depth) against its two-sided specification"""
    targets = ('asn1crypto.parser._parse',)
    contracts = {'asn1crypto.parser._parse': parse_contract}
    loop_templates = (dec_templates, children_templates)
    termination = True
    cost = 6
    prove_timeout_ms = 30000

    def __init__(self, form):
        self.form = form
        self.name = 'parser._parse: %s' % form
        self.covers = {'indefinite': ('accepted', 'refused'), 'definite short': ('accepted', 'refused'),
                       'definite long': ('accepted', 'refused'), 'no header': ('refused',)}[form]

    def run(self, it):
        c = it.ctx
        data = c.in_bytes('data', 0)
        if not isinstance(data, SBytes):
            raise Unsupported('input')
        px = it.parse_ctx = ParseCtx(c, data)
        ptr = c.in_int('pointer', 0)
        dep = c.in_int('depth', 0)
        px.depth = dep.z
        c.assume(ptr.z <= px.n)
        lo = c.in_bool('lengths_only')
        p = ptr.z
        # specification of the header at p
        first = px.byte(p)
        cls, con, low = first / 64, (first / 32) % 2, first % 32
        t = px.tag_end(simp(p + 1))
        tagv = theory.v128_view(c, px.arr, simp(p + 1), simp(t - p))
        high = low == 31
        px.byte(p + 1)
        tag_ok = z3.Implies(high, z3.And(t < px.n, sel(px.arr, p + 1) != 128, tagv >= 31))
        l = z3.If(high, t + 1, p + 1)
        lpos = c.fresh_z('lpos')
        c.fact(lpos == l)
        b = px.byte(lpos)
        k = c.fresh_z('loct')
        c.fact(k == b - 128)
        hdr_ok = z3.And(p < px.n, tag_ok, lpos < px.n)
        form = self.form
        if form == 'no header':
            c.assume(z3.Not(hdr_ok))
            ok = z3.BoolVal(False)
            hend = end = lpos
            tr = 0
        else:
            c.assume(hdr_ok)
            if form == 'definite short':
                c.assume(b < 128)
                hend = simp(lpos + 1)
                end = simp(hend + b)
                ok = end <= px.n
                tr = 0
            elif form == 'definite long':
                c.assume(b > 128)
                L = c.u256_view(px.arr, simp(lpos + 1), k)
                hend = simp(lpos + 1 + k)
                end = simp(hend + L)
                ok = z3.And(hend <= px.n, end <= px.n)
                tr = 0
            else:
                c.assume(b == 128)
                hend = simp(lpos + 1)
                d1 = simp(dep.z + 1)
                px.unfold_children(hend, d1)
                ok = z3.And(con == 1, CHOK(hend, d1))
                end = CHEND(hend, d1)
                tr = 2
        ok = z3.And(dep.z <= LIMIT, ok)
        kind, r = outcome(it, parser._parse, data, SInt(px.n), ptr, lo, dep)
        if kind == 'exc':
            c.cover('refused')
            c.prove('refusal is ValueError', isinstance(r, ValueError))
            c.prove('a well-formed value is not refused', z3.Not(ok))
            return
        c.cover('accepted')
        c.prove('only well-formed values are accepted', ok)
        if not (isinstance(r, tuple) and len(r) == 2):
            c.prove('returns a pair', False)
        c.prove('ends exactly at the end X.690 assigns', Z(r[1]) == end)
        c.prove('consumption stays inside the data', z3.And(Z(r[1]) <= px.n, Z(r[1]) >= p + 2))
        if isinstance(r[0], tuple):
            c.prove('parts only when asked for', z3.Not(lo.z))
            i = r[0]
            if len(i) != 6:
                c.prove('six parts', False)
            c.prove('class', Z(i[0]) == cls)
            c.prove('method', Z(i[1]) == con)
            c.prove('tag', Z(i[2]) == z3.If(high, tagv, low))
            c.prove('header', beq(it, i[3], slc(it, data, p, hend)))
            c.prove('contents', beq(it, i[4], slc(it, data, hend, simp(end - tr))))
            c.prove('trailer', beq(it, i[5], b'\x00\x00' if tr else b''))
        else:
            c.prove('lengths only when asked for', lo.z)
            c.prove('header end', Z(r[0]) == hend)

    def oracle(self, i):
        if i['depth'] > 40:
            return None
        return chk_low(i['data'], i['pointer'], i['depth'], i['lengths_only'])


def chk_low(data, ptr, depth, lo):
    try:
        end = x690.value_end(data, ptr, depth)
        cls, m, tag, h, L = x690.header(data, ptr)
        tr = 0 if L is not None else 2
        want = (h, end) if lo else ((cls, m, tag, data[ptr:h], data[h:end - tr], data[end - tr:end]), end)
    except x690.Bad:
        want = None
    try:
        got = parser._parse(data, len(data), ptr, lo, depth)
    except ValueError:
        got = None
    except Exception as e:
        return '_parse(%s, pointer=%d, depth=%d) raised %r' % (data[:40].hex(), ptr, depth, e)
    if got != want:
        return '_parse(%s, pointer=%d, depth=%d) gave %r, X.690 says %r' % (data[:40].hex(), ptr, depth, got, want)


class Wrappers(Unit):
    """parse and peek over the contract of _parse"""
    name = 'parser.parse and parser.peek'
    targets = ('asn1crypto.parser.parse', 'asn1crypto.parser.peek')
    covers = ('refused', 'strict refused', 'parsed', 'peeked')

    def run(self, it):
        c = it.ctx
        data = c.in_bytes('data', 0)
        n = bound(blen(data))
        strict = c.in_bool('strict')
        ok = c.fresh_bool('ok')
        e = c.fresh_int('end', 2)
        c.fact(z3.Implies(ok.z, e.z <= n))
        info = tuple(c.fresh_int('info') for _ in range(3)) + tuple(c.fresh_bytes('part') for _ in range(3))

        def contract(it_, f, args, kwargs):
            b = names_bound(f, args, kwargs)
            c.prove('whole byte string is decoded', beq(it, b['encoded_data'], data))
            c.prove('with its length', Z(b['data_len']) == n)
            c.prove('from the start', Z(b['pointer']) == 0)
            c.prove('at depth 0', Z(b['depth']) == 0)
            c.prove('parts requested', z3.Not(Z(b['lengths_only'])))
            if not c.branch(ok.z):
                raise PyRaise(ValueError('refused'))
            return (info, e)
        it.contracts = {'asn1crypto.parser._parse': contract}
        if c.choose(2):
            k, r = outcome(it, parser.parse, data, strict)
            if k == 'exc':
                c.prove('ValueError', isinstance(r, ValueError))
                c.prove('refused only if malformed, or strict with trailing data',
                        z3.Or(z3.Not(ok.z), z3.And(strict.z, e.z != n)))
                c.cover('refused')
                if c.branch(ok.z):
                    c.cover('strict refused')
            else:
                c.cover('parsed')
                c.prove('malformed data and strict trailing data refused',
                        z3.And(ok.z, z3.Or(z3.Not(strict.z), e.z == n)))
                c.prove('the parts are returned unchanged', isinstance(r, tuple) and len(r) == 6 and all(
                    x is y for x, y in zip(r, info)))
        else:
            k, r = outcome(it, parser.peek, data)
            if k == 'exc':
                c.prove('ValueError', isinstance(r, ValueError))
                c.prove('refused only if malformed', z3.Not(ok.z))
            else:
                c.cover('peeked')
                c.prove('malformed data refused', ok.z)
                c.prove('peek reports the consumption', Z(r) == e.z)

    def oracle(self, i):
        return chk_parse(i['data'], i['strict'])


class Types(Unit):
    name = 'parser.parse/peek argument types'
    targets = ('asn1crypto.parser.parse', 'asn1crypto.parser.peek')

    def run(self, it):
        c = it.ctx
        bad = [None, 'x', 1.5, (), [], bytearray(b'\x05\x00'), c.fresh_int('n')]
        v = bad[c.choose(len(bad))]
        f = [parser.parse, parser.peek][c.choose(2)]
        k, r = outcome(it, f, v)
        c.prove('wrong type refused with TypeError', k == 'exc' and isinstance(r, TypeError))


class ParseCases(Bounded):
    name = 'parse/peek/_parse on generated byte strings'
    rule = 'random BER values, nested indefinite lengths, truncations, mutations and raw bytes; distinct by the bytes'
    seconds = 12

    def cases(self, rng, tier):
        for first in range(256):
            for l in (0, 1, 0x7f, 0x80, 0x81, 0x82, 0xff):
                yield bytes([first, l, 0, 0, 0]), 0
                yield bytes([first, l]), 0
        for b in ([0x1f, 0x80, 0x1f, 0], [0x1f, 0x1e, 0], [0x1f, 0x1f, 0], [0x1f, 0x81, 0x00, 0], [0x1f, 0x81], [0x1f],
                  [0x3f, 0xff, 0xff, 0xff, 0xff, 0x7f, 0x80, 0, 0], [0x1f, 0x81, 0x80, 0x80, 0, 0]):
            yield bytes(b), 0
        while True:
            r = rng.random()
            if r < 0.45:
                v = gen.rtlv(rng)
            elif r < 0.7:
                v = gen.nested_indef(rng, rng.choice([1, 2, 3, 9, 10, 11, 12, 15]))
            elif r < 0.8:
                v = gen.rbytes(rng, hi=14)
            else:
                v = gen.rtlv(rng, 2, 0.6) + gen.rtlv(rng, 1)
            yield v, 0
            yield gen.mutate(rng, v), 0
            if len(v) < 80:
                for i in range(len(v)):
                    yield v[:i], 0
            p = gen.rbytes(rng, hi=5)
            yield p + v + gen.rbytes(rng, hi=3), len(p)

    def oracle(self, case):
        data, ptr = case
        if len(data) > 100000:
            return None
        m = chk_low(data, ptr, 0, False) or chk_low(data, ptr, 0, True)
        if m or ptr:
            return m
        return chk_parse(data, False) or chk_parse(data, True)

    def key(self, case):
        return case


UNITS = [ParseSpec('no header'), ParseSpec('definite short'), ParseSpec('definite long'), ParseSpec('indefinite'), Wrappers, Types, ParseTruncated]
BOUNDED = [ParseCases]
