"""Histories of reads, writes, copies and encodings over symbolic contents, through the real core code.

The declaration and the number of steps are fixed; each step is any of the operations that applies (every field, element, nesting
level), contents are of any size, and whatever the history the encodings and the fields must be those of a plain value to which the
same writes were applied.  The contracts of _parse (C02) and _dump_header (C01) stand for the codec."""
from .common import *  # noqa
from .symstruct import *  # noqa
from oracle import schema, ops
from oracle.ops import NONE, sub, put, setfield, places

WRITES, READS = 'write', 'read'


class History(Unit):
    targets = ('asn1crypto.core.Sequence.__setitem__', 'asn1crypto.core.Sequence.__getitem__', 'asn1crypto.core.Sequence.__delitem__',
               'asn1crypto.core.Sequence.dump', 'asn1crypto.core.Sequence._is_mutated', 'asn1crypto.core.Sequence._copy',
               'asn1crypto.core.Sequence._set_contents', 'asn1crypto.core.SequenceOf._set_contents',
               'asn1crypto.core._children_changed', 'asn1crypto.core._encoded_contents')
    unroll = 60
    time_s = 400
    max_paths = 20000
    covers = ('done',)
    assumptions = ('contracts of parser._dump_header (C01) and parser._parse (C02)',)

    def __init__(self, name, S, script, start=('build', 'der'), thorough=False, count=(0, 2), split=False):
        self.name = '%s: %s' % (name, ', then '.join(script) or 'nothing')
        self.S, self.script, self.start, self.count, self.split = S, script, start, count, split
        self.thorough_only = thorough
        self.bounded_note = 'the declaration and the number of steps are fixed; octets are unbounded'

    def steps(self, kind, S, m, k):
        """the operations of a kind that apply"""
        for path, T, x in places(S, m):
            if kind == READS:
                yield 'native', path, None
                if not path or T[0] in schema.CONSTR:
                    yield 'dump', path, None
                if not path:
                    yield 'force', path, None
                    yield 'walk', path, None
                elif T[0] in schema.CONSTR:
                    yield 'len', path, None
            elif kind == WRITES:
                if T[0] in ('seq', 'set'):
                    for n, f, q in T[2]:
                        yield 'set', path, (n, f)
                        if f[0] != 'octets':
                            yield 'setobj', path, (n, f)
                        if q is not None:
                            yield 'del', path, n
                            if q == 'optional':
                                yield 'none', path, n
                elif T[0] in ('seqof', 'setof'):
                    yield 'append', path, T[2]
                    for i in range(len(x)):
                        yield 'item', path, (i, T[2])
                        yield 'delitem', path, i
                elif T[0] == 'octets' and path:
                    yield 'prim', path, T
            elif kind == 'copy' and not path:
                yield 'copy', path, None
                yield 'deepcopy', path, None

    def run(self, it):
        c = it.ctx
        S = self.S
        w = Wire(it, split=self.split)
        v = svalue(c, S, count=self.count)
        start = self.start[c.choose(len(self.start))]
        c.input('start', start)
        if start == 'build':
            o = sbuild(it, S, v)
        else:
            e = w.known_tree(S, v)
            v = schema.canon(S, v)
            o = it.call(schema.cls_of(S).load, [e], schema.params_of(S))
        objs, models = [o], [v]
        log = []
        for k, kind in enumerate(self.script):
            slot = c.choose(len(objs))
            m = models[slot]
            choices = list(self.steps(kind, S, m, k))
            op, path, arg = choices[c.choose(len(choices))]
            U, x = sub(S, m, path)
            if op in ('set', 'setobj'):
                arg = (arg[0], svalue(c, arg[1], 'x%d' % k, self.count))
            elif op == 'append':
                arg = svalue(c, arg, 'x%d' % k, self.count)
            elif op == 'item':
                arg = (arg[0], svalue(c, arg[1], 'x%d' % k, self.count))
            elif op == 'prim':
                arg = svalue(c, arg, 'x%d' % k, self.count)
            log.append((op, slot, path, arg))
            c.input('steps', tuple(log))
            try:
                self.apply(it, S, objs, models, op, slot, path, arg, U, x)
            except PyRaise as e:
                c.prove('step %d succeeds' % k, False)
                return
        c.cover('done')
        for j, (o, m) in enumerate(zip(objs, models)):
            what = 'object %d: ' % j if len(objs) > 1 else ''
            self.fits(it, w, S, o, m, what)

    def fits(self, it, w, S, o, m, what):
        c = it.ctx
        k, d = meth(it, o, 'dump')
        c.prove(what + 'the encoding is that of its value', k == 'ret' and is_bytes(d) and beq(it, d, senc(w, S, m)))
        agree(it, S, Fields(it).walk(S, o), m, '', what + 'reads as the value')

    def apply(self, it, S, objs, models, op, slot, path, arg, U, x):
        c = it.ctx
        o, m = objs[slot], models[slot]
        M = it.models

        def call(obj, name, *a, **k):
            return it.call(it.getattr(obj, name), list(a), k)
        if op in ('copy', 'deepcopy'):
            n = call(o, 'copy') if op == 'copy' else it.call(it.getattr(o, '__deepcopy__'), [{}], {})
            c.prove('a copy is another object of the same class', n is not o and type(n) is type(o))
            objs.append(n)
            models.append(m)
            return
        t, T = o, S
        for p in path:
            if T[0] == 'choice':
                T, t = dict(T[2])[p], it.getattr(t, 'chosen')
            elif T[0] in ('seq', 'set'):
                T, t = dict((n, f) for n, f, _ in T[2])[p], it.getitem(t, p)
            else:
                T, t = T[2], it.getitem(t, p)
        if op == 'native':
            it.getattr(t, 'native')
        elif op == 'dump':
            call(t, 'dump')
        elif op == 'force':
            call(t, 'dump', True)
        elif op == 'walk':
            agree(it, U, Fields(it).walk(U, t), x, '', 'in between, reads as the value')
        elif op == 'len':
            call(t, '__len__')
        elif op in ('set', 'setobj', 'del', 'none'):
            name = arg if op in ('del', 'none') else arg[0]
            f = dict((n, f) for n, f, q in U[2])[name]
            if op == 'del':
                M.delitem(it, t, name)
            elif op == 'none':
                M.setitem(it, t, name, None)
            elif op == 'set':
                M.setitem(it, t, name, snative(it, f, arg[1]))
            else:
                M.setitem(it, t, name, sbuild(it, f, arg[1]))
            new = NONE if op in ('del', 'none') else arg[1]
            models[slot] = put(S, m, path, lambda y: setfield(schema.canon(U, y), U, name, new))
            if new is not NONE:
                agree(it, f, Fields(it).walk(f, it.getitem(t, name)), new, '', 'a field reads as assigned')
        elif op == 'append':
            call(t, 'append', snative(it, U[2], arg))
            models[slot] = put(S, m, path, lambda y: y + (arg,))
        elif op == 'item':
            i, val = arg
            M.setitem(it, t, i, snative(it, U[2], val))
            models[slot] = put(S, m, path, lambda y: y[:i] + (val,) + y[i + 1:])
        elif op == 'delitem':
            M.delitem(it, t, arg)
            models[slot] = put(S, m, path, lambda y: y[:arg] + y[arg + 1:])
        elif op == 'prim':
            call(t, 'set', arg)
            models[slot] = put(S, m, path, lambda y: arg)

    def oracle(self, i):
        return ops.run((self.S, rvalue(i, self.S), i['start'], i.get('steps', ()), 0))
