"""Random histories of reads, changes, copies and encodings of a structure, against a plain Python model of its value.

A case is (declaration, value, start, steps): start is 'build', 'der' or 'ber'; a step is (op, slot, path, argument).  Slots hold
library objects with their own model value, so that copies live on beside the original."""
import random
from . import schema, x690

NONE = ('none',)


def sub(S, v, path):
    """declaration and value at the path, or None"""
    for p in path:
        k = S[0]
        if k in ('seq', 'set'):
            f = [x for x in S[2] if x[0] == p]
            if not f:
                return None
            v = schema.canon(S, v)
            if not schema.has(v, p):
                return None
            S, v = f[0][1], schema.get(v, p)
        elif k in ('seqof', 'setof'):
            if not isinstance(p, int) or p >= len(v):
                return None
            S, v = S[2], v[p]
        elif k == 'choice':
            if p != v[0]:
                return None
            S, v = dict(S[2])[p], v[1]
        else:
            return None
    return S, v


def put(S, v, path, f):
    """the value with f applied at the path"""
    if not path:
        return f(v)
    p, rest = path[0], path[1:]
    k = S[0]
    if k in ('seq', 'set'):
        v = schema.canon(S, v)
        out, names = [], [n for n, _, _ in S[2]]
        sp = dict((n, x) for n, x, _ in S[2])
        for n in names:
            if n == p:
                x = put(sp[n], schema.get(v, n), rest, f)
                out.append((n, x))
            elif schema.has(v, n):
                out.append((n, schema.get(v, n)))
        return tuple(out)
    if k in ('seqof', 'setof'):
        return v[:p] + (put(S[2], v[p], rest, f),) + v[p + 1:]
    return v[0], put(dict(S[2])[v[0]], v[1], rest, f)


def setfield(v, S, name, x):
    d = dict(v)
    if x is NONE:
        d.pop(name, None)
    else:
        d[name] = x
    return tuple((n, d[n]) for n, _, _ in S[2] if n in d)


def places(S, v, path=()):
    """every (path, declaration, value)"""
    yield path, S, v
    k = S[0]
    if k in ('seq', 'set'):
        v = schema.canon(S, v)
        for n, f, _ in S[2]:
            if schema.has(v, n):
                for x in places(f, schema.get(v, n), path + (n,)):
                    yield x
    elif k in ('seqof', 'setof'):
        for i, e in enumerate(v):
            for x in places(S[2], e, path + (i,)):
                yield x
    elif k == 'choice':
        for x in places(dict(S[2])[v[0]], v[1], path + (v[0],)):
            yield x


READS = ['native', 'dump', 'contents', 'len', 'field', 'walk', 'repr', 'force']


def case(rng, depth=2, steps=6, kinds=None):
    g = schema.Gen(rng)
    while True:
        S = g.top(depth)
        if S[0] in ('seq', 'set', 'seqof', 'setof', 'choice') and (kinds is None or S[0] in kinds):
            break
    v = g.value(S)
    start = rng.choice(['build', 'der', 'der', 'ber'])
    models = [v]
    out = []
    for _ in range(rng.randrange(1, steps + 1)):
        slot = rng.randrange(len(models))
        m = models[slot]
        pl = list(places(S, m))
        path, T, x = rng.choice(pl)
        r = rng.random()
        if r < .4:
            out.append((rng.choice(READS), slot, path, None))
        elif r < .5 and len(models) < 3:
            out.append((rng.choice(['copy', 'deepcopy', 'untag']), slot, (), None))
            models.append(m)
        else:
            T0 = T
            if T[0] in ('seq', 'set') and T[2]:
                name, f, opt = rng.choice(T[2])
                if opt is not None and rng.random() < .4:
                    val = NONE
                    out.append((rng.choice(['del', 'none']) if opt == 'optional' else 'del', slot, path, name))
                    new = (lambda T, name: lambda y: setfield(schema.canon(T, y), T, name, NONE))(T, name)
                else:
                    val = g.value(f, 1)
                    out.append((rng.choice(['set', 'setobj', 'setidx']), slot, path, (name, val)))
                    new = (lambda T, name, val: lambda y: setfield(schema.canon(T, y), T, name, val))(T, name, val)
            elif T[0] in ('seqof', 'setof'):
                val = g.value(T[2], 1)
                c = rng.random()
                if c < .4 or not x:
                    out.append((rng.choice(['append', 'appendobj']), slot, path, val))
                    new = (lambda val: lambda y: y + (val,))(val)
                elif c < .7:
                    i = rng.randrange(len(x))
                    out.append(('item', slot, path, (i, val)))
                    new = (lambda i, val: lambda y: y[:i] + (val,) + y[i + 1:])(i, val)
                else:
                    i = rng.randrange(len(x))
                    out.append(('delitem', slot, path, i))
                    new = (lambda i: lambda y: y[:i] + y[i + 1:])(i)
            elif T[0] in ('choice', 'any', 'null'):
                continue
            else:
                val = g.value(T, 1)
                out.append(('prim', slot, path, val))
                new = (lambda val: lambda y: val)(val)
            models[slot] = put(S, m, path, new)
    return S, v, start, tuple(out), rng.getrandbits(32)


def at(S, o, path):
    for p in path:
        if S[0] == 'choice':
            S, o = dict(S[2])[p], o.chosen
        elif S[0] in ('seq', 'set'):
            S, o = dict((n, f) for n, f, _ in S[2])[p], o[p]
        else:
            S, o = S[2], o[p]
    return o


def spec_at(S, path):
    for p in path:
        if S[0] in ('seq', 'set'):
            S = dict((n, f) for n, f, _ in S[2])[p]
        elif S[0] == 'choice':
            S = dict(S[2])[p]
        else:
            S = S[2]
    return S


def fits(S, v, o):
    """None, or how the object differs from the model value"""
    e = schema.enc(S, v)
    d = o.dump()
    if d != e and not (schema.same(S, schema.dec(S, d), v) and DER_ONLY[0] is False):
        return 'the encoding is %s and not %s' % (d.hex(), e.hex())
    w = schema.walk(S, o)
    if not schema.same(S, w, v):
        return 'the fields read as %r and not %r' % (w, v)
    n, m = schema.plain(o.native), schema.native_out(S, v)
    if n != m and not has_set(S):
        return 'the native value is %r and not %r' % (n, m)
    if o.dump() != d:
        return 'reading it changed the encoding'
    b = schema.bare(S) if not S[1][2] else S
    o2 = schema.load(b, d)
    w = schema.walk(S, o2)
    if not schema.same(S, w, v):
        return 'the decoded encoding reads as %r and not %r' % (w, v)
    return None


DER_ONLY = [True]


def has_set(S):
    return "'setof'" in repr(S)


def run(c):
    S, v, start, steps, seed = c
    rng = random.Random(seed)
    if start == 'build':
        o = schema.build(S, v)
    elif start == 'der':
        o = schema.load(S, schema.enc(S, v))
    else:
        o = schema.load(S, schema.enc(S, v, schema.Ber(rng)))
    DER_ONLY[0] = start != 'ber'
    objs, models, specs = [o], [v], [S]
    # a SET OF that was decoded has its elements in the order of the encoding
    for step in steps:
        op, slot, path, arg = step
        o, m, T = objs[slot], models[slot], specs[slot]
        if has_set(S):
            # positions in a SET OF may be those of the encoding
            w = schema.walk(T, o)
            if not schema.same(T, w, m):
                return 'before step %r the fields read as %r and not %r' % (step, w, m)
            models[slot] = m = w
        got = sub(T, m, path)
        if got is None:
            continue
        U, x = got
        if op in READS:
            t = at(T, o, path)
            if op == 'native':
                t.native
            elif op == 'dump':
                t.dump()
            elif op == 'contents':
                t.contents
            elif op == 'len' and U[0] in ('seq', 'set', 'seqof', 'setof'):
                len(t)
            elif op == 'field' and U[0] in ('seq', 'set'):
                for n, _, _ in U[2][:2]:
                    t[n]
            elif op == 'walk':
                if not schema.same(U, schema.walk(U, t), x):
                    return 'step %r reads %r and not %r' % (step, schema.walk(U, t), x)
            elif op == 'repr':
                repr(t)
            elif op == 'force' and start != 'ber':
                t.dump(force=True)
            continue
        if op in ('copy', 'deepcopy', 'untag'):
            import copy
            new = o.copy() if op == 'copy' else copy.deepcopy(o) if op == 'deepcopy' else o.untag()
            if new.__class__ is not o.__class__:
                return 'a copy of another class'
            objs.append(new)
            models.append(m)
            specs.append(schema.bare(T) if op == 'untag' else T)
            continue
        t = at(T, o, path)
        if op in ('set', 'setobj', 'setidx', 'del', 'none'):
            name = arg if op in ('del', 'none') else arg[0]
            f, opt = [(f, q) for n, f, q in U[2] if n == name][0]
            if op == 'del':
                del t[name]
            elif op == 'none':
                t[name] = None
            elif op == 'set':
                t[name] = schema.native_in(f, arg[1])
            elif op == 'setidx':
                t[[n for n, _, _ in U[2]].index(name)] = schema.native_in(f, arg[1])
            else:
                t[name] = schema.build(f, arg[1])
            new = NONE if op in ('del', 'none') else arg[1]
            models[slot] = put(T, m, path, lambda y: setfield(schema.canon(U, y), U, name, new))
            if new is not NONE and not schema.same(f, schema.walk(f, t[name]), new):
                return 'field %r reads %r after assigning %r' % (name, schema.walk(f, t[name]), new)
        elif op in ('append', 'appendobj', 'item', 'delitem'):
            if op == 'append':
                t.append(schema.native_in(U[2], arg))
                new = x + (arg,)
            elif op == 'appendobj':
                t.append(schema.build(U[2], arg))
                new = x + (arg,)
            elif op == 'item':
                i, val = arg
                if i >= len(x):
                    continue
                t[i] = schema.native_in(U[2], val)
                new = x[:i] + (val,) + x[i + 1:]
            else:
                if arg >= len(x):
                    continue
                del t[arg]
                new = x[:arg] + x[arg + 1:]
            models[slot] = put(T, m, path, lambda y: new)
        elif op == 'prim':
            t.set(arg)
            models[slot] = put(T, m, path, lambda y: arg)
        for k, (o2, m2, T2) in enumerate(zip(objs, models, specs)):
            if k != slot:
                w = schema.walk(T2, o2)
                if not schema.same(T2, w, m2):
                    return 'step %r on %d changed %d to %r' % (step, slot, k, w)
    for k, (o2, m2, T2) in enumerate(zip(objs, models, specs)):
        bad = fits(T2, m2, o2)
        if bad:
            return 'object %d after the steps: %s' % (k, bad)
    return None
