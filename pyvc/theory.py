"""Spec functions used by several contract files, with their (stated) lemmas."""
import z3
from .values import *  # noqa
from .values import simp, addz
from .solver import V128, ARR, bound


def v128_view(ctx, arr, off, n):
    """base-128 value of the low seven bits of n bytes; V(0)=0, V(n)=128*V(n-1)+arr[off+n-1]%128"""
    n, off = simp(n), simp(off)
    if isinstance(n, int) and n <= 8:
        t = 0
        for i in range(n):
            t = t * 128 + ctx.byte(arr, addz(off, i)) % 128
        return simp(t)
    t = V128(arr, bound(off), bound(n))
    p = V128(arr, bound(off), bound(simp(n - 1)))
    last = ctx.byte(arr, addz(off, simp(n - 1)))
    ctx.fact(z3.Implies(n <= 0, t == 0))
    ctx.fact(z3.Implies(n == 1, p == 0))
    ctx.fact(z3.Implies(n >= 1, t == p * 128 + last % 128))
    ctx.fact(t >= 0)
    ctx.fact(p >= 0)
    return t


def p128(ctx, n):
    n = simp(n)
    return 128 ** n if isinstance(n, int) else ctx.p2(simp(7 * n))


def v128(ctx, v):
    """value of a rope: V(x ++ y) = V(x) * 128**len(y) + V(y)   (lemma by induction on y)"""
    t = 0
    for a in atoms_of(v):
        if isinstance(a, Lit):
            x = 0
            for b in a.b:
                x = x * 128 + b % 128
        elif isinstance(a, Byt):
            x = a.z % 128
        elif isinstance(a, View):
            x = v128_view(ctx, a.arr, a.off, a.len)
        else:
            raise Unsupported('v128')
        n = a.n()
        t = x if isinstance(t, int) and t == 0 else simp(bound(t) * p128(ctx, n) + x)
    return t


def rope_sel(v, k):
    """byte at (quantified or ground) index k as a z3 term without forking; -1 outside"""
    t = z3.IntVal(-1)
    start = 0
    pos = []
    for a in atoms_of(v):
        pos.append((start, a))
        start = addz(start, a.n())
    for s, a in reversed(pos):
        kk = simp(bound(k) - bound(s))
        if isinstance(a, Lit):
            x = z3.IntVal(a.b[-1])
            for j in range(len(a.b) - 2, -1, -1):
                x = z3.If(bound(kk) == j, z3.IntVal(a.b[j]), x)
        elif isinstance(a, View):
            x = z3.Select(a.arr, simp(bound(a.off) + bound(kk)) if not isinstance(kk, int) else bound(addz(a.off, kk)))
        else:
            x = bound(a.z)
        t = z3.If(z3.And(bound(k) >= bound(s), bound(k) < bound(addz(s, a.n()))), x, t)
    return t


def all_high(v, upto):
    """every byte at index < upto has its high bit set"""
    k = z3.Int('k!high')
    parts = []
    start = 0
    for a in atoms_of(v):
        n = a.n()
        if isinstance(a, Lit):
            for j, b in enumerate(a.b):
                if b < 128:
                    parts.append(z3.Not(bound(addz(start, j)) < bound(upto)))
        elif isinstance(a, View):
            i = z3.Int('i!high')
            # i ranges over array positions, so that arr[i] is a usable trigger
            parts.append(z3.ForAll([i], z3.Implies(
                z3.And(i >= bound(a.off), i < bound(addz(a.off, n)), i - bound(a.off) + bound(start) < bound(upto)),
                z3.Select(a.arr, i) >= 128), patterns=[z3.Select(a.arr, i)]))
        else:
            parts.append(z3.Implies(bound(start) < bound(upto), bound(a.z) >= 128))
        start = addz(start, n)
    return z3.And(*parts) if parts else z3.BoolVal(True)


def min_len(v):
    """number of octets of the minimal unsigned encoding, as a concrete case split is avoided: relation"""
    raise NotImplementedError
