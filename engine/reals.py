"""Floating-point terms read as exact real numbers: what a formula computes, rounding aside."""
from fractions import Fraction
import loops
import terms
from terms import *


def inv(x):
    def one(z):
        if z.op == 'n' and abs(z.a[0]) == 1:
            return z
        return raw('inv', z)
    return lift('inv', one, x)


terms.BUILD['inv'] = inv
OPS = {'f+': add, 'f-': sub, 'f*': mul, 'f/': lambda x, y: mul(x, inv(y))}
CMP = {'fcmp<': lambda x, y: lt(x, y), 'fcmp>': lambda x, y: lt(y, x), 'fcmp<=': le, 'fcmp>=': lambda x, y: le(y, x), 'fcmp==': eq, 'fcmp!=': lambda x, y: NOT(eq(x, y))}


def real(t, memo=None):
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t.id)
        if r is None:
            r = memo[t.id] = go1(t)
        return r

    def go1(t):
        op = t.op
        if op in OPS:
            return OPS[op](go(t.a[0]), go(t.a[1]))
        if op in CMP:
            return CMP[op](go(t.a[0]), go(t.a[1]))
        if op == 'i2f':
            return go(t.a[0])
        if op == 'flt':
            v = float(t.a[0])
            return num(int(v)) if v == int(v) else t
        if op == 'fold':
            p, k = fresh('p'), fresh('k', True)
            body = go(beta(beta(t.a[0], p), k))
            init, n = go(t.a[1]), go(t.a[2])
            d = sub(body, p)
            if p not in support(d):
                return add(init, loops.summ(n, k, d) if k in support(d) else mul(n, d))
            f = close(p, close(k, body))
            return lift(('rfold', f.id, init.id), lambda m: raw('fold', f, init, m), n)
        if not t.a or op in ('n', 'sym', 'bv', 'region', 'sconst', 'cell', 'null'):
            return t
        return rebuild(t, go)
    return go(t)


def unreal(t):
    """floating-point operations real() could not interpret"""
    return any(x.op.startswith('f') and x.op in ('f+', 'f-', 'f*', 'f/', 'f2i', 'flt') or x.op.startswith('fcmp') for x in allsub(t).values())
