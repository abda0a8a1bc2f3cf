"""Random interpretation of value terms.

Two value terms that do not share a normal form may still denote the same
value (the normal form is not complete).  Before a check reports that two
values differ, both terms are interpreted under random assignments to their
free atoms, uninterpreted operations being random functions of their
(interpreted) arguments; only a pair that some assignment tells apart counts
as different.  Nothing of the program is run: the input is the pair of terms
the value-flow analysis computed.
"""
import hashlib
import time
from fractions import Fraction
import terms
from terms import T, TRUE, FALSE, NULL


M64 = (1 << 64) - 1


class Stuck(Exception):
    pass


class U:
    """an uninterpreted value, known by its key"""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


class Fn:
    __slots__ = ('f', 'memo')

    def __init__(self, f):
        self.f = f
        self.memo = {}

    def at(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self.f(i)
        return r


class Vec:
    __slots__ = ('n', 'a')

    def __init__(self, n, a):
        self.n = n
        self.a = a


class Rec:
    __slots__ = ('d', 'base')

    def __init__(self, d, base=None):
        self.d = d
        self.base = base


class MapV:
    __slots__ = ('base', 'ups')

    def __init__(self, base, ups=()):
        self.base = base
        self.ups = ups


def H(*xs):
    return hashlib.blake2b(repr(xs).encode(), digest_size=12).hexdigest()


class Interp:
    def __init__(self, seed, fixed=None, small=4, budget=400000, wide=0, mach=False, consts=(), numeric=frozenset()):
        self.numeric = numeric
        self.seed = seed
        self.consts = consts
        self.wide = wide
        self.mach = mach
        self.fixed = fixed or {}
        self.memo = {}
        self.budget = budget
        self.small = small

    # ------------------------------------------------------------ coercions
    def key(self, v, d=0):
        if isinstance(v, bool):
            return 'i%d' % int(v)
        if isinstance(v, int):
            return 'i%d' % v
        if isinstance(v, Fraction):
            return 'i%d' % v if v.denominator == 1 else 'q%s' % v
        if isinstance(v, U):
            return v.k
        if isinstance(v, bytes):
            return 's' + v.hex()
        if isinstance(v, str):
            return 'k' + v
        if isinstance(v, Vec):
            n = self.num(v.n)
            return 'v' + H(n, [self.key(self.idx(v.a, i), d + 1) for i in range(max(0, min(n, 12)))])
        if isinstance(v, Fn):
            if d > 3:
                return 'f'
            return 'f' + H([self.key(self.idx(v, i), d + 1) for i in range(5)])
        if isinstance(v, Rec):
            return 'r' + H(self.key(v.base, d) if v.base is not None else None, sorted((f, self.key(x, d + 1)) for f, x in v.d.items()))
        if isinstance(v, MapV):
            return 'm' + H(self.key(v.base), [(self.key(a), b, self.key(c)) for a, b, c in v.ups])
        if isinstance(v, tuple):
            return 't' + H([self.key(x, d) for x in v])
        if v is None:
            return 'none'
        raise Stuck(repr(v))

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Fraction):
            return int(v) if v.denominator == 1 else v
        if isinstance(v, U):
            h = int(hashlib.blake2b(repr((self.seed, 'num', v.k)).encode(), digest_size=8).hexdigest(), 16)
            if v.k.startswith('nn'):
                if self.consts and h // 1009 % 3 == 0:
                    # around a number the terms mention, or any machine word
                    c = self.consts[h // 3571 % len(self.consts)]
                    if c is None:
                        return h >> (h // 7919 % 64)
                    if h // 7919 % 4 == 0:
                        return h // 31 % (8 * c + 1)
                    return max(0, c + (h // 7919) % 3 - 1)
                if self.wide and h // 1000003 % 3 == 0:
                    return h // 7 % (self.wide if h // 31 % 2 else min(self.wide, 90))
                return h % (self.small + 1)
            if self.consts and h // 1009 % 2 == 0:
                c = self.consts[h // 3571 % len(self.consts)]
                if c is not None and c < 1 << 40:
                    return h // 31 % (16 * c + 1) - 8 * c
            return (h % (2 * self.small + 1)) - self.small
        if isinstance(v, (Vec, Fn, Rec, MapV, bytes, str)):
            return self.num(U(H(self.key(v))))
        raise Stuck('num %r' % (v,))

    def bool(self, v):
        if isinstance(v, (bool, int, Fraction)):
            return bool(v)
        h = hashlib.blake2b(repr((self.seed, 'bool', self.key(v))).encode(), digest_size=1).digest()[0]
        return bool(h & 1)

    def idx(self, a, i):
        if isinstance(a, Fn):
            return a.at(i)
        if isinstance(a, U):
            return U(('nn' if a.k.startswith('nn') else '') + H('rd', a.k, i))
        if isinstance(a, Vec):
            return self.idx(a.a, i)
        if isinstance(a, bytes):
            return a[i] if 0 <= i < len(a) else 0
        return U(H('rd', self.key(a), i))

    # ------------------------------------------------------------ evaluation
    def ev(self, t, env=()):
        """env: tuple of (binder number, value)"""
        if t in self.fixed:
            return self.fixed[t]
        sup = terms.support(t)
        e2 = tuple(x for x in env if terms.raw('bv', x[0]) in sup) if env else ()
        try:
            k = (t.id, tuple((n, self.key(v)) for n, v in e2))
        except Stuck:
            k = None
        if k is not None and k in self.memo:
            return self.memo[k]
        self.budget -= 1
        if self.budget < 0:
            raise Stuck('budget')
        r = self.ev1(t, e2)
        if isinstance(r, U) and t.id in self.numeric:
            r = self.num(r)
        if k is not None:
            self.memo[k] = r
        return r

    def lam(self, t, env):
        n, body = t.a
        return Fn(lambda i: self.ev(body, tuple(x for x in env if x[0] != n) + ((n, i),)))

    def ap(self, f, *xs):
        for x in xs:
            if isinstance(f, Fn):
                f = f.at(x) if isinstance(x, int) else f.f(x)
            else:
                f = self.idx(f, x)
        return f

    def args(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, T):
                out.append(self.ev(x, env))
            elif isinstance(x, tuple):
                out.append(tuple(self.args(x, env)))
            else:
                out.append(repr(x))
        return out

    def ev1(self, t, env):
        op, a = t.op, t.a
        E = lambda x: self.ev(x, env)
        N = lambda x: self.num(self.ev(x, env))
        if op == 'n':
            return a[0]
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'bv':
            for n, v in env:
                if n == a[0]:
                    return v
            raise Stuck('free binder')
        if op == 'P':
            s = 0
            for m, c in a[0]:
                p = c
                for x in m:
                    p = p * N(x)
                s = s + p
            return s
        if op == 'I':
            return E(a[1]) if self.bool(E(a[0])) else E(a[2])
        if op == 'le0':
            return N(a[0]) <= 0
        if op == 'eq0':
            return N(a[0]) == 0
        if op == 'eq':
            return self.equal(E(a[0]), E(a[1]))
        if op == 'div':
            d = N(a[1])
            if d == 0:
                return self.unint(t, env)
            n = N(a[0])
            if self.mach:
                return (n & M64) // (d & M64) if d & M64 else self.unint(t, env)
            q = abs(n) // abs(d)
            return q if (n < 0) == (d < 0) else -q
        if op == 'mod':
            d = N(a[1])
            if d == 0:
                return self.unint(t, env)
            n = N(a[0])
            if self.mach:
                return (n & M64) % (d & M64) if d & M64 else self.unint(t, env)
            r = abs(n) % abs(d)
            return r if n >= 0 else -r
        if op in ('xor', 'bor', 'band', 'shl', 'shr'):
            xs = [N(x) & M64 if self.mach else N(x) for x in a]
            r = xs[0]
            for x in xs[1:]:
                if op in ('shl', 'shr') and not 0 <= x < 4096:
                    return self.unint(t, env)
                r = r ^ x if op == 'xor' else r | x if op == 'bor' else r & x if op == 'band' else r << x if op == 'shl' else r >> x
            return r
        if op in ('byteof', 'ch'):
            v = E(a[0])
            if op == 'byteof' and isinstance(v, int):
                i = N(a[1])
                return v >> 8 * i & 255 if 0 <= i < 512 else 0
            if op == 'ch' and isinstance(v, bytes):
                i = N(a[1])
                return v[i] if 0 <= i < len(v) else 0
            if op == 'ch' and self.vlen(v) == N(a[1]):
                return 0
            return int(H(self.seed, 'byte', self.key(v), N(a[1]))[:8], 16) % 256
        if op == 'trunc':
            w = a[0].a[0] if isinstance(a[0], T) and a[0].op == 'n' else None
            if w:
                return N(a[1]) % (1 << w)
        if op == 'lam':
            return self.lam(t, env)
        if op == 'rd':
            return self.idx(E(a[0]), N(a[1]))
        if op == 'st':
            b, i, v = E(a[0]), N(a[1]), a[2]
            return Fn(lambda j: self.ev(v, env) if j == i else self.idx(b, j))
        if op == 'acon':
            return Fn(lambda j: self.ev(a[0], env))
        if op == 'vec':
            return Vec(N(a[0]), E(a[1]))
        if op == 'len':
            v = E(a[0])
            if isinstance(v, Vec):
                return self.num(v.n)
            if isinstance(v, bytes):
                return len(v)
            return U('nn' + H('len', self.key(v)))
        if op == 'elems':
            v = E(a[0])
            if isinstance(v, Vec):
                return v.a
            return U(H('elems', self.key(v)))
        if op == 'rec':
            return Rec({f: E(x) for f, x in a[0]})
        if op == 'fld':
            v = E(a[0])
            f = a[1]
            while isinstance(v, Rec):
                if f in v.d:
                    return v.d[f]
                if v.base is None:
                    return U(H('uninit'))
                v = v.base
            return U(H('fld', self.key(v), str(f)))
        if op == 'setfld':
            return Rec({a[1]: E(a[2])}, E(a[0]))
        if op == 'sconst':
            return a[0]
        if op == 'first':
            n = a[0]
            cap = 64 if n.op == 'inf' else N(n)
            f = E(a[1])
            for i in range(max(0, min(cap, 64))):
                if self.bool(self.ap(f, i)):
                    return i
            if n.op == 'inf' or cap > 64:
                # beyond what is looked at: some number that depends on the predicate only
                return U('nn' + H('first', self.key(f), N(n) if n.op != 'inf' else None))
            return cap
        if op == 'inv':
            y = N(a[0])
            return Fraction(1, 1) / y if y else U(H('inv0'))
        if op == 'sum':
            n = N(a[0])
            f = E(a[1])
            return sum(self.num(self.ap(f, i)) for i in range(max(0, n)))
        if op == 'lastset':
            n = N(a[0])
            w, v = E(a[1]), E(a[2])
            for i in range(max(0, n) - 1, -1, -1):
                if self.bool(self.ap(w, i)):
                    return self.ap(v, i)
            return E(a[3])
        if op == 'filt':
            v0 = E(a[0])
            n = N(a[1])
            G, V = E(a[2]), E(a[3])
            l0 = self.vlen(v0)
            out = [self.idx(v0, i) for i in range(max(0, l0))]
            for i in range(max(0, n)):
                if self.bool(self.ap(G, i)):
                    out.append(self.ap(V, i))
            return Vec(len(out), Fn(lambda j: out[j] if 0 <= j < len(out) else U('oob')))
        if op == 'fold':
            n = N(a[2])
            x = E(a[1])
            f = a[0]
            for i in range(max(0, n)):
                x = self.apl(f, [x, i], env)
            return x
        if op == 'foldn':
            i0, bodies, inits, n = a
            xs = [E(x) for x in inits]
            for i in range(max(0, N(n))):
                xs = [self.apl(b, list(reversed(xs)) + [i], env) for b in bodies]
            return xs[i0.a[0]]
        if op == 'mput':
            m = E(a[0])
            if not isinstance(m, MapV):
                m = MapV(m)
            return MapV(m.base, m.ups + ((E(a[1]), True, E(a[2])),))
        if op == 'mdel':
            m = E(a[0])
            if not isinstance(m, MapV):
                m = MapV(m)
            return MapV(m.base, m.ups + ((E(a[1]), False, None),))
        if op in ('mget', 'mhas'):
            m = E(a[0])
            k = E(a[1])
            base = m
            if isinstance(m, MapV):
                for k2, present, v in reversed(m.ups):
                    if self.equal(k2, k):
                        if op == 'mhas':
                            return present
                        return v if present else 'null'
                base = m.base
            return U(H(op, self.key(base), self.key(k)))
        if op == 'modp':
            # a homomorphism: values of the field are taken as numbers
            return E(a[0])
        if op == 'rep':
            v = E(a[0])
            if isinstance(v, int) and v in (0, 1):
                return v
            return U('nn' + H('rep', self.num(v)))
        if op == 'null':
            return 'null'
        if op == 'isnull':
            v = E(a[0])
            if v == 'null':
                return True
            return U(H('isnull', self.key(v)))
        return self.unint(t, env)

    def apl(self, f, xs, env):
        """nested lambdas applied to values"""
        e = env
        for x in xs:
            n, body = f.a
            e = tuple(y for y in e if y[0] != n) + ((n, x),)
            f = body
        return self.ev(f, e)

    def vlen(self, v):
        if isinstance(v, Vec):
            return self.num(v.n)
        if isinstance(v, bytes):
            return len(v)
        return self.num(U('nn' + H('len', self.key(v))))

    def unint(self, t, env):
        if t.op in ('sym', 'cell', 'region'):
            k = H(t.op, repr(t.a))
            return U(('nn' if terms.nonneg_atom(t) else '') + H(t.op, t.id))
        xs = self.args(t.a, env)
        k = H(t.op, [self.key(x) for x in xs])
        return U(('nn' if terms.nonneg_atom(t) else '') + k)

    def equal(self, x, y):
        if isinstance(x, (int, bool, Fraction)) or isinstance(y, (int, bool, Fraction)):
            return self.num(x) == self.num(y)
        return self.key(x) == self.key(y)


def numbers(ts):
    """atoms the terms calculate with: they are numbers wherever they occur"""
    out, seen, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'P':
            out.update(x.id for m, c in t.a[0] for x in m)
        elif t.op in ('eq0', 'le0'):
            out.add(t.a[0].id)
        elif t.op == 'rd':
            out.add(t.a[1].id)
        st += terms.subterms1(t)
    return frozenset(out)


def breadth(ts):
    """numbers large enough to wrap a counter of a narrow type the terms mention, and the numbers they mention"""
    w, seen, st, cs = 0, set(), list(ts), set()
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'trunc' and t.a[0].op == 'n' and t.a[0].a[0] < 32:
            w = max(w, t.a[0].a[0])
        if t.op == 'n' and t.a[0] > 6:
            cs.add(t.a[0])
        if t.op == 'P':
            for m, c in t.a[0]:
                if not m and abs(c) > 6:
                    cs.add(abs(c))
        st += terms.subterms1(t)
    return (3 << (w - 1) if w else 90), tuple(sorted(c for c in cs if c < 1 << 64)[:40])


def differ(a, b, assume=TRUE, trials=60, fixed=None, mach=False):
    """a trial that tells a and b apart while `assume` holds, or None"""
    big, cs = breadth((a, b))
    nums = numbers((a, b, assume))
    cs = cs + (None,)
    met, other = 0, None
    t0 = time.monotonic()
    for s in range(trials * 16):
        if s > trials * 4 and time.monotonic() - t0 > 20:
            break
        terms.intime()
        I = Interp(s, fixed, small=(2, 3, 4, 6, 9)[s % 5], budget=60000, wide=(0, 0, 90, 0, 0, big)[s % 6], mach=mach, consts=cs if s % 4 == 3 else (), numeric=nums)
        try:
            ok = assume is TRUE or I.bool(I.ev(assume))
            if not ok and other is not None:
                continue
            x, y = I.ev(a), I.ev(b)
            d = not I.equal(x, y)
            if ok and d:
                return s
            if ok:
                met += 1
            elif d:
                other = s
        except (Stuck, RecursionError, ZeroDivisionError, MemoryError, OverflowError):
            continue
    # a condition that hardly any trial meets does not excuse a difference
    return other if met < 8 else None


def satisfiable(c, trials=400):
    nums = numbers((c,))
    for s in range(trials):
        I = Interp(s, small=(2, 3, 4, 6)[s % 4], budget=40000, wide=90 if s % 3 == 2 else 0, numeric=nums)
        try:
            if I.bool(I.ev(c)):
                return s
        except (Stuck, RecursionError):
            continue
    return None
