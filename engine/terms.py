"""Hash-consed terms of the value-flow analysis.

* numeric values: polynomials over atoms (one ring normal form for machine
  integers, NTL::ZZ and NTL::ZZ_p; conv() is the homomorphism `modp`)
* conditions and conditional values: ordered decision diagrams over atomic
  conditions (gated values, canonical under boolean rewriting)
* arrays: functions of the index (lambda), functional stores
"""
import itertools, sys, time
from fractions import Fraction
sys.setrecursionlimit(20000)


class T:
    __slots__ = ('op', 'a', 'id', 'h', 'bv', 'free', '_hash')

    def __repr__(self):
        return show(self)


_tab = {}
_ids = itertools.count(1)


def raw(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_ids)
        h = 0      # binder height
        for x in a:
            hx = _height(x)
            if hx > h:
                h = hx
        if op == 'lam':
            h = max(h, a[0])
        t.h = h
        _tab[k] = t
        if not t.id & 2047:
            intime()
    return t


class OutOfTime(BaseException):
    """the time set aside for a group of obligations is used up"""


# processor time for a group, and the clock nothing outlives
LIMIT = [None, None]


def intime():
    if LIMIT[0] is not None and (time.process_time() > LIMIT[0] or time.monotonic() > LIMIT[1]):
        LIMIT[0] = None
        raise OutOfTime()


def _height(x):
    if isinstance(x, T):
        return x.h
    if isinstance(x, tuple):
        return max((_height(y) for y in x), default=0)
    return 0


TRUE = raw('true')
FALSE = raw('false')
NULL = raw('null')
UNINIT = raw('uninit')
VOID = raw('void')

# ----------------------------------------------------------------- numbers
def num(c):
    return raw('n', int(c))


ZERO = num(0)
ONE = num(1)


def isnum(t):
    return t.op == 'n'


def _monos(t):
    """dict mono->coef, mono = tuple of atoms sorted by id (with repetition)"""
    if t.op == 'n':
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'P':
        return dict(t.a[0])
    if t is TRUE:
        return {(): 1}
    if t is FALSE:
        return {}
    return {(t,): 1}


def _frommonos(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            if isinstance(c, Fraction):
                if c.denominator == 1:
                    return num(c.numerator)
            else:
                return num(c)
        if len(m) == 1 and c == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0]))))
    return raw('P', items)


LIFTCAP = 96


def leaves(t, cap=1000):
    seen = set()
    st = [t]
    n = 0
    while st:
        x = st.pop()
        if x.op == 'I':
            if x.id in seen:
                continue
            seen.add(x.id)
            st.append(x.a[1])
            st.append(x.a[2])
        else:
            n += 1
            if n > cap:
                break
    return n


_liftmemo = {}


def lift(name, f, *args):
    """apply f to decision-diagram arguments by Shannon expansion"""
    top = None
    for x in args:
        if isinstance(x, T) and x.op == 'I':
            if top is None or x.a[0].id < top.id:
                top = x.a[0]
    if top is None:
        return f(*args)
    key = (name, args)
    r = _liftmemo.get(key)
    if r is not None:
        return r
    hi = [cof(x, top, True) if isinstance(x, T) else x for x in args]
    lo = [cof(x, top, False) if isinstance(x, T) else x for x in args]
    r = node(top, lift(name, f, *hi), lift(name, f, *lo))
    _liftmemo[key] = r
    return r


def cof(x, atom, val):
    if x.op == 'I' and x.a[0] is atom:
        return x.a[1] if val else x.a[2]
    return x


def node(atom, hi, lo):
    if hi is lo:
        return hi
    return raw('I', atom, hi, lo)


def add(a, b):
    return lift('add', _add, a, b)


def _add(a, b):
    if a.op == 'n' and b.op == 'n':
        return num(a.a[0] + b.a[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op in PTROPS or b.op in PTROPS:
        if a.op in PTROPS:
            return _padd(a, b)
        return _padd(b, a)
    d = _monos(a)
    for m, c in _monos(b).items():
        d[m] = d.get(m, 0) + c
    return _frommonos(d)


def mul(a, b):
    return lift('mul', _mul, a, b)


def _mul(a, b):
    da, db = _monos(a), _monos(b)
    if len(da) * len(db) > 400:
        return raw('mulbig', a, b)
    d = {}
    for m, c in da.items():
        for m2, c2 in db.items():
            mm = tuple(sorted(m + m2, key=lambda x: x.id))
            d[mm] = d.get(mm, 0) + c * c2
    return _frommonos(d)


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return lift('sub', _sub, a, b)


def _sub(a, b):
    if a.op in PTROPS or b.op in PTROPS:
        pa, oa = psplit(a)
        pb, ob = psplit(b)
        if pa is pb:
            return sub(oa, ob)
        if a.op in PTROPS and b.op in PTROPS:
            return raw('pdiff', a, b)
    return _add(a, _mul(num(-1), b))


def scale(c, a):
    return mul(num(c), a)


def fdiv(a, b):
    return lift('div', _div, a, b)


def _div(a, b):
    if b is ONE:
        return a
    if a.op == 'n' and b.op == 'n' and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return num(q if (a.a[0] < 0) == (b.a[0] < 0) else -q)
    if b.op == 'n' and b.a[0] > 0:
        d = _monos(a)
        c = b.a[0]
        # exact part: (c*x + r)/c = x + r/c when x, r are non-negative integers
        whole = {m: v // c for m, v in d.items() if v % c == 0}
        rest = {m: v for m, v in d.items() if v % c != 0}
        if whole and all(v > 0 for v in d.values()) and all(nonneg_mono(m) for m in d):
            w = _frommonos(whole)
            if not rest:
                return w
            return _add(w, _div(_frommonos(rest), b))
    if b.op not in ('n', 'P', 'I') and a.op == 'P':
        d = _monos(a)
        if all(b in m for m in d):
            return _frommonos({without(m, b): c for m, c in d.items()})
    elif a is b and a.op != 'n':
        return ONE
    return raw('div', a, b)


def without(m, x):
    m = list(m)
    m.remove(x)
    return tuple(m)


def fmod(a, b):
    return lift('mod', _mod, a, b)


def _mod(a, b):
    if a.op == 'n' and b.op == 'n' and b.a[0] != 0:
        r = abs(a.a[0]) % abs(b.a[0])
        return num(r if a.a[0] >= 0 else -r)
    if b is ONE:
        return ZERO
    if b.op == 'n' and b.a[0] > 0:
        d = _monos(a)
        if all(v > 0 for v in d.values()) and all(nonneg_mono(m) for m in d):
            rest = {m: v % b.a[0] for m, v in d.items()}
            r = _frommonos(rest)
            if r is not a:
                return _mod(r, b)
    if b.op not in ('n', 'P', 'I') and a.op == 'P' and all(b in m for m in _monos(a)) or a is b and a.op != 'n':
        return ZERO
    return raw('mod', a, b)


NONNEG = set()    # ops whose value is never negative
NONNEG_OPS = {'limbs', 'len', 'strlen', 'strnlen', 'NumBits', 'NumTwos', 'byteof', 'ch', 'size', 'umod', 'shr', 'numbytes', 'msize', 'sizeinbase', 'rem', 'trip', 'first'}
NONNEG_T = set()  # individual atoms


def nonneg_atom(x):
    if x.id in NONNEG_T or x.op in NONNEG_OPS:
        return True
    if x.op in ('div', 'mod'):
        return nonneg(x.a[0]) and nonneg(x.a[1])
    return False


def nonneg_mono(m):
    return all(nonneg_atom(x) for x in m)


def nonneg(t):
    if t.op == 'n':
        return t.a[0] >= 0
    if t.op == 'P':
        return all(c >= 0 and nonneg_mono(m) for m, c in t.a[0])
    if t.op == 'I':
        return nonneg(t.a[1]) and nonneg(t.a[2])
    if t in (TRUE, FALSE):
        return True
    return nonneg_atom(t)


def mark_nonneg(t):
    NONNEG_T.add(t.id)
    return t


# bit operations -----------------------------------------------------------
def xor(a, b):
    return lift('xor', _xor, a, b)


def _acargs(op, t):
    return list(t.a) if t.op == op else [t]


def _xor(a, b):
    c = 0
    bag = {}
    for x in _acargs('xor', a) + _acargs('xor', b):
        if x.op == 'n':
            c ^= x.a[0]
        else:
            bag[x] = bag.get(x, 0) + 1
    xs = [x for x, n in bag.items() if n % 2]
    if c:
        xs.append(num(c))
    if not xs:
        return ZERO
    if len(xs) == 1:
        return xs[0]
    return raw('xor', *sorted(xs, key=lambda t: t.id))


def bor(a, b):
    return lift('bor', lambda x, y: _acidem('bor', x, y), a, b)


def band(a, b):
    return lift('band', _band, a, b)


def _acidem(op, a, b):
    xs = set(_acargs(op, a) + _acargs(op, b))
    cs = [x for x in xs if x.op == 'n']
    xs = [x for x in xs if x.op != 'n']
    if cs:
        c = cs[0].a[0]
        for x in cs[1:]:
            c = (c | x.a[0]) if op == 'bor' else (c & x.a[0])
        if op == 'bor':
            if c:
                xs.append(num(c))
        else:
            if c == 0:
                return ZERO
            xs.append(num(c))
    if not xs:
        return ZERO
    if len(xs) == 1:
        return xs[0]
    return raw(op, *sorted(xs, key=lambda t: t.id))


def _band(a, b):
    for x, y in ((a, b), (b, a)):
        if y.op == 'n' and y.a[0] > 0 and (y.a[0] & (y.a[0] + 1)) == 0:
            return _mod(x, num(y.a[0] + 1))
    return _acidem('band', a, b)


def shl(a, b):
    return lift('shl', _shl, a, b)


def _shl(a, b):
    if b.op == 'n' and 0 <= b.a[0] < 4096:
        return _mul(a, num(1 << b.a[0]))
    if a is ZERO:
        return ZERO
    if a is not ONE:
        return mul(a, shl(ONE, b))
    return raw('shl', a, b)


def shr(a, b):
    return lift('shr', _shr, a, b)


def _shr(a, b):
    if b.op == 'n' and 0 <= b.a[0] < 4096:
        return _div(a, num(1 << b.a[0])) if b.a[0] else a
    return raw('shr', a, b)


# ----------------------------------------------------------------- booleans
def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


_itememo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c.id, a.id, b.id)
    r = _itememo.get(key)
    if r is not None:
        return r
    if c.op != 'I':
        c = raw('I', c, TRUE, FALSE)
    top = c.a[0]
    for x in (a, b):
        if x.op == 'I' and x.a[0].id < top.id:
            top = x.a[0]
    r = node(top,
             ite(cof(c, top, True), cof(a, top, True), cof(b, top, True)),
             ite(cof(c, top, False), cof(a, top, False), cof(b, top, False)))
    _itememo[key] = r
    return r


def atom(t):
    """a boolean term from an opaque boolean atom"""
    if t is TRUE or t is FALSE or t.op == 'I':
        return t
    return raw('I', t, TRUE, FALSE)


def le0(p):
    return lift('le0', _le0, p)


def _le0(p):
    if p.op == 'n':
        return TRUE if p.a[0] <= 0 else FALSE
    d = _monos(p)
    c = d.pop((), 0)
    if not d:
        return TRUE if c <= 0 else FALSE
    # normalise by the gcd of the coefficients
    g = 0
    for v in d.values():
        g = _gcd(g, abs(v))
    if g > 1:
        d = {m: v // g for m, v in d.items()}
        c = -((-c) // g)      # ceil(c/g)
    # orientation: first monomial positive, else use not
    first = min(d.items(), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0])))
    if first[1] < 0:
        # p<=0  <=>  not(p>=1) <=> not(1-p<=0)
        q = {m: -v for m, v in d.items()}
        q[()] = 1 - c
        qq = _frommonos(q)
        if _trivle(qq) is not None:
            return FALSE if _trivle(qq) else TRUE
        return NOT(atom(raw('le0', qq)))
    d[()] = c
    q = _frommonos(d)
    tv = _trivle(q)
    if tv is not None:
        return TRUE if tv else FALSE
    return atom(raw('le0', q))


def _trivle(q):
    """decide q<=0 from signs alone"""
    d = _monos(q)
    c = d.get((), 0)
    if c > 0 and all(v >= 0 and nonneg_mono(m) for m, v in d.items()):
        return False
    if c <= 0 and all(v <= 0 and nonneg_mono(m) for m, v in d.items() if m != ()):
        return True
    return None


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), ONE))


PTROPS = {'ptr', 'optr', 'padd', 'psym', 'pcast'}
NNMAPS = set()    # maps whose values are never null (checked where they are written)


def is_numeric_op(t):
    return t.op in ('n', 'P')


def eq(a, b):
    return lift('eq', _eq, a, b)


def _eq(a, b):
    if a is b:
        return TRUE
    if a is ZERO and b.op == 'strcmp' or b is ZERO and a.op == 'strcmp':
        return eq(*(b if a is ZERO else a).a)
    if a.op not in PTROPS and b.op not in PTROPS and (a.op == 'n' or b.op == 'n' or a.op == 'P' or b.op == 'P' or (a is not NULL and nonneg_atom(a)) or (b is not NULL and nonneg_atom(b))):
        if a in (NULL,) or b in (NULL,):
            # integer 0 against null
            return atom(raw('eq', *sorted((a, b), key=lambda t: t.id)))
        p = _sub(a, b)
        d = _monos(p)
        c = d.pop((), 0)
        if not d:
            return TRUE if c == 0 else FALSE
        g = 0
        for v in d.values():
            g = _gcd(g, abs(v))
        if g > 1:
            if c % g:
                return FALSE
            d = {m: v // g for m, v in d.items()}
            c //= g
        first = min(d.items(), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0])))
        if first[1] < 0:
            d = {m: -v for m, v in d.items()}
            c = -c
        if c >= 0 and all(v > 0 and nonneg_mono(m) for m, v in d.items()):
            if c > 0:
                return FALSE
            return _le0(_frommonos(d))      # no number of these is below zero
        if c < 0 and all(v < 0 and nonneg_mono(m) for m, v in d.items()):
            return FALSE
        # different enumerators of an opaque value are told apart by the reader
        d[()] = c
        return atom(raw('eq0', _frommonos(d)))
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        if b in (TRUE, FALSE):
            a, b = b, a
        return atom(b) if a is TRUE else NOT(atom(b))
    # pointers
    if a is NULL or b is NULL:
        o = b if a is NULL else a
        if o.op in ('ptr', 'optr', 'padd', 'closure', 'ment') or o is THIS:
            return FALSE if nonnull_base(o) else atom(raw('isnull', psplit(o)[0]))
        if o.op == 'func':
            return FALSE
        if o.op == 'pcast':
            return isnull(o.a[0])
        if o.op == 'mget' and o.a[0] in NNMAPS:
            return FALSE
        return atom(raw('isnull', o))
    if a.op in PTROPS or b.op in PTROPS:
        pa, oa = psplit(a)
        pb, ob = psplit(b)
        if pa is pb:
            return eq(oa, ob)
        if pa.op in ('ptr', 'optr') and pb.op in ('ptr', 'optr') and distinct_regions(pa, pb):
            return FALSE
    if a.op == 'sconst' and b.op == 'sconst':
        return FALSE
    if a.op == 'sconst' and a.a[0] == b'' or b.op == 'sconst' and b.a[0] == b'':
        return eq(vlen(b if a.op == 'sconst' else a), ZERO)
    if a.op == 'mit' and b.op == 'mend' or a.op == 'mend' and b.op == 'mit':
        i = a if a.op == 'mit' else b
        if i.a[0] is (b if i is a else a).a[0]:
            return NOT(lt(i.a[1], raw('msize', i.a[0])))
    if a.op in ('mend', 'mit') or b.op in ('mend', 'mit'):
        if a.op == 'mend':
            a, b = b, a
        if b.op == 'mend' and a.op == 'mfind' and a.a[0] is b.a[0]:
            return NOT(atom(raw('mhas', a.a[0], a.a[1])))
    if b.op == 'mend' and a.op == 'mfind' and a.a[0] is b.a[0]:
        return NOT(mhas(a.a[0], a.a[1]))
    if a.op == 'mend' and b.op == 'mfind' and a.a[0] is b.a[0]:
        return NOT(mhas(b.a[0], b.a[1]))
    if a.op == 'func' and b.op == 'func':
        return FALSE
    return atom(raw('eq', *sorted((a, b), key=lambda t: t.id)))


def isnull(p):
    return eq(p, NULL)


# ----------------------------------------------------------------- pointers
# ('ptr', region, path)      address of a memory cell (path: fields)
# ('padd', base, off)        base + off elements, off a number (non zero)
def psplit(p):
    if p.op == 'padd':
        return p.a[0], p.a[1]
    return p, ZERO


def padd(p, off):
    return lift('padd', _padd, p, off)


def _padd(p, off):
    b, o = psplit(p)
    o = add(o, off)
    if o.op == 'I':
        return lift('padd2', lambda bb, oo: _padd(bb, oo), b, o)
    if o is ZERO:
        return b
    return raw('padd', b, o)


def nonnull_base(p):
    b, _ = psplit(p)
    if b.op == 'pcast':
        return nonnull_base(b.a[0])
    return b.op in ('ptr', 'optr') or b is THIS


THIS = raw('psym', 'this')


def distinct_regions(a, b):
    ra, rb = a.a[0], b.a[0]
    if ra is rb:
        return a.a[1] != b.a[1]
    return not (ra.a[0] == 'deref' and rb.a[0] == 'deref')


# ----------------------------------------------------------------- maps
def mget(m, k):
    return lift('mget', _mget, m, k)


def _mget(m, k):
    if m.op == 'mput':
        return ite(eq(m.a[1], k), m.a[2], mget(m.a[0], k))
    if m.op == 'mdel':
        return ite(eq(m.a[1], k), NULL, mget(m.a[0], k))
    if m.op == 'mempty':
        return NULL
    return raw('mget', m, k)


def mhas(m, k):
    return lift('mhas', _mhas, m, k)


def _mhas(m, k):
    if m.op == 'mput':
        return OR(eq(m.a[1], k), mhas(m.a[0], k))
    if m.op == 'mdel':
        return AND(NOT(eq(m.a[1], k)), mhas(m.a[0], k))
    if m.op == 'mempty':
        return FALSE
    return atom(raw('mhas', m, k))


def mput(m, k, v):
    # an earlier entry under the same key is gone
    m = lift('mputbase', lambda mm, kk: mm.a[0] if mm.op == 'mput' and mm.a[1] is kk else mm, m, k)
    return raw('mput', m, k, v)


# ----------------------------------------------------------------- binders
_fresh = itertools.count(1)


def fresh(name='v', nn=False):
    t = raw('sym', '%s#%d' % (name, next(_fresh)))
    if nn:
        NONNEG_T.add(t.id)
    return t


def sym(name, nn=False):
    t = raw('sym', name)
    if nn:
        NONNEG_T.add(t.id)
    return t


def close(v, body):
    """lambda v. body"""
    n = body.h + 1
    b = raw('bv', n)
    if v.id in NONNEG_T:
        NONNEG_T.add(b.id)
    return raw('lam', n, subst(body, {v: b}))


def beta(l, arg):
    n, body = l.a
    return subst(body, {raw('bv', n): arg})


_submemo = {}


def subst(t, m):
    memo = {}
    ks = set(m)

    def go(t):
        if t in ks:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        if not t.a or t.op in ('n', 'sym', 'bv', 'sconst', 'region') and not _has(t, ks):
            memo[t] = t
            return t
        if not _has(t, ks):
            memo[t] = t
            return t
        r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


_suppmemo = {}


def support(t):
    """frozenset of leaf symbols (sym, bv) a term depends on"""
    s = _suppmemo.get(t)
    if s is not None:
        return s
    if t.op in ('sym', 'bv'):
        s = frozenset((t,))
    else:
        acc = set()

        def walk(x):
            if isinstance(x, T):
                acc.update(support(x))
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
        for x in t.a:
            walk(x)
        if t.op == 'lam':
            acc.discard(raw('bv', t.a[0]))
        s = frozenset(acc)
    _suppmemo[t] = s
    return s


def _has(t, ks):
    s = support(t)
    for k in ks:
        if k.op in ('sym', 'bv'):
            if k in s:
                return True
        else:
            # compound key: look for it structurally
            if support(k) <= s and contains(t, k):
                return True
    return False


_contmemo = {}


def contains(t, k):
    key = (t.id, k.id)
    r = _contmemo.get(key)
    if r is not None:
        return r
    if t is k:
        r = True
    else:
        r = False
        for x in subterms1(t):
            if contains(x, k):
                r = True
                break
    _contmemo[key] = r
    return r


def subterms1(t):
    out = []

    def walk(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    for x in t.a:
        walk(x)
    return out


def allsub(t, acc=None):
    if acc is None:
        acc = {}
    st = [t]
    while st:
        x = st.pop()
        if x.id in acc:
            continue
        acc[x.id] = x
        st.extend(subterms1(x))
    return acc


def mapargs(x, go):
    if isinstance(x, T):
        return go(x)
    if isinstance(x, tuple):
        return tuple(mapargs(y, go) for y in x)
    return x


BUILD = {}


def rebuild(t, go):
    op = t.op
    if op == 'P':
        r = ZERO
        for m, c in t.a[0]:
            x = num(c) if not isinstance(c, Fraction) else raw('P', (((), c),))
            for y in m:
                x = mul(x, go(y))
            r = add(r, x)
        return r
    if op == 'I':
        return ite(go_bool(t.a[0], go), go(t.a[1]), go(t.a[2]))
    if op == 'lam':
        v = fresh('o', raw('bv', t.a[0]).id in NONNEG_T)
        body = subst(t.a[1], {raw('bv', t.a[0]): v})
        return close(v, go(body))
    args = [mapargs(x, go) for x in t.a]
    f = BUILD.get(op)
    if f:
        return f(*args)
    return app(op, *args)


def go_bool(a, go):
    r = go(a)
    if r is TRUE or r is FALSE or r.op == 'I':
        return r
    return atom(r)


NOLIFT = {'lam', 'fold', 'vec', 'rec', 'region', 'ptr', 'psym', 'filt', 'lastset'}


def app(op, *args):
    """uninterpreted application, distributing over decision diagrams"""
    if op in NOLIFT:
        return raw(op, *args)
    n = 1
    for x in args:
        if isinstance(x, T) and x.op == 'I':
            n *= leaves(x, LIFTCAP + 1)
    if n == 1 or n > LIFTCAP:
        return raw(op, *args)
    return lift('app:' + op, lambda *xs: build1(op, xs), *args)


def build1(op, xs):
    f = BUILD.get(op)
    if f:
        return f(*xs)
    return raw(op, *xs)


# ----------------------------------------------------------------- arrays
# ('lam', n, body) index function; ('st', arr, idx, val); ('asym', ...) opaque
def rd(arr, idx):
    return lift('rd', _rd, arr, idx)


def eqn(a, b):
    """equality of two numbers"""
    return eq(sub(a, b), ZERO)


def _rd(arr, idx):
    if arr.op == 'lam':
        return beta(arr, idx)
    if arr.op == 'st':
        c = eqn(arr.a[1], idx)
        if c is TRUE:
            return arr.a[2]
        if c is FALSE:
            return rd(arr.a[0], idx)
        return ite(c, arr.a[2], rd(arr.a[0], idx))
    if arr.op == 'acon':
        return arr.a[0]
    if arr.op == 'uninit':
        return UNINIT
    return raw('rd', arr, idx)


def st(arr, idx, val):
    return lift('st', _st, arr, idx, val) if (arr.op == 'I' or idx.op == 'I') else _st(arr, idx, val)


def _st(arr, idx, val):
    if arr.op == 'st' and arr.a[1] is idx:
        arr = arr.a[0]
    if rd_safe(arr, idx) is val:
        return arr
    return raw('st', arr, idx, val)


def rd_safe(arr, idx):
    if arr.op in ('st', 'lam', 'I'):
        return rd(arr, idx)
    if arr.op == 'acon':
        return arr.a[0]
    if arr.op == 'uninit':
        return None
    return raw('rd', arr, idx)


def lamfun(f, name='i'):
    """array from a python function of the index"""
    v = fresh(name, True)
    return eta(close(v, f(v)))


def eta(l):
    """lam i. rd(a,i) -> a"""
    n, body = l.a
    b = raw('bv', n)
    if body.op == 'rd' and body.a[1] is b and b not in support(body.a[0]):
        return body.a[0]
    return l


def seg(arr, off, n, f):
    """arr with cells [off, off+n) given by f(i)"""
    return lamfun(lambda x: ite(AND(le(off, x), lt(x, add(off, n))), f(sub(x, off)), rd(arr, x)))


# vec = ('vec', len, arr)
def vec(n, arr):
    return raw('vec', n, arr)


def vlen(v):
    return lift('vlen', _vlen, v)


def _vlen(v):
    if v.op == 'vec':
        return v.a[0]
    if v.op == 'sconst':
        return num(len(v.a[0]))
    if v.op == 'cat':
        r = ZERO
        for x in v.a:
            r = add(r, vlen(x))
        return r
    if v.op == 'cstr':
        return strlen(v.a[0], v.a[1])
    if v.op == 'uninit':
        return ZERO
    if v.op == 'bytestr':
        return v.a[1]
    return raw('len', v)


def varr(v):
    return lift('varr', _varr, v)


def _varr(v):
    if v.op == 'vec':
        return v.a[1]
    if v.op == 'uninit':
        return UNINIT
    return raw('elems', v)


# rec = ('rec', (('f',val),...))
def rec(d):
    return raw('rec', tuple(sorted(d.items())))


def getf(v, f):
    return lift('getf:' + f, lambda x: _getf(x, f), v)


def _getf(v, f):
    if v.op == 'rec':
        for n, x in v.a[0]:
            if n == f:
                return x
        return UNINIT
    if v.op == 'uninit':
        return UNINIT
    while v.op == 'setfld':
        if v.a[1] == f:
            return v.a[2]
        v = v.a[0]
        if v.op in ('I', 'rec'):
            return getf(v, f)
    if f == '_mp_size':
        # limbs of a GMP integer, negative for a negative one
        n = raw('limbs', v)
        return ite(eq(v, ZERO), ZERO, ite(lt(ZERO, v), add(ONE, n), sub(num(-1), n)))
    return raw('fld', v, f)


def setf(v, f, x):
    return lift('setf:%s:%d' % (f, x.id), lambda y: _setf(y, f, x), v)


def unset(v, f):
    """v without an assignment of f that is about to be replaced"""
    if v.op != 'setfld':
        return v
    if v.a[1] == f:
        return unset(v.a[0], f)
    w = unset(v.a[0], f)
    return v if w is v.a[0] else raw('setfld', w, v.a[1], v.a[2])


def _setf(v, f, x):
    if v.op == 'rec':
        d = dict(v.a[0])
    elif v.op == 'uninit':
        d = {}
    else:
        return raw('setfld', unset(v, f), f, x)
    d[f] = x
    return rec(d)


# ----------------------------------------------------------------- strings
def sconst(b):
    return raw('sconst', bytes(b))


def scat(*xs):
    out = []
    for x in xs:
        if x.op == 'cat':
            out.extend(x.a)
        elif x.op == 'sconst' and not x.a[0]:
            continue
        else:
            out.append(x)
    res = []
    for x in out:
        if res and x.op == 'sconst' and res[-1].op == 'sconst':
            res[-1] = sconst(res[-1].a[0] + x.a[0])
        else:
            res.append(x)
    if not res:
        return sconst(b'')
    if len(res) == 1:
        return res[0]
    return raw('cat', *res)


def schar(s, i):
    """i-th character of the c-string of s (the terminator is 0)"""
    return lift('ch', _schar, s, i)


def _schar(s, i):
    if s.op == 'sconst' and i.op == 'n':
        b = s.a[0]
        return num(b[i.a[0]]) if 0 <= i.a[0] < len(b) else ZERO
    if s.op == 'cstr':
        pass
    if vlen(s) is i:
        return ZERO
    return raw('ch', s, i)


# strlen of the c-string at arr+off
def cstr(arr, off):
    return lift('cstr', _cstr, arr, off)


def _cstr(arr, off):
    # whole string constants / known strings copied there
    for s in strings_in(arr):
        i = fresh('ci', True)
        PROVER.push([neg(i), sub(i, vlen(s))])
        try:
            x = PROVER.simp(rd(arr, add(off, i)))
        finally:
            PROVER.pop()
        if x is schar(s, i):
            return s
    return raw('cstr', arr, off)


_strin = {}


def strings_in(arr):
    r = _strin.get(arr)
    if r is None:
        r = sorted({x.a[0] for x in allsub(arr).values() if x.op == 'ch' and not any(z.op == 'bv' for z in support(x.a[0]))}, key=lambda t: t.id)
        _strin[arr] = r
    return r


def strlen(arr, off):
    s = cstr(arr, off)
    if s.op == 'I':
        return lift('strlen', lambda z: _vlen(z), s)
    if s.op == 'cstr':
        return raw('strlen', arr, off)
    return vlen(s)


# ----------------------------------------------------------------- field
def modp(z):
    return lift('modp', _modp, z)


def _modp(z):
    if z.op in ('n', 'P'):
        d = _monos(z)
        r = ZERO
        for m, c in d.items():
            x = num(c)
            for y in m:
                x = mul(x, _modp1(y))
            r = add(r, x)
        return r
    return _modp1(z)


def _modp1(y):
    if y.op == 'rep':
        return y.a[0]
    if y.op == 'n':
        return y
    return raw('modp', y)


def rep(f):
    return lift('rep', _rep, f)


def _rep(f):
    if f.op == 'n' and f.a[0] in (0, 1):
        return f
    return raw('rep', f)


BUILD.update({
    'le0': le0, 'eq0': lambda p: eq(p, ZERO), 'eq': eq, 'isnull': isnull, 'mget': mget, 'mhas': mhas, 'mput': mput,
    'rd': rd, 'st': st, 'div': fdiv, 'mod': fmod, 'xor': lambda *xs: _fold(xor, xs), 'bor': lambda *xs: _fold(bor, xs),
    'band': lambda *xs: _fold(band, xs), 'shl': shl, 'shr': shr, 'len': vlen, 'elems': varr, 'fld': getf, 'cat': scat,
    'ch': schar, 'cstr': cstr, 'strlen': strlen, 'modp': modp, 'rep': rep, 'padd': padd, 'setfld': setf,
    'mulbig': mul,
})


def _fold(f, xs):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


# ----------------------------------------------------------------- prover
class Prover:
    """linear entailment over the monomials (Fourier-Motzkin, bounded)"""

    def __init__(self):
        self.stack = []   # lists of polynomials p meaning p <= 0
        self.lits = []    # lists of (atom, bool)
        self.keys = []    # ids of the facts in force, level by level
        self.cache = {}

    def push(self, polys, lits=()):
        polys = list(polys)
        self.stack.append(polys)
        self.lits.append(list(lits))
        top = self.keys[-1] if self.keys else frozenset()
        self.keys.append(top | {p.id for p in polys} if polys else top)

    def pop(self):
        self.stack.pop()
        self.lits.pop()
        self.keys.pop()

    def ctx(self):
        """identifies the facts in force"""
        return self.keys[-1] if self.keys else None, tuple((a.id, v) for s in self.lits for a, v in s)

    def push_cond(self, c):
        """assume the conjuncts of a condition (diagram)"""
        polys, lits = cond_facts(c)
        self.push(polys, lits)

    def facts(self):
        r = []
        for s in self.stack:
            r.extend(s)
        return r

    def known(self, at):
        for s in self.lits:
            for x, v in s:
                if x is at:
                    return v
        return None

    def prove_le0(self, q):
        """q <= 0 ?"""
        if q.op == 'I':
            return self.prove_le0(q.a[1]) and self.prove_le0(q.a[2])
        if q.op == 'n':
            return q.a[0] <= 0
        if _trivle(q):
            return True
        key = (self.keys[-1] if self.keys else frozenset(), q)
        r = self.cache.get(key)
        if r is None:
            fs = {p.id: p for s in self.stack for p in s}
            r = fm_unsat(list(fs.values()) + [sub(ONE, q)])
            self.cache[key] = r
        return r

    def prove_eq0(self, q):
        return self.prove_le0(q) and self.prove_le0(neg(q))

    def decide(self, at):
        """True/False/None for an atomic condition under the facts"""
        k = self.known(at)
        if k is not None:
            return k
        if at.op == 'le0':
            if self.prove_le0(at.a[0]):
                return True
            if self.prove_le0(sub(ONE, at.a[0])):
                return False
        elif at.op == 'eq0':
            p = at.a[0]
            if self.prove_le0(add(p, ONE)) or self.prove_le0(sub(ONE, p)):
                return False
            if self.prove_eq0(p):
                return True
            # distinct constants: some known x == c
            for s in self.lits:
                for x, v in s:
                    if v and x.op == 'eq0':
                        d = sub(x.a[0], p)
                        e = add(x.a[0], p)
                        if (d.op == 'n' and d.a[0] != 0) or (e.op == 'n' and e.a[0] != 0):
                            return False
                    if v and x.op == 'eq0':
                        pass
        elif at.op == 'eq':
            for s in self.lits:
                for x, v in s:
                    if x.op == 'eq' and v and at.op == 'eq':
                        # x: a==sconst1, at: a==sconst2
                        common = set(x.a) & set(at.a)
                        if common:
                            o1 = [z for z in x.a if z not in common]
                            o2 = [z for z in at.a if z not in common]
                            if o1 and o2 and o1[0].op == 'sconst' and o2[0].op == 'sconst' and o1[0] is not o2[0]:
                                return False
        return None

    def simp(self, t, depth=0):
        """prune the decisions of a diagram that the facts settle"""
        if t.op != 'I':
            return t
        at, hi, lo = t.a
        d = self.decide(at)
        if d is True:
            return self.simp(hi, depth)
        if d is False:
            return self.simp(lo, depth)
        if depth > 24:
            return t
        self.push(*lit_facts(at, True))
        h = self.simp(hi, depth + 1)
        self.pop()
        self.push(*lit_facts(at, False))
        l = self.simp(lo, depth + 1)
        self.pop()
        return node(at, h, l)


def lit_facts(at, val):
    polys = []
    if at.op == 'le0':
        polys.append(at.a[0] if val else sub(ONE, at.a[0]))
    elif at.op == 'eq0' and val:
        polys.append(at.a[0])
        polys.append(neg(at.a[0]))
    elif at.op == 'isnull' and False:
        pass
    polys = [p for p in polys if p.op != 'I']
    return polys, [(at, val)]


def cond_facts(c):
    """necessary literals of a condition: atoms with one branch false"""
    polys, lits = [], []
    while c.op == 'I':
        at, hi, lo = c.a
        if lo is FALSE:
            p, l = lit_facts(at, True)
            polys += p
            lits += l
            c = hi
        elif hi is FALSE:
            p, l = lit_facts(at, False)
            polys += p
            lits += l
            c = lo
        else:
            # literals common to both branches
            p1, l1 = cond_facts(hi)
            p2, l2 = cond_facts(lo)
            cl = [x for x in l1 if x in l2]
            for a_, v_ in cl:
                p, l = lit_facts(a_, v_)
                polys += p
                lits += l
            break
    return polys, lits


def implicit_facts(monos):
    out = []
    done = set()
    queue = list(monos)
    while queue:
        m = queue.pop()
        if m in done or m == ():
            continue
        done.add(m)
        if nonneg_mono(m):
            out.append({m: -1})
        if len(m) == 1:
            x = m[0]
            new = []
            if x.op == 'mod' and nonneg(x.a[0]):
                if x.a[1].op == 'n' and x.a[1].a[0] > 0:
                    out.append({m: 1, (): 1 - x.a[1].a[0]})
                elif nonneg(x.a[1]):
                    d = {m: 1, (): 1}
                    for k, v in _monos(x.a[1]).items():
                        d[k] = d.get(k, 0) - v
                    new.append(d)
                # a = (a div b)*b + a mod b
                if x.a[1].op == 'n':
                    q = raw('div', x.a[0], x.a[1])
                    d = dict(_monos(x.a[0]))
                    d[(q,)] = d.get((q,), 0) - x.a[1].a[0]
                    d[m] = d.get(m, 0) - 1
                    new.append(d)
                    new.append({k: -v for k, v in d.items()})
            if x.op == 'div' and x.a[1].op == 'n' and x.a[1].a[0] > 0 and nonneg(x.a[0]):
                c = x.a[1].a[0]
                d = {m: c}
                for k, v in _monos(x.a[0]).items():
                    d[k] = d.get(k, 0) - v
                new.append(d)                       # c*q <= a
                e = {k: -v for k, v in d.items()}
                e[()] = e.get((), 0) - (c - 1)
                new.append(e)                       # a <= c*q + c-1
            if x.op == 'strnlen' and x.a[2].op != 'I':
                d = {m: 1}
                for k, v in _monos(x.a[2]).items():
                    d[k] = d.get(k, 0) - v
                new.append(d)
            if x.op == 'first' and x.a[0].op not in ('I', 'inf'):
                d = {m: 1}
                for k, v in _monos(x.a[0]).items():
                    d[k] = d.get(k, 0) - v
                new.append(d)
            if x.op == 'trunc':
                out.append({m: 1, (): 1 - (1 << x.a[0].a[0])})
            if x.op in ('byteof', 'ch', 'trunc8'):
                out.append({m: 1, (): -255})
            for d in new:
                out.append(d)
                queue.extend(d.keys())
    return out


def fm_unsat(polys, maxvars=14, maxcons=700):
    cons = []
    for p in polys:
        if p.op == 'I':
            continue
        cons.append(dict(_monos(p)))
    if not cons:
        return False
    goal = cons[-1]
    # relevance: keep constraints connected to the goal
    vars_ = {m for m in goal if m != ()}
    # product facts: multiply facts by nonneg atoms for the quadratic monomials at hand
    allm = set()
    for c in cons:
        allm.update(c)
    quad = {m for m in goal if len(m) >= 2}
    extra = []
    if quad:
        mults = {x for m in quad for x in m if nonneg_atom(x)}
        for c in cons[:]:
            if max((len(m) for m in c), default=0) == 1 and 1 < len(c) <= 4:
                for x in mults:
                    d = {}
                    for m, v in c.items():
                        mm = tuple(sorted(m + (x,), key=lambda t: t.id))
                        d[mm] = d.get(mm, 0) + v
                    if any(m in quad for m in d):
                        extra.append(d)
    cons += extra
    keep = [goal]
    rest = [c for c in cons if c is not goal]
    while True:
        changed = True
        while changed:
            changed = False
            for c in rest[:]:
                ms = {m for m in c if m != ()}
                if not ms or ms & vars_:
                    keep.append(c)
                    rest.remove(c)
                    vars_ |= ms
                    changed = True
        imp = implicit_facts(list(vars_))
        more = {m for c in imp for m in c if m != ()} - vars_
        if not more:
            break
        # what holds of the quotients may bring in more of the facts
        vars_ |= more
        if not any(m in more for c in rest for m in c):
            break
    keep += imp
    # dedupe
    seen = set()
    cs = []
    for c in keep:
        c = {m: v for m, v in c.items() if v != 0}
        k = frozenset(c.items())
        if k not in seen:
            seen.add(k)
            cs.append(c)
    return _fm(cs, maxcons)


def _fm(cs, maxcons):
    while True:
        vs = {}
        for c in cs:
            for m, v in c.items():
                if m != ():
                    p, n = vs.get(m, (0, 0))
                    vs[m] = (p + (v > 0), n + (v < 0))
            if not any(m != () for m in c) and c.get((), 0) > 0:
                return True
        if not vs:
            return any(c.get((), 0) > 0 for c in cs)
        # pick the variable with the fewest products
        x = min(vs, key=lambda m: vs[m][0] * vs[m][1] - vs[m][0] - vs[m][1])
        pos = [c for c in cs if c.get(x, 0) > 0]
        ng = [c for c in cs if c.get(x, 0) < 0]
        out = [c for c in cs if c.get(x, 0) == 0]
        seen = {frozenset(c.items()) for c in out}
        for p in pos:
            for n in ng:
                a, b = p[x], -n[x]
                d = {}
                for m, v in p.items():
                    d[m] = d.get(m, 0) + v * b
                for m, v in n.items():
                    d[m] = d.get(m, 0) + v * a
                d = {m: v for m, v in d.items() if v != 0}
                g = 0
                for m, v in d.items():
                    if m != ():
                        g = _gcd(g, abs(v))
                if g == 0:
                    if d.get((), 0) > 0:
                        return True
                    continue
                if g > 1:
                    c0 = d.get((), 0)
                    d = {m: v // g for m, v in d.items() if m != ()}
                    c0 = -((-c0) // g)   # tighten for integers
                    if c0:
                        d[()] = c0
                k = frozenset(d.items())
                if k not in seen:
                    seen.add(k)
                    out.append(d)
        if len(out) > maxcons:
            return False
        cs = out


PROVER = Prover()


# ----------------------------------------------------------------- printing
SHOWDEPTH = 14


def show(t, d=0):
    if d > SHOWDEPTH:
        return '..'
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    op = t.op
    if op == 'n':
        return str(t.a[0])
    if op in ('sym',):
        return str(t.a[0])
    if op == 'bv':
        return '$%d' % t.a[0]
    if op == 'P':
        out = []
        for m, c in t.a[0]:
            s = '*'.join(show(x, d + 1) for x in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append('%s*%s' % (c, s))
        return '(' + ' + '.join(out) + ')'
    if op == 'I':
        if t.a[1] is TRUE and t.a[2] is FALSE:
            return show(t.a[0], d + 1)
        if t.a[1] is FALSE and t.a[2] is TRUE:
            return '!' + show(t.a[0], d + 1)
        return '[%s ? %s : %s]' % (show(t.a[0], d + 1), show(t.a[1], d + 1), show(t.a[2], d + 1))
    if op == 'le0':
        return '(%s <= 0)' % show(t.a[0], d + 1)
    if op == 'eq0':
        return '(%s == 0)' % show(t.a[0], d + 1)
    if op == 'eq':
        return '(%s == %s)' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if op == 'lam':
        return '\\$%d.%s' % (t.a[0], show(t.a[1], d + 1))
    if op == 'rd':
        return '%s[%s]' % (show(t.a[0], d + 1), show(t.a[1], d + 1))
    if op == 'sconst':
        return repr(t.a[0])
    if op == 'region':
        return '{' + ':'.join(show(x, d + 1) for x in t.a) + '}'
    if op in ('ptr', 'optr'):
        return ('&' if op == 'optr' else '@') + show(t.a[0], d + 1) + (''.join('.' + str(x) for x in t.a[1])) + ''.join('[%s]' % show(x[1], d + 1) if x[0] == 'i' else '.' + show(x[1], d + 1) for x in t.a[2])
    if op == 'cell':
        return show(t.a[0], d + 1) + ''.join('.' + str(x) for x in t.a[1])
    if not t.a:
        return op
    return op + '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'


def cube(c):
    """one consistent conjunction of literals that makes c true"""
    if c is TRUE:
        return []
    if c is FALSE:
        return None
    at, hi, lo = c.a
    for v, b in ((True, hi), (False, lo)):
        if b is FALSE:
            continue
        d = PROVER.decide(at)
        if d is not None and d != v:
            continue
        PROVER.push(*lit_facts(at, v))
        try:
            r = cube(b)
        finally:
            PROVER.pop()
        if r is not None:
            return [(at, v)] + r
    return None
