"""Value models of the outside libraries (NTL, GMP, Crypto++, libc, libstdc++)
and of the type classes the analysis distinguishes."""
from terms import *
import terms

# ----------------------------------------------------------------- kinds
_kind = {}


def kind(it, t):
    key = (id(it.p), t)
    r = _kind.get(key)
    if r is None:
        r = _kind[key] = kind1(it, t)
    return r


def kind1(it, t):
    d = it.T.get(t)
    if d is None:
        if t and t.endswith('*'):
            return 'ptr'
        return 'other'
    k = d['k']
    if k in ('int', 'bool', 'enum', 'float', 'ptr', 'ref', 'arr'):
        return k
    if k == 'void':
        return 'void'
    if k == 'fn':
        return 'fun'
    if k == 'nullptr':
        return 'ptr'
    if k != 'rec':
        return 'other'
    if d.get('lambda'):
        return 'closure'
    b = d.get('base', t)
    tm = d.get('tmpl', '')
    if b == 'NTL::ZZ':
        return 'zz'
    if b == 'NTL::ZZ_p':
        return 'zzp'
    if b == 'NTL::ZZ_pX':
        return 'poly'
    if b == '__mpz_struct':
        return 'mpz'
    if tm in ('NTL::Vec', 'std::vector', 'std::deque', 'std::list', 'std::array'):
        return 'vec'
    if tm in ('std::basic_string', 'std::__cxx11::basic_string'):
        return 'str'
    if tm in ('std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ostream', 'std::basic_istringstream', 'std::basic_iostream', 'std::basic_istream', 'std::basic_ios') or b == 'std::ios_base':
        return 'stream'
    if tm in ('std::map', 'std::unordered_map'):
        return 'map'
    if 'iterator' in tm or 'iterator' in b.split('<')[0]:
        return 'iter'
    if tm in ('std::unique_ptr', 'std::shared_ptr'):
        return 'uptr'
    if tm == 'std::function':
        return 'fun'
    if tm in ('NTL::Pair', 'std::pair'):
        return 'vrec'
    if tm in ('std::allocator', 'std::char_traits'):
        return 'unit'
    if tm in ('std::chrono::duration', 'std::chrono::time_point'):
        return 'dur'
    if b in ('std::_Bit_reference', 'std::vector<bool, std::allocator<bool>>::reference'):
        return 'bit'
    if b in it.p.records:
        rec_ = it.p.records[b]
        if b in it.noeffect or b.split('<')[0] in it.noeffect:
            return 'bm'
        for bb in rec_['bases']:
            if kind(it, bb) in ('vec', 'map', 'str'):
                return 'vrec'
        return 'obj'
    return 'other'


# ----------------------------------------------------------------- integers
def trunc(v, w, signed=False):
    def one(z):
        if z.op == 'n':
            x = z.a[0] & ((1 << w) - 1)
            if signed and x >= 1 << (w - 1):
                x -= 1 << w
            return num(x)
        if z.op in PTROPS or z in (NULL, UNINIT):
            return z
        lim = (1 << (w - 1)) if signed else (1 << w)
        if w >= 64:
            return z
        if z.op == 'trunc' and z.a[0].a[0] <= w:
            return z
        if z.op in ('byteof', 'ch') and lim >= 256:
            return z
        if w == 8 and z.op in ('byteof', 'ch', 'rd', 'trunc8'):
            return z        # a byte is a byte, whatever its signedness
        if w == 8 and z.op == 'rd':
            return z
        if (nonneg(z) or PROVER.prove_le0(neg(z))) and PROVER.prove_le0(sub(z, num(lim - 1))):
            return z
        if z.op == 'trunc' and z.a[0].a[0] > w:
            return one(z.a[1])
        # numbers of bits, table sizes and the like stay what they are
        if w == 32 and z.op in ('NumBits', 'NumTwos', 'deg', 'msize'):
            return z
        return raw('trunc', num(w), z)
    return lift('trunc%d%s' % (w, signed), one, v)


BUILD['trunc'] = lambda w, z: trunc(z, w.a[0])


def load(v, off, w):
    """w-byte little endian word of a byte array"""
    r = ZERO
    for j in range(w):
        r = add(r, mul(num(256 ** j), rd(v, add(off, num(j)))))
    return r


def store(v, off, w, x):
    for j in range(w):
        v = st(v, add(off, num(j)), byteof(x, num(j)))
    return v


def byteof(z, i):
    """i-th byte (little endian) of the magnitude of z"""
    return lift('byteof', _byteof, z, i)


def _byteof(z, i):
    if z.op == 'n' and i.op == 'n':
        return num((abs(z.a[0]) >> (8 * i.a[0])) & 255) if i.a[0] >= 0 else ZERO
    if z.op == 'frombytes' and i.op == 'n':
        pass
    if z.op == 'frombytes':
        # byte i of a number read from bytes
        arr, off, n = z.a
        if PROVER.prove_le0(sub(add(i, ONE), n)):
            return rd(arr, add(off, i))
    if z.op == 'trunc' and i.op == 'n' and 8 * i.a[0] + 8 <= z.a[0].a[0]:
        return _byteof(z.a[1], i)
    return raw('byteof', z, i)


BUILD['byteof'] = byteof


def frombytes(arr, off, n):
    return lift('frombytes', _frombytes, arr, off, n)


def _frombytes(arr, off, n):
    if n is ZERO:
        return ZERO
    i = fresh('fb', True)
    PROVER.push([neg(i), sub(add(i, ONE), n)])
    try:
        x = PROVER.simp(rd(arr, add(off, i)))
        # the bytes of a known number?
        if x.op == 'byteof' and x.a[1] is i and i not in support(x.a[0]):
            z = x.a[0]
            if maxbits(z) is not None and PROVER.prove_le0(sub(maxbits(z), mul(num(8), n))):
                return z
            if n.op == 'numbytes' and n.a[0] is z:
                return z
            if n is numbytes(z):
                return z
            return raw('lowbytes', z, n)
    finally:
        PROVER.pop()
    # keep only the bytes that are read
    return mark(raw('frombytes', close(i, x), ZERO, n))


def mark(t):
    NONNEG_T.add(t.id)
    return t


BUILD['frombytes'] = frombytes


def maxbits(z):
    """an upper bound of the number of bits, when one is known"""
    if z.op == 'randbits':
        return z.a[-1]
    if z.op == 'lowbytes':
        return mul(num(8), z.a[1])
    if z.op == 'frombytes':
        return mul(num(8), z.a[2])
    if z.op == 'n':
        return num(abs(z.a[0]).bit_length())
    return raw('NumBits', z)


def numbits(z):
    return lift('NumBits', lambda x: num(abs(x.a[0]).bit_length()) if x.op == 'n' else raw('NumBits', x), z)


BUILD['NumBits'] = numbits


def numbytes(z):
    return fdiv(add(numbits(z), num(7)), num(8))


def numtwos(z):
    def one(x):
        if x.op == 'n' and x.a[0]:
            k = 0
            v = x.a[0]
            while v % 2 == 0:
                v //= 2
                k += 1
            return num(k)
        if x is ZERO:
            return ZERO
        return raw('NumTwos', x)
    return lift('NumTwos', one, z)


BUILD['NumTwos'] = numtwos


# shifts of integers of NTL: left shift is a product with a power of two
def zshl(z, n):
    return lift('zshl', shl, z, n)


def tostr(v):
    return lift('tostr', lambda z: sconst(str(z.a[0]).encode()) if z.op == 'n' else raw('tostr', z), v)


BUILD['tostr'] = tostr


# ----------------------------------------------------------------- memory
def each(it, p, fn):
    """run fn(leaf) for every possible address p, joining the states"""
    if it.S.pc is FALSE:
        return raw('dead')
    if p.op != 'I':
        return fn(p)
    at, hi, lo = p.a
    return it.branch(it.simp(atom(at)), lambda: each(it, hi, fn), lambda: each(it, lo, fn))


def bytesat(it, p):
    """(array, offset) of the bytes p points to"""
    b, o = psplit(p)
    if b.op == 'pcast':
        a, o2 = bytesat(it, b.a[0])
        return a, add(o2, mul(num(b.a[1]), o))
    if b.op == 'ptr':
        v = it.cellget(b.a[0], b.a[1])
        if b.a[0].a[0] == 'strlit':
            v = sconst(b.a[0].a[1])
        v = it.accget(v, b.a[2])
        if b.a[3] == 'a':
            return v, o
        if b.a[3] == 's':
            return lamfun(lambda i: schar(v, i)), o
        return varr(v), o
    if b.op == 'optr':
        w = 8
        t = it.ctype.get((b.a[0], b.a[1]))
        v = it.cellget(b.a[0], b.a[1])
        v = it.accget(v, b.a[2])
        d = it.T.get(t, {})
        if d.get('k') == 'arr' or v.op in ('st', 'lam', 'acon'):
            return v, o
        return lamfun(lambda i: byteof(v, i)), o
    if p is NULL or b.op in ('uninit', 'dead', 'badread'):
        return raw('badread'), ZERO
    r = it.derefregion(b)
    return it.cellget(r, ()), o


def writebytes(it, p, n, f, e):
    """bytes f(0..n-1) go to address p"""
    def one(z):
        b, o = psplit(z)
        if b.op == 'pcast':
            return one(padd(b.a[0], mul(num(b.a[1]), o)))
        if b.op == 'ptr':
            r, pth, accs = b.a[0], b.a[1], b.a[2]
            cell = it.cellget(r, pth)
            old = it.accget(cell, accs)
            if b.a[3] == 'a':
                new = segw(old, o, n, f)
            elif b.a[3] == 'v':
                new = vec(vlen(old), segw(varr(old), o, n, f))
            else:
                new = raw('vecstr', vlen(old), segw(lamfun(lambda i: schar(old, i)), o, n, f))
            it.cellset(r, pth, it.accset(cell, accs, new) if accs else new)
            return VOID
        if b.op == 'optr':
            t = it.ctype.get((b.a[0], b.a[1]))
            d = it.T.get(t, {})
            if d.get('k') == 'arr' or b.a[2]:
                cell = it.cellget(b.a[0], b.a[1])
                old = it.accget(cell, b.a[2])
                new = segw(old, o, n, f)
                it.cellset(b.a[0], b.a[1], it.accset(cell, b.a[2], new) if b.a[2] else new)
                return VOID
            sz = d.get('size')
            if o is ZERO and n.op == 'n' and sz == n.a[0]:
                a = lamfun(f)
                it.cellset(b.a[0], b.a[1], frombytes(a, ZERO, n))
                return VOID
            it.cellset(b.a[0], b.a[1], raw('clobber', it.uid(e)))
            return VOID
        if z is NULL or b.op in ('uninit', 'dead', 'badread'):
            return VOID
        r = it.derefregion(b)
        it.cellset(r, (), segw(it.cellget(r, ()), o, n, f))
        return VOID
    each(it, p, one)


def segw(arr, off, n, f):
    if n.op == 'n' and 0 <= n.a[0] <= 1:
        return st(arr, off, f(ZERO)) if n.a[0] else arr
    return seg(arr, off, n, f)


def strof(it, p):
    """string value of a char pointer"""
    def one(z):
        b, o = psplit(z)
        if b.op == 'ptr' and b.a[3] == 's' and o is ZERO:
            if b.a[0].a[0] == 'strlit':
                return sconst(b.a[0].a[1].split(b'\0')[0])
            return it.accget(it.cellget(b.a[0], b.a[1]), b.a[2])
        if b.op == 'ptr' and b.a[0].a[0] == 'strlit' and o.op == 'n':
            return sconst(b.a[0].a[1][o.a[0]:].split(b'\0')[0])
        if z is NULL or b.op in ('uninit', 'dead', 'badread'):
            return raw('badread')
        a, o = bytesat(it, z)
        return cstr(a, o)
    return it.liftaddr(p, one)


# ----------------------------------------------------------------- values
def dfl(it, t):
    v = it.default(t)
    return v


def elemtype(it, t):
    d = it.T.get(t, {})
    a = d.get('args') or []
    return a[0] if a else 'int'


def grow(it, v, n, et, fill=None):
    """vector of n elements, the old ones kept"""
    d = it.default(et) if fill is None else fill
    if fill is None and it.tk(et) in ('int', 'bool', 'ptr', 'float', 'enum'):
        d = it.zero(et)

    def one(x):
        old = vlen(x)
        if x.op == 'vec' and old is ZERO:
            return vec(n, raw('acon', d))
        if old is n or PROVER.prove_le0(sub(n, old)):
            return vec(n, varr(x))
        return vec(n, lamfun(lambda i: ite(lt(i, old), rd(varr(x), i), d)))
    return lift(('grow', d.id, n.id, PROVER.ctx()), one, v)


def opaque_result(it, e, name, args):
    t = e['t']
    k = it.tk(t)
    if k == 'void' or t == 'void':
        return VOID
    if e.get('lv'):
        return raw('optr', raw('region', 'temp', 'res', it.uid(e), it.F.uid), (), ())
    v = app(name, *[a if isinstance(a, T) else raw('const', a) for a in args])
    d = it.T.get(t, {})
    if d.get('k') == 'bool':
        return lift('opb', lambda z: atom(z), v) if v.op == 'I' else atom(v)
    if d.get('k') in ('int', 'enum') and not d.get('s') and v.op != 'I':
        mark_nonneg(v)
    return v




def register_map(it, v, t):
    d = it.T.get(t, {})
    a = d.get('args') or []
    if len(a) > 1 and a[1].startswith('EOPSIParty'):
        b = v
        while b.op in ('mput', 'mdel'):
            b = b.a[0]
        NNMAPS.add(b)
    return v


def mapbase(m):
    while m.op in ('mput', 'mdel', 'I'):
        m = m.a[0] if m.op != 'I' else m.a[1]
    return m


def mvalof(m, k):
    """value of key k, null when absent"""
    return ite(mhas(m, k), mget(m, k), NULL)


# ----------------------------------------------------------------- constructors
def ctor(it, e, t):
    k = it.tk(t)
    args = e.get('args', [])
    if (e.get('copy') or e.get('move')) and args:
        return rvarg(it, args[0], e.get('pt', [None])[0])
    if not args:
        if e.get('zero'):
            return it.zero(t)
        return it.default(t)
    pts = e.get('pt', [])
    if k == 'str':
        a0k = it.tk(args[0]['t'])
        if a0k == 'ptr' or a0k == 'arr':
            p = it.rv(args[0])
            rest = [a for a in args[1:] if it.tk(a['t']) in ('int', 'ptr')]
            if rest and it.tk(rest[0]['t']) == 'int':
                n = it.rv(rest[0])
                a, o = bytesat(it, p) if p.op != 'I' else (app('bytesof', p), ZERO)
                return substring(a, o, n)
            return strof(it, p)
        if a0k == 'str':
            s = rvarg(it, args[0], pts[0] if pts else None)
            if len(args) > 1 and it.tk(args[1]['t']) == 'int':
                return substr(it, s, [it.rv(a) for a in args[1:] if it.tk(a['t']) == 'int'])
            return s
        vs = [it.rv(a) for a in args if it.tk(a['t']) in ('int',)]
        if len(vs) == 2 and vs[0] is ZERO:
            return sconst(b'')
        return app('mkstr', *vs)
    if k == 'vec':
        et = elemtype(it, t)
        ak = it.tk(args[0]['t'])
        real = [a for a in args if a is not None and it.tk(it.strip(a['t'])) != 'unit']
        if ak == 'int':
            n = it.rv(args[0])
            if len(real) > 1:
                x = rvarg(it, real[1], pts[1] if len(pts) > 1 else None)
            else:
                x = it.zero(et) if it.tk(et) in ('int', 'bool', 'ptr', 'float', 'enum') else it.default(et)
            return vec(n, raw('acon', x))
        if ak == 'vec' or it.tk(it.strip(args[0]['t'])) == 'vec':
            return rvarg(it, args[0], pts[0] if pts else None)
        if len(real) >= 2:
            a, b = it.rv(real[0]), it.rv(real[1])
            return rangevec(it, a, b)
        v = rvarg(it, args[0], pts[0] if pts else None)
        if v.op in ('st', 'lam', 'acon') or args[0]['k'] == 'ilist':
            n = len(args[0].get('es', []))
            return vec(num(n), v)
        return app('mkvec', v)
    if k == 'dur':
        v = rvarg(it, args[0], pts[0] if pts else None)
        return v if it.tk(it.strip(args[0]['t'])) == 'int' else rescale(it, v, args[0]['t'], t)
    if k in ('zz', 'zzp'):
        v = rvarg(it, args[0], pts[0] if pts else None)
        if k == 'zzp':
            return modp(v)
        return v
    if k == 'poly':
        v = rvarg(it, args[0], pts[0] if pts else None)
        return st(raw('acon', ZERO), ZERO, modp(v))
    if k in ('uptr', 'fun', 'iter', 'closure', 'map'):
        return rvarg(it, args[0], pts[0] if pts else None)
    if k == 'stream':
        for a in args[:1]:
            if it.tk(it.strip(a['t'])) == 'str':
                return rvarg(it, a, pts[0] if pts else None)
        return sconst(b'')
    if k == 'vrec' and len(args) == 2:
        fs = ['first', 'second'] if 'pair' in t else ['a', 'b']
        return rec({f: rvarg(it, a, pts[i] if i < len(pts) else None) for i, (f, a) in enumerate(zip(fs, args))})
    vals = [rvarg(it, a, pts[i] if i < len(pts) else None) for i, a in enumerate(args) if a is not None]
    return app('ctor:' + t.split('<')[0], *vals)


def rvarg(it, a, pt=None):
    """value of an argument, looking through references"""
    if a is None:
        return UNINIT
    if pt is not None and it.T.get(pt, {}).get('k') == 'ref':
        A = it.lv_or_temp(a)
        return it.read(A, it.T[pt]['to'] if it.tk(it.T[pt]['to']) != 'other' else it.strip(a['t']))
    if a.get('lv'):
        return it.read(it.lv(a), a['t'])
    return it.rv(a)


def substring(arr, off, n):
    """a string of n given bytes"""
    for s in strings_in(arr):
        i = fresh('ci', True)
        PROVER.push([neg(i), sub(i, vlen(s))])
        try:
            x = PROVER.simp(rd(arr, add(off, i)))
        finally:
            PROVER.pop()
        if x is schar(s, i) and n is vlen(s):
            return s
    return bytestr(arr, off, n)


def bytestr(arr, off, n):
    if n is strlen(arr, off):
        return cstr(arr, off)
    i = fresh('ci', True)
    return raw('bytestr', close(i, rd(arr, add(off, i))), n)


def rangevec(it, a, b):
    pa, oa = psplit(a)
    pb, ob = psplit(b)
    if pa is pb:
        n = sub(ob, oa)
        arr, o = elemsat(it, a)
        return vec(n, lamfun(lambda i: rd(arr, add(o, i))))
    return app('rangevec', a, b)


def elemsat(it, p):
    """(array, offset) of the elements p points to"""
    b, o = psplit(p)
    if b.op == 'ptr':
        v = it.accget(it.cellget(b.a[0], b.a[1]), b.a[2])
        if b.a[3] == 'v':
            return varr(v), o
        if b.a[3] == 's':
            return lamfun(lambda i: schar(v, i)), o
        return v, o
    if b.op == 'optr':
        v = it.accget(it.cellget(b.a[0], b.a[1]), b.a[2])
        return raw('acon', v), o
    if b.op == 'pcast':
        return bytesat(it, p)
    return it.cellget(it.derefregion(b), ()), o


def writeelems(it, p, n, f, e):
    b, o = psplit(p)
    if b.op == 'ptr' and b.a[3] in 'av':
        cell = it.cellget(b.a[0], b.a[1])
        old = it.accget(cell, b.a[2])
        if b.a[3] == 'a':
            new = segw(old, o, n, f)
        else:
            new = vec(vlen(old), segw(varr(old), o, n, f))
        it.cellset(b.a[0], b.a[1], it.accset(cell, b.a[2], new) if b.a[2] else new)
        return VOID
    return writebytes(it, p, n, f, e)


# ----------------------------------------------------------------- calls
class C:
    """arguments of a call to an outside function"""

    def __init__(self, it, e):
        self.it = it
        self.e = e
        self.args = e.get('args', [])
        self.pt = e.get('pt', [])
        self._a = {}
        self._v = {}
        self.O = None
        if 'o' in e:
            self.O = it.objaddr(e['o'], e.get('arrow'), e)
            self.ot = it.objtype(e) if e.get('arrow') else it.strip(e['o']['t'])

    def n(self):
        return len([a for a in self.args if a is not None])

    def isref(self, i):
        return i < len(self.pt) and self.it.T.get(self.pt[i], {'k': 'ref' if self.pt[i].endswith('&') else ''}).get('k') == 'ref'

    def ty(self, i):
        return self.it.strip(self.args[i]['t'])

    def A(self, i):
        if i not in self._a:
            self._a[i] = self.it.lv_or_temp(self.args[i])
        return self._a[i]

    def V(self, i):
        if i not in self._v:
            if i in self._a:
                self._v[i] = self.it.read(self._a[i], self.ty(i))
            elif self.isref(i):
                self._v[i] = self.it.read(self.A(i), self.ty(i))
            elif self.args[i].get('lv'):
                self._v[i] = self.it.read(self.it.lv(self.args[i]), self.args[i]['t'])
            else:
                self._v[i] = self.it.rv(self.args[i])
        return self._v[i]

    def all(self):
        return [self.V(i) for i in range(len(self.args)) if self.args[i] is not None]

    def ov(self):
        return self.it.read(self.O, self.ot)

    def oset(self, v):
        self.it.write(self.O, v, self.ot)


def stripns(fn):
    return fn.split('<')[0]


FREE = {}
METH = {}


def free(*names):
    def d(f):
        for n in names:
            FREE[n] = f
        return f
    return d


def meth(*names):
    def d(f):
        for n in names:
            METH[n] = f
        return f
    return d


def call(it, e):
    fn = e['fn']
    c = C(it, e)
    if it.S.pc is FALSE:
        return raw('dead')
    if c.O is not None:
        k = it.tk(it.strip(c.ot))
        mn = e.get('mname', fn.split('::')[-1])
        f = METH.get((k, mn)) or METH.get(('*', mn))
        if k == 'vrec' and f is None:
            f = METH.get(('vec', mn))
        if f:
            r = f(it, e, c)
            if r is not NotImplemented:
                return ret(it, e, r)
    else:
        base = opname(fn)
        f = FREE.get(base) or FREE.get(opname(notargs(fn)))
        if f:
            r = f(it, e, c)
            if r is not NotImplemented:
                return ret(it, e, r)
    return unknown(it, e, c)


def ret(it, e, r):
    return r


def opname(fn):
    # strip template arguments but keep operator<
    if 'operator' in fn:
        i = fn.index('operator')
        return fn
    return fn.split('<')[0]


def notargs(fn):
    """a qualified name without its template arguments"""
    if '<' not in fn or 'operator' in fn:
        return fn
    r, d = [], 0
    for ch in fn:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif not d:
            r.append(ch)
    return ''.join(r)


def unknown(it, e, c):
    vals = c.all()
    if c.O is not None:
        vals = [c.ov()] + vals
    it.ev('extern', e, callee=e['fn'], args=vals)
    # non-const reference and pointer arguments may be written
    ctx = tuple(k for k, _ in it.loops)
    if c.O is not None and not e.get('cm'):
        k = it.tk(c.ot)
        if k not in ('other', 'iter', 'unit'):
            c.oset(app('x:%s:o' % stripns(e['fn']), *vals))
    for i, pt in enumerate(c.pt):
        if pt.endswith('&') and not pt.startswith('const') and not pt.endswith('&&') and i < len(c.args):
            k = it.tk(c.ty(i))
            if k not in ('other', 'stream', 'iter'):
                it.write(c.A(i), app('x:%s:%d' % (stripns(e['fn']), i), *vals), c.ty(i))
    if stripns(e['fn']) not in KNOWN_PURE and not e['fn'].startswith('std::chrono::'):
        it.unsupported('call of ' + e['fn'][:60], e)
    return opaque_result(it, e, 'x:' + stripns(e['fn']), vals)


KNOWN_PURE = {'sqrt', 'pow', 'std::sqrt', 'log2', 'ceil', 'floor', 'std::ceil', 'std::floor', 'std::thread::hardware_concurrency', 'std::abs', 'std::exception::what'}


# ---- NTL scalars
@free('NTL::conv', 'NTL::to_ZZ', 'NTL::to_ZZ_p', 'NTL::to_long', 'NTL::to_int', 'NTL::to_uint', 'NTL::to_ulong', 'NTL::INIT_VAL')
def m_conv(it, e, c):
    fn = opname(e['fn'])
    n = c.n()
    if n == 2:
        src, dst = 1, 0
        t = c.ty(0)
    else:
        src, dst = 0, None
        t = it.strip(e['t'])
    v = c.V(src)
    k, sk = it.tk(t), it.tk(c.ty(src))
    if sk == 'arr' or sk == 'ptr':      # decimal text
        s = strof(it, v)
        v = num(int(s.a[0])) if s.op == 'sconst' and s.a[0].lstrip(b'-').isdigit() else app('parse', s)
        if k == 'zzp':
            v = modp(v)
    elif k == 'zzp':
        v = modp(v) if sk != 'zzp' else v
    elif k == 'zz':
        v = rep(v) if sk == 'zzp' else v
    elif k == 'vec':
        if sk == 'vec' and it.tk(elemtype(it, t)) == 'zzp':
            w = v
            v = lift('convv', lambda x: vec(vlen(x), lamfun(lambda i: modp(rd(varr(x), i)))), w)
        elif sk == 'vec' and it.tk(elemtype(it, t)) == 'zz':
            v = lift('convr', lambda x: vec(vlen(x), lamfun(lambda i: rep(rd(varr(x), i)))), v)
        else:
            v = app('convvec', v)
    elif k == 'poly':
        v = st(raw('acon', ZERO), ZERO, modp(v)) if sk != 'vec' else lamfun(lambda i: ite(lt(i, vlen(v)), rd(varr(v), i), ZERO))
    elif k == 'int':
        v = trunc(v, it.T[t]['w'], it.T[t]['s'])
    if dst is None:
        return v
    it.write(c.A(0), v, t)
    return c.A(0) if e.get('lv') else VOID


@free('NTL::rep')
def m_rep(it, e, c):
    v = rep(c.V(0))
    if e.get('lv'):
        return totemp(it, e, v, 'NTL::ZZ')
    return v


def totemp(it, e, v, t):
    r = raw('region', 'temp', it.uid(e), it.F.uid)
    it.decls.add(r)
    A = raw('optr', r, (), ())
    it.write(A, v, t)
    return A


@free('NTL::NumBits')
def m_nb(it, e, c):
    return numbits(c.V(0))


@free('NTL::NumBytes')
def m_nby(it, e, c):
    return numbytes(c.V(0))


@free('NTL::NumTwos', 'NTL::MakeOdd')
def m_nt(it, e, c):
    if e['fn'].endswith('MakeOdd'):
        return NotImplemented
    return numtwos(c.V(0))


@free('NTL::IsZero')
def m_iz(it, e, c):
    v = c.V(0)
    k = it.tk(c.ty(0))
    if k == 'poly':
        return atom(app('polyzero', v))
    return eq(v, ZERO)


@free('NTL::IsOne')
def m_io(it, e, c):
    v = c.V(0)
    if it.tk(c.ty(0)) == 'poly':
        return atom(app('polyone', v))
    return eq(v, ONE)


@free('NTL::IsOdd')
def m_iodd(it, e, c):
    return eq(fmod(c.V(0), num(2)), ONE)


@free('NTL::sign')
def m_sign(it, e, c):
    v = c.V(0)
    return ite(eq(v, ZERO), ZERO, ite(lt(v, ZERO), num(-1), ONE))


@free('NTL::compare')
def m_cmp(it, e, c):
    a, b = c.V(0), c.V(1)
    return ite(eq(a, b), ZERO, ite(lt(a, b), num(-1), ONE))


@free('NTL::RandomBits_ZZ', 'NTL::RandomBits_ulong')
def m_rb(it, e, c):
    return mark(raw('randbits', num(it.uid(e)), it.F.uid, ctx(it), c.V(0)))


def ctx(it):
    return tuple(k for k, _ in it.loops)


@free('NTL::RandomBnd', 'NTL::RandomLen_ZZ', 'NTL::random_ZZ_p', 'NTL::RandomWord', 'NTL::RandomLen_long')
def m_rbnd(it, e, c):
    return mark(raw('nondet', e['fn'], num(it.uid(e)), it.F.uid, ctx(it)))


@free('NTL::random', 'NTL::RandomBits', 'NTL::RandomLen')
def m_rnd2(it, e, c):
    if e['t'] != 'void':
        return mark(raw('nondet', e['fn'], num(it.uid(e)), it.F.uid, ctx(it)))
    if 'RandomBits' in e['fn']:
        it.write(c.A(0), mark(raw('randbits', num(it.uid(e)), it.F.uid, ctx(it), c.V(1))), c.ty(0))
    else:
        it.write(c.A(0), raw('nondet', e['fn'], num(it.uid(e)), it.F.uid, ctx(it)), c.ty(0))
    return VOID


@free('rand', 'time', 'random', 'std::rand', 'std::time', 'clock', 'std::clock', 'std::thread::hardware_concurrency')
def m_rand(it, e, c):
    c.all()
    v = raw('nondet', e['fn'].split('::')[-1], num(it.uid(e)), it.F.uid, ctx(it))
    return mark(v)


# state of the process that calls may change
PROCESS = {'srand': 'C random numbers', 'std::srand': 'C random numbers', 'srandom': 'C random numbers', 'NTL::SetSeed': 'NTL random numbers',
           'NTL::ZZ_p::init': 'modulus', 'NTL::ZZ_p::FFTInit': 'modulus', 'NTL::ZZ_p::UserFFTInit': 'modulus',
           'setlocale': 'locale', 'std::setlocale': 'locale', 'std::locale::global': 'locale',
           'std::set_terminate': 'terminate handler', 'std::set_new_handler': 'new handler', 'std::signal': 'signal handlers', 'signal': 'signal handlers',
           'sigaction': 'signal handlers', 'umask': 'umask', 'chdir': 'working directory', 'setenv': 'environment', 'putenv': 'environment',
           'unsetenv': 'environment', 'fesetround': 'rounding', 'std::fesetround': 'rounding', '__gmp_set_memory_functions': 'memory functions',
           'atexit': 'exit handlers', 'std::atexit': 'exit handlers', 'std::ios_base::sync_with_stdio': 'standard streams'}


def processkey(ch):
    return (raw('region', 'global', 'process'), ('#:' + ch,))


@free(*PROCESS)
def m_process(it, e, c):
    vs = c.all()
    ch = PROCESS[opname(e['fn'])]
    k = processkey(ch)
    old = it.S.m.get(k, raw('cell', *k))
    if 'srand' in e['fn'] and any(f.fn['fn'] == 'MurmurHash3::#ctor' for f in it.frames):
        return VOID         # the seed it takes from the clock
    if it.S.pc is not FALSE:
        it.ev('process', e, what=ch, old=old, val=vs[0] if vs else VOID)
        it.S.m[k] = vs[0] if ch == 'modulus' and vs else raw('nondet', 'process', num(it.uid(e)), it.F.uid, ctx(it))
    return VOID if e.get('t') == 'void' else old if ch == 'modulus' else opaque_result(it, e, 'process', [])


@free('NTL::ZZ_p::modulus')
def m_modulus(it, e, c):
    k = processkey('modulus')
    A = raw('optr', k[0], k[1], ())
    return A if e.get('lv') else it.S.m.get(k, raw('cell', *k))


@free('exit', 'std::exit', 'abort', 'std::abort', '_Exit', 'std::_Exit', 'quick_exit', 'std::terminate', '_exit')
def m_exit(it, e, c):
    vs = c.all()
    if it.S.pc is not FALSE:
        it.ev('exit', e, code=vs[0] if vs else num(134), callee=e['fn'])
        it.exits.append((it.S.fork(), vs[0] if vs else num(134)))
        it.S = St_(it)
    return VOID


def St_(it):
    s = it.S
    return type(s)(FALSE, s.m)


# ---- NTL arithmetic (operators and procedures)
def arith2(op, a, b, k):
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        return mul(a, b)
    if op == '/':
        if k == 'zzp':
            return app('fdivp', a, b)
        return fdiv(a, b)
    if op == '%':
        return fmod(a, b)
    if op == '<<':
        return zshl(a, b)
    if op == '>>':
        return shr(a, b)
    if op == '&':
        return band(a, b)
    if op == '|':
        return bor(a, b)
    if op == '^':
        return xor(a, b)
    return None


def polyop(op, a, b, ka, kb):
    if op in ('+', '-'):
        f = add if op == '+' else sub
        A = a if ka == 'poly' else st(raw('acon', ZERO), ZERO, a)
        B = b if kb == 'poly' else st(raw('acon', ZERO), ZERO, b)
        return lamfun(lambda i: f(rd(A, i), rd(B, i)))
    return app('pmul' if op == '*' else 'pop' + op, a, b)


def isstream(it, c, i=0):
    return c.args and it.tk(c.ty(i)) == 'stream'


# how a stream writes numbers: cells of the stream, as they were ('cell') until something changes them
FMT = {'hex': ('base', 8), 'dec': ('base', 2), 'oct': ('base', 64), 'fixed': ('float', 4), 'scientific': ('float', 256),
       'hexfloat': ('float', 260), 'defaultfloat': ('float', 0), 'left': ('adjust', 32), 'right': ('adjust', 128), 'internal': ('adjust', 16),
       'boolalpha': ('boolalpha', 1), 'noboolalpha': ('boolalpha', 0), 'showbase': ('showbase', 512), 'noshowbase': ('showbase', 0),
       'showpoint': ('showpoint', 1024), 'noshowpoint': ('showpoint', 0), 'showpos': ('showpos', 2048), 'noshowpos': ('showpos', 0),
       'uppercase': ('uppercase', 16384), 'nouppercase': ('uppercase', 0), 'unitbuf': ('unitbuf', 8192), 'nounitbuf': ('unitbuf', 0),
       'skipws': ('skipws', 4096), 'noskipws': ('skipws', 0)}
FMTDEF = {'base': 2, 'skipws': 4096, 'prec': 6, 'fill': 32, 'adjust': 0}
FMTMASK = {'base': 0x4a, 'float': 0x104, 'adjust': 0xb0, 'boolalpha': 1, 'showbase': 512, 'showpoint': 1024, 'showpos': 2048, 'uppercase': 16384,
           'unitbuf': 8192, 'skipws': 4096}
FMTOF = {'str': ('width', 'fill', 'adjust'), 'int': ('base', 'showbase', 'showpos', 'uppercase', 'width', 'fill', 'adjust'),
         'float': ('float', 'prec', 'showpoint', 'showpos', 'uppercase', 'width', 'fill', 'adjust'), 'bool': ('boolalpha', 'width', 'fill', 'adjust')}


def fmtkey(it, S, ch):
    if S.op == 'optr':
        return (S.a[0], S.a[1] + ('#:' + ch,)) if not S.a[2] else None
    return (it.derefregion(S), ('#:' + ch,)) if S.op in ('cell', 'ptr', 'sym') else None


def fmtget(it, S, ch):
    k = fmtkey(it, S, ch)
    return it.S.m.get(k, raw('cell', *k)) if k else raw('stfmt', S, ch)


def fmtset(it, S, ch, v, e):
    def one(z):
        k = fmtkey(it, z, ch)
        if k is None:
            return it.unsupported('stream', e)
        mine = k[0].a[0] in ('local', 'temp', 'heap')       # streams start in the usual way
        it.S.m[k] = raw('cell', *k) if mine and v is num(FMTDEF.get(ch, 0)) else v
        return VOID
    return each(it, S, one)


TEXT = '#:text'


def refname(a):
    """name of the function an argument refers to, or of the one that makes it"""
    st = [a]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('k') == 'ref' and x.get('dk') == 'func' or x.get('k') == 'call':
                return x.get('fn', '').split('<')[0], x
            st += [v for v in x.values() if isinstance(v, (dict, list))]
        elif isinstance(x, list):
            st += x
    return '', None


def manipulate(it, e, S, a, t):
    """apply a manipulator to a stream: None if it is none, else the text it writes"""
    fn = '(*)' in t or it.T.get(it.strip(a['t']), {}).get('k') == 'fn' or it.tk(it.strip(a['t'])) == 'fun'
    if not fn and not it.strip(a['t']).startswith(('std::_Set', 'std::_Reset')):
        return None
    n, x = refname(a)
    n = n.split('::')[-1]
    if n in FMT:
        fmtset(it, S, FMT[n][0], num(FMT[n][1]), e)
        return sconst(b'')
    if n in ('setprecision', 'setw', 'setfill'):
        fmtset(it, S, {'setprecision': 'prec', 'setw': 'width', 'setfill': 'fill'}[n], it.rv(x['args'][0]) if not x['args'][0].get('lv') else it.read(it.lv(x['args'][0]), x['args'][0]['t']), e)
        return sconst(b'')
    if n == 'endl':
        return sconst(b'\n')
    if n in ('flush', 'ws'):
        return sconst(b'')
    if n == 'ends':
        return sconst(b'\0')
    it.unsupported('manipulator ' + n, e)
    return sconst(b'')


def formatted(it, S, v, kind, e):
    """the text of a value on a stream formatted in its own way"""
    def one(z):
        fs = [fmtget(it, z, ch) for ch in FMTOF[kind]]
        k = fmtkey(it, z, 'width')
        r = v
        if k and any(f is not raw('cell', *fmtkey(it, z, ch)) for f, ch in zip(fs, FMTOF[kind])):
            r = app('fmted', v, *fs)
        if k and k in it.S.m:
            it.S.m[k] = raw('cell', *k)
        return r
    if S.op == 'I':
        return it.liftaddr(S, one)
    return one(S)


def fmtkind(it, t):
    k = it.tk(t)
    if it.T.get(t, {}).get('to') in ('char', 'signed char', 'unsigned char') or k == 'str' or t in ('char', 'signed char', 'unsigned char'):
        return 'str'
    return k if k in ('float', 'bool') else 'int'


def m_shift_stream(it, e, c):
    S = c.A(0)
    v = manipulate(it, e, S, c.args[1], c.pt[1] if len(c.pt) > 1 else '')
    if v is not None:
        return S, v
    v = c.V(1)
    k = it.tk(c.ty(1))
    if k in ('ptr', 'arr') and it.T.get(c.ty(1), {}).get('to') in ('char', 'signed char', 'unsigned char'):
        v = strof(it, v)
    elif k == 'str':
        pass
    elif k == 'zzp':
        v = tostr(rep(v))
    elif k == 'ptr' and it.T.get(c.ty(1), {}).get('to') == '__mpz_struct':
        v = tostr(it.read(v, '__mpz_struct'))
    else:
        v = tostr(v)
    return S, formatted(it, S, v, fmtkind(it, c.ty(1)), e)


def out(it, S, v, t):
    def one(z):
        if z.op == 'optr' and z.a[0].a[0] == 'global' and z.a[0].a[1].startswith('std::'):
            if it.textout:
                k = (z.a[0], (TEXT,))
                it.S.m[k] = scatl(it.S.m.get(k, sconst(b'')), v)
            return VOID
        if z.op in ('badread', 'dead'):
            return VOID
        old = it.read(z, t)
        it.write(z, scatl(old, v), t)
        return VOID
    each(it, S, one)
    return S


def scatl(a, b):
    return lift('scat', lambda x, y: scat(x, y), a, b) if (a.op == 'I' or b.op == 'I') else scat(a, b)


STREAMT = 'std::basic_ostream<char, std::char_traits<char>>'


def m_op(op):
    def f(it, e, c):
        n = c.n()
        if n == 1:
            v = c.V(0)
            k = it.tk(c.ty(0))
            if op == '-':
                if k == 'poly':
                    return lamfun(lambda i: neg(rd(v, i)))
                if k == 'vec':
                    return vec(vlen(v), lamfun(lambda i: neg(rd(varr(v), i))))
                return neg(v)
            if op in ('++', '--'):
                nv = add(v, ONE if op == '++' else num(-1))
                it.write(c.A(0), nv, c.ty(0))
                return c.A(0) if e.get('lv') else nv
            return NotImplemented
        k0 = it.tk(c.ty(0))
        if op == '<<' and k0 == 'stream':
            S, v = m_shift_stream(it, e, c)
            return out(it, S, v, c.ty(0))
        k1 = it.tk(c.ty(1))
        if op in ('++', '--'):
            v = c.V(0)
            it.write(c.A(0), add(v, ONE if op == '++' else num(-1)), c.ty(0))
            return v
        if op in ('==', '!='):
            a, b = c.V(0), c.V(1)
            if k0 == 'str' or k1 == 'str':
                if k0 != 'str':
                    a = strof(it, a)
                if k1 != 'str':
                    b = strof(it, b)
            r = eqvals(it, a, b, k0)
            return r if op == '==' else NOT(r)
        if op in ('<', '>', '<=', '>='):
            a, b = c.V(0), c.V(1)
            if k0 in ('zz', 'int', 'zzp', 'mpz', 'iter') or k1 == 'zz':
                return {'<': lt(a, b), '>': lt(b, a), '<=': le(a, b), '>=': le(b, a)}[op]
            return atom(app('cmp' + op, a, b))
        if op == '+' and (k0 == 'str' or k1 == 'str'):
            a, b = c.V(0), c.V(1)
            if k0 != 'str':
                a = strof(it, a) if k0 in ('ptr', 'arr') else app('chr', a)
            if k1 != 'str':
                b = strof(it, b) if k1 in ('ptr', 'arr') else app('chr', b)
            return scatl(a, b)
        a, b = c.V(0), c.V(1)
        if 'poly' in (k0, k1):
            return polyop(op, a, b, k0, k1)
        if 'vec' in (k0, k1):
            if k0 == 'vec' and k1 == 'vec' and op in '+-':
                g = add if op == '+' else sub
                return lift('vecop' + op, lambda x, y: vec(vlen(x), lamfun(lambda i: g(rd(varr(x), i), rd(varr(y), i)))), a, b)
            return app('vecop' + op, a, b)
        if k0 in ('zz', 'zzp', 'int', 'mpz', 'iter', 'ptr') and k1 in ('zz', 'zzp', 'int', 'mpz', 'iter', 'ptr'):
            if op in ('/', '%'):
                it.ev('divide', e, den=b)
            if k0 == 'zzp' or k1 == 'zzp':
                a, b = (a if k0 == 'zzp' else modp(a)), (b if k1 == 'zzp' else modp(b))
                return arith2(op, a, b, 'zzp')
            return arith2(op, a, b, 'zz')
        return NotImplemented
    return f


def eqvals(it, a, b, k):
    if k in ('vec', 'poly', 'vrec'):
        if a is b:
            return TRUE
        return atom(app('eqv', *sorted((a, b), key=lambda t: t.id)))
    return eq(a, b)


for _op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '==', '!=', '<', '>', '<=', '>=', '++', '--'):
    for _ns in ('NTL::', 'std::', 'std::__cxx11::', '', '__gnu_cxx::', 'std::chrono::'):
        FREE[_ns + 'operator' + _op] = m_op(_op)


def m_opassign(op):
    def f(it, e, c):
        a, b = c.V(0), c.V(1)
        k0, k1 = it.tk(c.ty(0)), it.tk(c.ty(1))
        if 'poly' in (k0, k1):
            r = polyop(op, a, b, k0, k1)
        elif k0 == 'vec':
            g = {'+': add, '-': sub}.get(op)
            if g is None or k1 != 'vec':
                r = app('vecop' + op, a, b)
            else:
                r = lift('vecop' + op, lambda x, y: vec(vlen(x), lamfun(lambda i: g(rd(varr(x), i), rd(varr(y), i)))), a, b)
        else:
            if k0 == 'zzp' and k1 != 'zzp':
                b = modp(b)
            r = arith2(op, a, b, k0)
        it.write(c.A(0), r, c.ty(0))
        return c.A(0) if e.get('lv') else r
    return f


for _op in ('+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'):
    FREE['NTL::operator' + _op + '='] = m_opassign(_op)


def m_proc3(op):
    """NTL procedure x = a op b"""
    def f(it, e, c):
        if c.n() != 3:
            if c.n() == 2 and e['t'] != 'void':
                k0, k1 = it.tk(c.ty(0)), it.tk(c.ty(1))
                if 'poly' in (k0, k1):
                    return polyop(op, c.V(0), c.V(1), k0, k1)
                return arith2(op, c.V(0), c.V(1), k0)
            return NotImplemented
        a, b = c.V(1), c.V(2)
        k0, k1, k2 = it.tk(c.ty(0)), it.tk(c.ty(1)), it.tk(c.ty(2))
        if k0 == 'poly':
            r = polyop(op, a, b, k1, k2)
        elif k0 == 'vec':
            g = {'+': add, '-': sub}.get(op)
            if g is None:
                return NotImplemented
            r = lift('vecop' + op, lambda x, y: vec(vlen(x), lamfun(lambda i: g(rd(varr(x), i), rd(varr(y), i)))), a, b)
        else:
            if k0 == 'zzp':
                a, b = (a if k1 == 'zzp' else modp(a)), (b if k2 == 'zzp' else modp(b))
            r = arith2(op, a, b, k0)
        it.write(c.A(0), r, c.ty(0))
        return VOID
    return f


for _n, _op in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/'), ('rem', '%'), ('LeftShift', '<<'), ('RightShift', '>>')):
    FREE['NTL::' + _n] = m_proc3(_op)


@free('NTL::negate')
def m_neg(it, e, c):
    v = c.V(1)
    k = it.tk(c.ty(0))
    it.write(c.A(0), lamfun(lambda i: neg(rd(v, i))) if k == 'poly' else neg(v), c.ty(0))
    return VOID


@free('NTL::clear')
def m_clear(it, e, c):
    it.write(c.A(0), it.default(c.ty(0)) if it.tk(c.ty(0)) != 'vec' else app('zerovec', c.V(0)), c.ty(0))
    return VOID


@free('NTL::set')
def m_set(it, e, c):
    it.write(c.A(0), ONE if it.tk(c.ty(0)) != 'poly' else st(raw('acon', ZERO), ZERO, ONE), c.ty(0))
    return VOID


@free('NTL::swap', 'std::swap')
def m_swap(it, e, c):
    a, b = c.V(0), c.V(1)
    it.write(c.A(0), b, c.ty(0))
    it.write(c.A(1), a, c.ty(1))
    return VOID


@free('NTL::power2_ZZ')
def m_p2(it, e, c):
    return zshl(ONE, c.V(0))


@free('NTL::power2')
def m_p2b(it, e, c):
    it.write(c.A(0), zshl(ONE, c.V(1)), c.ty(0))
    return VOID


@free('NTL::trunc_ZZ', 'NTL::trunc_long', 'NTL::bit', 'NTL::power_ZZ', 'NTL::power', 'NTL::abs', 'NTL::GCD', 'NTL::weight', 'NTL::LeadCoeff', 'NTL::inv', 'NTL::diff', 'NTL::reverse', 'NTL::SqrRoot')
def m_pure(it, e, c):
    if e['t'] == 'void':
        return NotImplemented
    return opaque_result(it, e, 'ntl:' + opname(e['fn']).split('::')[-1], c.all())


# ---- bytes
@free('NTL::BytesFromZZ')
def m_bfz(it, e, c):
    p, z, n = c.V(0), c.V(1), c.V(2)
    it.ev('bytes', e, ptr=p, n=n, mode='w', callee=e['fn'])
    writebytes(it, p, n, lambda i: byteof(z, i), e)
    return VOID


@free('NTL::ZZFromBytes')
def m_zfb(it, e, c):
    if c.n() == 2:
        p, n = c.V(0), c.V(1)
    else:
        p, n = c.V(1), c.V(2)
    it.ev('bytes', e, ptr=p, n=n, mode='r', callee=e['fn'])

    def one(z):
        a, o = bytesat(it, z)
        return frombytes(a, o, n)
    v = it.liftaddr(p, one)
    if c.n() == 2:
        return v
    it.write(c.A(0), v, c.ty(0))
    return VOID


@free('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy')
def m_memcpy(it, e, c):
    d, s, n = c.V(0), c.V(1), c.V(2)
    it.ev('bytes', e, ptr=s, n=n, mode='r', callee='memcpy')
    it.ev('bytes', e, ptr=d, n=n, mode='w', callee='memcpy')

    def rdb(i):
        def one(z):
            a, o = bytesat(it, z)
            return rd(a, add(o, i))
        return it.liftaddr(s, one)
    memo = {}

    def f(i):
        return rdb(i)
    # snapshot the source first
    src = lamfun(f)
    writebytes(it, d, n, lambda i: rd(src, i), e)
    return d


@free('memset', 'std::memset', '__builtin_memset')
def m_memset(it, e, c):
    d, x, n = c.V(0), c.V(1), c.V(2)
    it.ev('bytes', e, ptr=d, n=n, mode='w', callee='memset')
    b = trunc(x, 8)
    writebytes(it, d, n, lambda i: b, e)
    return d


@free('strcpy', 'std::strcpy')
def m_strcpy(it, e, c):
    d, s = c.V(0), c.V(1)
    sv = strof(it, s)
    n = add(vlen(sv), ONE)
    it.ev('cstr', e, ptr=s, s=sv, callee='strcpy')
    it.ev('bytes', e, ptr=d, n=n, mode='w', callee='strcpy')
    writebytes(it, d, n, lambda i: schar(sv, i), e)
    return d


@free('strncpy', 'std::strncpy')
def m_strncpy(it, e, c):
    d, s, n = c.V(0), c.V(1), c.V(2)
    sv = strof(it, s)
    it.ev('bytes', e, ptr=d, n=n, mode='w', callee='strncpy')
    writebytes(it, d, n, lambda i: ite(lt(i, vlen(sv)), schar(sv, i), ZERO), e)
    return d


@free('strlen', 'std::strlen')
def m_strlen(it, e, c):
    p = c.V(0)
    it.ev('cstr', e, ptr=p, s=None, callee='strlen')

    def one(z):
        return vlen(strof(it, z))
    return it.liftaddr(p, one)


@free('strnlen')
def m_strnlen(it, e, c):
    p, n = c.V(0), c.V(1)
    it.ev('bytes', e, ptr=p, n=n, mode='r', callee='strnlen')

    def one(z):
        a, o = bytesat(it, z)
        return strnlen(a, o, n)
    return it.liftaddr(p, one)


def strnlen(arr, off, n):
    return lift('strnlen', _strnlen, arr, off, n)


def _strnlen(arr, off, n):
    s = cstr(arr, off)
    if s.op not in ('cstr', 'I'):
        l = vlen(s)
        if PROVER.prove_le0(sub(l, n)):
            return l
        return ite(le(l, n), l, n)
    return raw('strnlen', arr, off, n)


BUILD['strnlen'] = strnlen


@free('memchr', 'std::memchr')
def m_memchr(it, e, c):
    p, ch, n = c.V(0), c.V(1), c.V(2)
    it.ev('bytes', e, ptr=p, n=n, mode='r', callee='memchr')
    if ch is ZERO:
        def one(z):
            a, o = bytesat(it, z)
            k = strnlen(a, o, n)
            return ite(lt(k, n), padd(z, k), NULL)
        return it.liftaddr(p, one)
    return app('memchr', p, ch, n)


@free('strcmp', 'std::strcmp')
def m_strcmp(it, e, c):
    a, b = strof(it, c.V(0)), strof(it, c.V(1))
    return ite(eq(a, b), ZERO, app('strcmp', a, b))


@free('std::to_string')
def m_tostring(it, e, c):
    return tostr(c.V(0))


@free('std::min', 'std::max', 'NTL::min', 'NTL::max')
def m_minmax(it, e, c):
    a, b = c.V(0), c.V(1)
    mn = opname(e['fn']).endswith('min')
    cnd = lt(b, a) if mn else lt(a, b)
    v = ite(cnd, b, a)
    if e.get('lv'):
        return totemp(it, e, v, it.strip(e['t']))
    return v


@free('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const')
def m_move(it, e, c):
    if e.get('lv') or it.T.get(e['t'], {}).get('k') == 'ref' or e.get('xv'):
        return c.A(0)
    return c.V(0)


@free('std::copy', 'std::copy_n', 'std::fill', 'std::fill_n', 'std::move_backward')
def m_copy(it, e, c):
    nm = opname(e['fn'])
    vs = c.all()
    if nm == 'std::copy':
        pa, oa = psplit(vs[0])
        pb, ob = psplit(vs[1])
        if pa is not pb:
            return NotImplemented
        n, s, d = sub(ob, oa), vs[0], vs[2]
    elif nm == 'std::copy_n':
        s, n, d = vs[0], vs[1], vs[2]
    elif nm == 'std::fill':
        pa, oa = psplit(vs[0])
        pb, ob = psplit(vs[1])
        if pa is not pb:
            return NotImplemented
        n = sub(ob, oa)
        it.ev('bytes', e, ptr=vs[0], n=n, mode='w', callee=nm)
        writeelems(it, vs[0], n, lambda i: vs[2], e)
        return VOID
    else:
        it.ev('bytes', e, ptr=vs[0], n=vs[1], mode='w', callee=nm)
        writeelems(it, vs[0], vs[1], lambda i: vs[2], e)
        return padd(vs[0], vs[1])
    it.ev('bytes', e, ptr=s, n=n, mode='r', callee=nm)
    it.ev('bytes', e, ptr=d, n=n, mode='w', callee=nm)
    a, o = elemsat(it, s)
    writeelems(it, d, n, lambda i: rd(a, add(o, i)), e)
    return padd(d, n)


@free('std::make_pair')
def m_mkpair(it, e, c):
    return rec({'first': c.V(0), 'second': c.V(1)})


@free('std::make_unique')
def m_mkuniq(it, e, c):
    t = it.strip(e['t'])
    et = (it.T.get(t, {}).get('args') or ['int'])[0]
    r = raw('region', 'heap', it.uid(e), it.F.uid, ctx(it))
    it.decls.add(r)
    if et.endswith(']'):
        et = it.T[et]['to'] if et in it.T else et.rsplit('[', 1)[0].strip()
        n = c.V(0)
        z = it.zero(et)
        it.cellset(r, (), raw('acon', z) if z is not UNINIT else UNINIT)
        it.cellset(r, ('#n',), n)
        it.ev('alloc', e, region=r, n=n, arr=True, et=et, nothrow=False, managed=True)
        return raw('ptr', r, (), (), 'a')
    it.dynof[(r, ())] = et
    A = raw('optr', r, (), ())
    it.initdefault(A, et)
    it.ev('alloc', e, region=r, n=ONE, arr=False, et=et, nothrow=False, managed=True)
    return A


@free('std::addressof', 'std::__addressof')
def m_addrof(it, e, c):
    return it.addrof(c.A(0))


@free('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::data', 'std::size')
def m_begin(it, e, c):
    nm = opname(e['fn'])
    k = it.tk(c.ty(0))
    A = c.A(0)
    if k == 'arr':
        n = it.T[c.ty(0)].get('n')
        p = it.liftaddr(A, lambda z: raw('ptr', z.a[0], z.a[1], z.a[2], 'a') if z.op == 'optr' else z)
        if nm.endswith('size'):
            return num(n)
        return padd(p, num(n)) if 'end' in nm else p
    return NotImplemented


@free('std::distance')
def m_dist(it, e, c):
    return sub(c.V(1), c.V(0))


@free('std::advance')
def m_adv(it, e, c):
    it.write(c.A(0), advance(c.V(0), c.V(1)), c.ty(0))
    return VOID


@free('std::next', 'std::prev')
def m_next(it, e, c):
    n = c.V(1) if c.n() > 1 else ONE
    return advance(c.V(0), n if 'next' in e['fn'] else neg(n))


# ---- NTL polynomials
@free('NTL::SetCoeff')
def m_setcoeff(it, e, c):
    f, i = c.V(0), c.V(1)
    v = ONE if c.n() == 2 else (c.V(2) if it.tk(c.ty(2)) == 'zzp' else modp(c.V(2)))
    it.ev('setcoeff', e, idx=i)
    it.write(c.A(0), st(f, i, v), c.ty(0))
    return VOID


@free('NTL::coeff', 'NTL::GetCoeff')
def m_coeff(it, e, c):
    if c.n() == 3:
        it.write(c.A(0), rd(c.V(1), c.V(2)), c.ty(0))
        return VOID
    v = rd(c.V(0), c.V(1))
    return totemp(it, e, v, 'NTL::ZZ_p') if e.get('lv') else v


@free('NTL::ConstTerm')
def m_ct(it, e, c):
    v = rd(c.V(0), ZERO)
    return totemp(it, e, v, 'NTL::ZZ_p') if e.get('lv') else v


@free('NTL::deg')
def m_deg(it, e, c):
    return app('deg', c.V(0))


@free('NTL::MakeMonic')
def m_monic(it, e, c):
    it.write(c.A(0), app('monic', c.V(0)), c.ty(0))
    return VOID


@free('NTL::eval')
def m_eval(it, e, c):
    if c.n() == 2:
        f, x = c.V(0), c.V(1)
        if it.tk(c.ty(1)) == 'vec':
            return lift(('evalv', f.id), lambda y: vec(vlen(y), lamfun(lambda i: peval(f, rd(varr(y), i)))), x)
        return peval(f, x)
    f, x = c.V(1), c.V(2)
    if it.tk(c.ty(0)) == 'vec':
        v = lift('evalv%d' % f.id, lambda y: vec(vlen(y), lamfun(lambda i: peval(f, rd(varr(y), i)))), x)
    else:
        v = peval(f, x)
    it.write(c.A(0), v, c.ty(0))
    return VOID


def peval(f, x):
    return app('peval', f, x)


@free('NTL::interpolate')
def m_interp(it, e, c):
    if c.n() == 2:
        return interp(c.V(0), c.V(1))
    it.write(c.A(0), interp(c.V(1), c.V(2)), c.ty(0))
    return VOID


def interp(x, y):
    return lift('interp', lambda a, b: raw('interp', vlen(a), canonarr(a), canonarr(b)), x, y)


def canonarr(v):
    """the elements a vector of known length really has"""
    n = vlen(v)
    a = varr(v)
    i = fresh('ca', True)
    PROVER.push([neg(i), sub(add(i, ONE), n)])
    try:
        x = PROVER.simp(rd(a, i))
    finally:
        PROVER.pop()
    return eta(close(i, x))


def canonvec(v):
    return lift('canonvec', lambda x: raw('vec', vlen(x), canonarr(x)), v)


@free('NTL::BuildFromRoots')
def m_bfr(it, e, c):
    if c.n() == 1:
        return lift('roots', lambda a: raw('roots', vlen(a), canonarr(a)), c.V(0))
    it.write(c.A(0), lift('roots', lambda a: raw('roots', vlen(a), canonarr(a)), c.V(1)), c.ty(0))
    return VOID


@free('NTL::CanZass', 'NTL::berlekamp')
def m_fact(it, e, c):
    nm = opname(e['fn'])
    it.ev('factor', e, callee=nm, f=c.V(1) if c.n() >= 2 and e['t'] == 'void' else c.V(0))
    if e['t'] != 'void':
        return app('factors', c.V(0))
    it.write(c.A(0), app('factors', c.V(1)), c.ty(0))
    return VOID


@free('NTL::append')
def m_append(it, e, c):
    v, x = c.V(0), c.V(1)
    if it.tk(c.ty(1)) == 'vec' and it.tk(elemtype(it, c.ty(0))) != 'vec':
        it.write(c.A(0), lift('catv', catv, v, x), c.ty(0))
        return VOID
    it.write(c.A(0), push(v, x), c.ty(0))
    return VOID


def push(v, x):
    return lift('push', lambda a: vec(add(vlen(a), ONE), st(varr(a), vlen(a), x)), v) if v.op == 'I' and False else vec(add(vlen(v), ONE), st(varr(v), vlen(v), x))


def catv(a, b):
    n = vlen(a)
    return vec(add(n, vlen(b)), lamfun(lambda i: ite(lt(i, n), rd(varr(a), i), rd(varr(b), sub(i, n)))))


@free('NTL::VectorCopy')
def m_vcopy(it, e, c):
    return NotImplemented


# ---- GMP
def mp(it, c, i):
    return it.read(c.V(i), '__mpz_struct')


def mpset(it, c, i, v):
    it.write(c.V(i), v, '__mpz_struct')


def gmp3(f, ui):
    def g(it, e, c):
        a = mp(it, c, 1)
        b = c.V(2) if ui else mp(it, c, 2)
        mpset(it, c, 0, f(a, b))
        return VOID
    return g


for _n, _f in (('add', add), ('sub', sub), ('mul', mul), ('fdiv_q', fdiv), ('fdiv_r', fmod), ('mod', fmod), ('tdiv_q', fdiv), ('tdiv_r', fmod), ('and', band), ('ior', bor), ('xor', xor)):
    FREE['__gmpz_' + _n] = gmp3(_f, False)
    FREE['__gmpz_' + _n + '_ui'] = gmp3(_f, True)
FREE['__gmpz_mul_2exp'] = gmp3(lambda a, b: zshl(a, b), True)
FREE['__gmpz_fdiv_q_2exp'] = gmp3(lambda a, b: shr(a, b), True)
FREE['__gmpz_tdiv_q_2exp'] = gmp3(lambda a, b: shr(a, b), True)


@free('__gmpz_init')
def g_init(it, e, c):
    mpset(it, c, 0, ZERO)
    it.ev('mpzinit', e, ptr=c.V(0))
    return VOID


@free('__gmpz_clear')
def g_clear(it, e, c):
    it.ev('mpzclear', e, ptr=c.V(0))
    return VOID


@free('__gmpz_set')
def g_set(it, e, c):
    mpset(it, c, 0, mp(it, c, 1))
    return VOID


@free('__gmpz_set_ui', '__gmpz_set_si')
def g_setui(it, e, c):
    mpset(it, c, 0, c.V(1))
    return VOID


@free('__gmpz_init_set')
def g_initset(it, e, c):
    mpset(it, c, 0, mp(it, c, 1))
    it.ev('mpzinit', e, ptr=c.V(0))
    return VOID


@free('__gmpz_init_set_ui', '__gmpz_init_set_si')
def g_initsetui(it, e, c):
    mpset(it, c, 0, c.V(1))
    it.ev('mpzinit', e, ptr=c.V(0))
    return VOID


@free('__gmpz_ui_pow_ui')
def g_uipow(it, e, c):
    b, x = c.V(1), c.V(2)
    if b is num(2):
        v = zshl(ONE, x)
    else:
        v = app('pow', b, x)
    mpset(it, c, 0, v)
    return VOID


@free('__gmpz_pow_ui')
def g_powui(it, e, c):
    mpset(it, c, 0, app('pow', mp(it, c, 1), c.V(2)))
    return VOID


@free('__gmpz_fdiv_ui', '__gmpz_tdiv_ui')
def g_fdivui(it, e, c):
    it.ev('divide', e, den=c.V(1))
    return fmod(mp(it, c, 0), c.V(1))


@free('__gmpz_get_ui')
def g_getui(it, e, c):
    v = mp(it, c, 0)
    return lift('low64', lambda z: z if z.op == 'n' and 0 <= z.a[0] < 2 ** 64 else mark(raw('low64', z)), v)


@free('__gmpz_sizeinbase')
def g_sib(it, e, c):
    if c.V(1) is num(2):
        v = mp(it, c, 0)
        return lift('sib', lambda z: ite(eq(z, ZERO), ONE, numbits(z)), v)
    b = c.V(1)
    if b.op == 'n' and b.a[0] in (4, 8, 16, 32, 64, 128, 256):
        d = b.a[0].bit_length() - 1
        return lift('sib%d' % d, lambda z: ite(eq(z, ZERO), ONE, fdiv(add(numbits(z), num(d - 1)), num(d))), mp(it, c, 0))
    return app('sizeinbase', mp(it, c, 0), c.V(1))


@free('__gmpz_cmp')
def g_cmp(it, e, c):
    a, b = mp(it, c, 0), mp(it, c, 1)
    return ite(eq(a, b), ZERO, ite(lt(a, b), num(-1), ONE))


@free('__gmpz_cmp_ui', '__gmpz_cmp_si')
def g_cmpui(it, e, c):
    a, b = mp(it, c, 0), c.V(1)
    return ite(eq(a, b), ZERO, ite(lt(a, b), num(-1), ONE))


@free('__gmpz_export')
def g_export(it, e, c):
    p, cnt, order, size, endian, nails = [c.V(i) for i in range(6)]
    z = mp(it, c, 6)
    n = ite(eq(z, ZERO), ZERO, numbytes(z))
    it.ev('bytes', e, ptr=p, n=n, mode='w', callee='mpz_export')
    it.ev('export', e, order=order, size=size, endian=endian, nails=nails, z=z)
    if size is ONE and nails is ZERO:
        if order is ONE:
            writebytes(it, p, n, lambda i: byteof(z, sub(sub(n, ONE), i)), e)
        else:
            writebytes(it, p, n, lambda i: byteof(z, i), e)
    else:
        writebytes(it, p, n, lambda i: app('exportbyte', z, order, size, endian, nails, i), e)

    def one(q):
        if q is not NULL:
            it.write(q, n, 'unsigned long')
        return VOID
    each(it, cnt, one)
    return p


@free('__gmpz_import')
def g_import(it, e, c):
    cnt, order, size, endian, nails = [c.V(i) for i in range(1, 6)]
    p = c.V(6)
    it.ev('bytes', e, ptr=p, n=mul(cnt, size), mode='r', callee='mpz_import')

    def one(z):
        a, o = bytesat(it, z)
        if size is ONE and order is num(-1):
            return frombytes(a, o, cnt)
        if size is ONE and order is ONE:
            return frombytes(lamfun(lambda i: rd(a, add(o, sub(sub(cnt, ONE), i)))), ZERO, cnt)
        return app('import', a, o, cnt, order, size, endian)
    mpset(it, c, 0, it.liftaddr(p, one))
    return VOID


# ---- Crypto++
@meth(('other', 'CalculateDigest'))
def x_digest(it, e, c):
    d, s, n = c.V(0), c.V(1), c.V(2)
    obj = c.O
    digest(it, e, obj, d, s, n)
    return VOID


# a hash fed in parts: what was fed so far is kept in the object
PENDING = '#:fed'


def fedkey(it, o):
    if o.op == 'optr':
        return (o.a[0], o.a[1] + (PENDING,)) if not o.a[2] else None
    return (it.derefregion(o), (PENDING,)) if o.op in ('cell', 'ptr', 'sym') else None


@meth(('other', 'Update'))
def x_update(it, e, c):
    s, n = c.V(0), c.V(1)
    k = fedkey(it, c.O)
    if k is None:
        return NotImplemented
    it.ev('bytes', e, ptr=s, n=n, mode='r', callee='Update')
    it.S.m[k] = fedmore(fed(it, k), it.liftaddr(s, lambda z: bytestr(*bytesat(it, z), n)), raw('cell', *k))
    return VOID


def fed(it, k):
    return it.S.m.get(k, raw('cell', *k))


def fedmore(old, x, none):
    return lift(('fed', none.id), lambda o, y: y if o is none else scatl(o, y), old, x)


@meth(('other', 'Restart'))
def x_restart(it, e, c):
    k = fedkey(it, c.O)
    if k is None:
        return NotImplemented
    it.S.m[k] = raw('cell', *k)
    return VOID


@meth(('other', 'Final'), ('other', 'TruncatedFinal'))
def x_final(it, e, c):
    k = fedkey(it, c.O)
    if k is None or e['mname'] != 'Final':
        return NotImplemented
    digest(it, e, c.O, c.V(0), None, None)
    return VOID


@meth(('other', 'DigestSize'))
def x_size(it, e, c):
    return each(it, c.O, lambda o: algorithm(it, o)[2])


def algorithm(it, o):
    cls = it.dynof.get((o.a[0], o.a[1])) if o.op == 'optr' else None
    if cls in DIGEST:
        return cls, raw('alg', cls), num(DIGEST[cls])
    return cls, raw('algof', o), mark(raw('digestsize', o))


DIGEST = {'CryptoPP::SHA1': 20, 'CryptoPP::SHA224': 28, 'CryptoPP::SHA256': 32, 'CryptoPP::SHA384': 48, 'CryptoPP::SHA512': 64}


def digest(it, e, obj, d, s, n):
    if s is not None:
        it.ev('bytes', e, ptr=s, n=n, mode='r', callee='CalculateDigest')

    def one(o):
        cls, alg, size = algorithm(it, o)
        k = fedkey(it, o)
        none = raw('cell', *k) if k is not None else ZERO
        old = fed(it, k) if k is not None else ZERO
        if old is not none:
            it.S.m[k] = none
        it.ev('bytes', e, ptr=d, n=size, mode='w', callee='CalculateDigest')
        it.ev('digest', e, obj=o, dst=d, size=size, cls=cls)

        def src(z):
            a, off = bytesat(it, z)
            i = fresh('dg', True)
            PROVER.push([neg(i), sub(add(i, ONE), n)])
            try:
                x = PROVER.simp(rd(a, add(off, i)))
            finally:
                PROVER.pop()
            return raw('digest', alg, n, close(i, x))

        def whole(v):
            if v is none:
                return raw('digest', alg, ZERO, lamfun(lambda i: ZERO))
            if v.op == 'bytestr':
                return raw('digest', alg, v.a[1], v.a[0])
            return raw('digest', alg, vlen(v), lamfun(lambda i: schar(v, i)))
        if s is None:
            H = lift(('whole', alg.id, none.id), whole, old)
        elif old is none:
            H = it.liftaddr(s, src)
        else:
            H = lift(('whole', alg.id, none.id), whole, fedmore(old, it.liftaddr(s, lambda z: bytestr(*bytesat(it, z), n)), none))
        writebytes(it, d, size, lambda i: byteof(H, i), e)
        return VOID
    each(it, obj, one)


@meth(('other', 'join'), ('other', 'Attach'), ('other', 'Put'), ('other', 'MessageEnd'), ('other', 'flush'))
def x_noeffect(it, e, c):
    it.ev('given', e, name=e['mname'], args=c.all())
    if e['t'] == 'void':
        return VOID
    return opaque_result(it, e, 'x:' + e['mname'], c.all())


# ---- containers
@meth(('vec', 'length'), ('vec', 'size'), ('str', 'length'), ('str', 'size'))
def v_size(it, e, c):
    return vlen(vecval(it, c))


def vecval(it, c):
    v = c.ov()
    if it.tk(c.ot) == 'vrec':
        return getf(v, '#base')
    return v


def vecset(it, c, v):
    if it.tk(c.ot) == 'vrec':
        it.write(it.fieldaddr(c.O, '#base', c.ot), v, 'std::vector')
        return
    c.oset(v)


def vecaddr(it, c):
    """address prefix of the container"""
    A = c.O
    if it.tk(c.ot) == 'vrec':
        A = it.fieldaddr(A, '#base', c.ot)
    return A


def vetype(it, c):
    t = it.strip(c.ot)
    if it.tk(t) == 'vrec':
        for b in it.p.records.get(t, {}).get('bases', []):
            if it.tk(b) == 'vec':
                t = b
    return elemtype(it, t)


@meth(('vec', 'empty'), ('str', 'empty'))
def v_empty(it, e, c):
    return eq(vlen(vecval(it, c)), ZERO)


@meth(('vec', 'SetLength'), ('vec', 'resize'))
def v_setlen(it, e, c):
    n = c.V(0)
    fill = c.V(1) if c.n() > 1 else None
    vecset(it, c, grow(it, vecval(it, c), n, vetype(it, c), fill))
    return VOID


@meth(('str', 'resize'))
def s_resize(it, e, c):
    c.oset(app('resized', c.ov(), *c.all()))
    return VOID


@meth(('vec', 'assign'))
def v_assign(it, e, c):
    if c.n() == 2 and it.tk(c.ty(0)) == 'int':
        vecset(it, c, vec(c.V(0), raw('acon', c.V(1))))
    elif c.n() == 2:
        vecset(it, c, rangevec(it, c.V(0), c.V(1)))
    else:
        return NotImplemented
    return VOID


@meth(('vec', 'kill'), ('vec', 'clear'))
def v_kill(it, e, c):
    vecset(it, c, vec(ZERO, UNINIT))
    return VOID


@meth(('str', 'clear'))
def s_clear(it, e, c):
    c.oset(sconst(b''))
    return VOID


@meth(('vec', 'reserve'), ('str', 'reserve'), ('vec', 'shrink_to_fit'), ('vec', 'SetMaxLength'), ('map', 'reserve'))
def v_reserve(it, e, c):
    c.all()
    return VOID


@meth(('vec', 'push_back'), ('vec', 'append'), ('vec', 'emplace_back'))
def v_push(it, e, c):
    x = c.V(0) if c.n() else it.default(vetype(it, c))
    it.ev('push', e, addr=c.O, val=x)
    vecset(it, c, push(vecval(it, c), x))
    return VOID if e['t'] == 'void' else c.O


@meth(('vec', 'pop_back'))
def v_pop(it, e, c):
    v = vecval(it, c)
    it.ev('vindex', e, vec=c.O, idx=sub(vlen(v), ONE), len=vlen(v))
    vecset(it, c, vec(sub(vlen(v), ONE), varr(v)))
    return VOID


@meth(('str', 'push_back'))
def s_push(it, e, c):
    c.oset(scatl(c.ov(), app('chr', c.V(0))))
    return VOID


def eptr(it, A, kd):
    def one(z):
        if z.op == 'optr':
            return raw('ptr', z.a[0], z.a[1], z.a[2], kd)
        if z.op in ('dead', 'badread', 'uninit') or z is NULL:
            return raw('badread')
        b, o = psplit(z)
        if b.op == 'ptr':
            return raw('ptr', b.a[0], b.a[1], b.a[2] + (('i' + b.a[3], o),), kd)
        return raw('ptr', it.derefregion(b), (), (('ia', o),), kd)
    return it.liftaddr(A, one)


@meth(('vec', 'operator[]'), ('vec', 'at'), ('vec', 'operator()'), ('vec', 'RawGet'))
def v_index(it, e, c):
    i = c.V(0)
    if e['mname'] == 'operator()':
        i = sub(i, ONE)
    A = vecaddr(it, c)
    it.ev('vindex', e, vec=A, idx=i, len=vlen(vecval(it, c)) if not it.mute else None)
    if not e.get('lv') and it.tk(it.strip(e['t'])) == 'bool':
        return it.read(padd(eptr(it, A, 'v'), i), 'bool')
    return padd(eptr(it, A, 'v'), i)


@meth(('vec', 'put'), ('vec', 'get'))
def v_putget(it, e, c):
    i = c.V(0)
    A = padd(eptr(it, vecaddr(it, c), 'v'), i)
    et = vetype(it, c)
    if e['mname'] == 'get':
        return it.read(A, et) if not e.get('lv') else A
    it.write(A, c.V(1), et)
    return VOID


@meth(('vec', 'front'), ('vec', 'back'))
def v_front(it, e, c):
    n = vlen(vecval(it, c))
    i = ZERO if e['mname'] == 'front' else sub(n, ONE)
    it.ev('vindex', e, vec=vecaddr(it, c), idx=i, len=n)
    A = padd(eptr(it, vecaddr(it, c), 'v'), i)
    if not e.get('lv') and it.tk(it.strip(e['t'])) == 'bool':
        return it.read(A, 'bool')
    return A


@meth(('vec', 'data'), ('vec', 'begin'), ('vec', 'cbegin'), ('vec', 'elts'))
def v_data(it, e, c):
    return eptr(it, vecaddr(it, c), 'v')


@meth(('vec', 'end'), ('vec', 'cend'))
def v_end(it, e, c):
    return padd(eptr(it, vecaddr(it, c), 'v'), vlen(vecval(it, c)))


@meth(('vec', 'insert'), ('vec', 'emplace'))
def v_insert(it, e, c):
    v = vecval(it, c)
    pos = c.V(0)
    pp, po = psplit(pos)
    beg = v_data(it, e, c)
    if e['t'] == 'void' or (pp is not psplit(beg)[0] and pos.op != 'I'):
        return NotImplemented
    o = sub0(pos, beg)
    if o is None:
        return NotImplemented
    n = vlen(v)
    if c.n() == 3 and it.tk(c.ty(1)) == 'int' and e['mname'] == 'insert':
        k, x = c.V(1), c.V(2)
        put = lambda i: x
    elif c.n() == 3:
        w = rangevec(it, c.V(1), c.V(2))
        if o is n:
            vecset(it, c, lift('catv', catv, v, w))
            return pos
        k = vlen(w)
        put = lambda i: rd(varr(w), i)
    elif c.n() == 2 and it.tk(c.ty(1)) == it.tk(vetype(it, c)):
        x = c.V(1)
        it.ev('push', e, addr=c.O, val=x)
        if o is n:
            vecset(it, c, push(v, x))
            return pos
        k = ONE
        put = lambda i: x
    else:
        return NotImplemented
    a = varr(v)
    vecset(it, c, vec(add(n, k), lamfun(lambda i: ite(lt(i, o), rd(a, i), ite(lt(i, add(o, k)), put(sub(i, o)), rd(a, sub(i, k)))))))
    return pos


def sub0(p, q):
    """offset of p from q, when both point into one thing"""
    if p.op == 'I':
        x, y = sub0(p.a[1], q), sub0(p.a[2], q)
        return None if x is None or y is None else ite(atom(p.a[0]), x, y)
    a, o = psplit(p)
    b, o2 = psplit(q)
    return sub(o, o2) if a is b else None


@meth(('vec', 'erase'))
def v_erase(it, e, c):
    v = vecval(it, c)
    beg = v_data(it, e, c)
    o = sub0(c.V(0), beg)
    z = sub0(c.V(1), beg) if c.n() > 1 else (add(o, ONE) if o is not None else None)
    if o is None or z is None:
        return NotImplemented
    k = sub(z, o)
    a = varr(v)
    vecset(it, c, vec(sub(vlen(v), k), lamfun(lambda i: ite(lt(i, o), rd(a, i), rd(a, add(i, k))))))
    return padd(beg, o)


@meth(('vec', 'capacity'), ('str', 'capacity'))
def v_capacity(it, e, c):
    v = vecval(it, c) if it.tk(c.ot) in ('vec', 'vrec') else c.ov()
    return lift('capacity', lambda x: add(vlen(x), mark(raw('spare', x))), v)


@meth(('vec', 'operator='), ('str', 'operator='), ('zz', 'operator='), ('zzp', 'operator='), ('poly', 'operator='), ('map', 'operator='), ('iter', 'operator='), ('uptr', 'operator='), ('fun', 'operator='), ('vrec', 'operator='), ('mpz', 'operator='))
def o_assign(it, e, c):
    v = c.V(0)
    k, sk = it.tk(c.ot), it.tk(c.ty(0))
    if k == 'str':
        if sk in ('ptr', 'arr'):
            p = v
            it.ev('cstr', e, ptr=p, s=None, callee='string=')
            v = strof(it, v)
        elif sk == 'int':
            v = app('chr', v)
    elif k == 'zzp' and sk != 'zzp':
        v = modp(v)
    elif k == 'zz' and sk == 'zzp':
        v = rep(v)
    elif k == 'poly' and sk != 'poly':
        v = st(raw('acon', ZERO), ZERO, modp(v))
    elif k == 'vec' and sk == 'vrec':
        v = getf(v, '#base')
    elif k == 'vec' and v.op in ('st', 'lam', 'acon'):
        v = vec(num(len(c.args[0].get('es', []))), v)
    it.ev('assign', e, addr=c.O, val=v)
    c.oset(v)
    return c.O


@meth(('other', 'operator='))
def o_assign_other(it, e, c):
    c.all()
    return c.O


@meth(('vec', 'swap'), ('str', 'swap'), ('zz', 'swap'), ('map', 'swap'), ('poly', 'swap'), ('zzp', 'swap'), ('uptr', 'swap'))
def o_swap(it, e, c):
    a, b = c.ov(), c.V(0)
    c.oset(b)
    it.write(c.A(0), a, c.ty(0))
    return VOID


# ---- times and durations are numbers of their unit
def ticks(it, t):
    """units per second of a duration or time point"""
    d = it.T.get(it.strip(t), {})
    args = d.get('args') or []
    if d.get('tmpl') == 'std::chrono::time_point':
        return ticks(it, args[1])
    if len(args) < 2:
        return None
    x = args[1].replace('std::ratio<', '').replace('>', '').split(',')
    n, m = int(x[0]), int(x[1]) if len(x) > 1 else 1
    return m // n if m % n == 0 else None


def rescale(it, v, a, b):
    x, y = ticks(it, a), ticks(it, b)
    if x is None or y is None:
        return app('x:rescale', v)
    if y % x == 0:
        return mul(num(y // x), v)
    if x % y == 0:
        return lift('tdiv%d' % (x // y), lambda z: app('div', z, num(x // y)) if z.op != 'n' else num(abs(z.a[0]) // (x // y) * (1 if z.a[0] >= 0 else -1)), v)
    return app('x:rescale', v)


@free('std::chrono::duration_cast', 'std::chrono::time_point_cast')
def m_durcast(it, e, c):
    return rescale(it, c.V(0), c.ty(0), e['t'])


def dur2(it, c):
    """both operands in the finer unit"""
    x, y = c.V(0), c.V(1)
    a, b = c.ty(0), c.ty(1)
    ka, kb = it.tk(it.strip(a)), it.tk(it.strip(b))
    if ka != 'dur' or kb != 'dur':
        return None
    p, q = ticks(it, a), ticks(it, b)
    if p is None or q is None:
        return None
    return (rescale(it, x, a, b), y) if q > p else (x, rescale(it, y, b, a))


def m_durop(f):
    def g(it, e, c):
        r = dur2(it, c)
        return NotImplemented if r is None else f(*r)
    return g


for _n, _f in (('-', sub), ('+', add), ('<', lt), ('>', lambda x, y: lt(y, x)), ('<=', le), ('>=', lambda x, y: le(y, x)), ('==', eq), ('!=', lambda x, y: NOT(eq(x, y)))):
    FREE['std::chrono::operator' + _n] = m_durop(_f)


@meth(('dur', 'count'), ('dur', 'time_since_epoch'))
def d_count(it, e, c):
    return c.ov()


@meth(('dur', 'operator+='), ('dur', 'operator-='), ('dur', 'operator='))
def d_op(it, e, c):
    x = c.V(0)
    if it.tk(it.strip(c.ty(0))) == 'dur':
        x = rescale(it, x, c.ty(0), c.ot)
    m = e['mname']
    c.oset(x if m == 'operator=' else add(c.ov(), x) if m == 'operator+=' else sub(c.ov(), x))
    return c.O


@free('std::chrono::duration::zero')
def m_durzero(it, e, c):
    return ZERO


@free('std::chrono::duration::min', 'std::chrono::duration::max', 'std::chrono::time_point::min', 'std::chrono::time_point::max')
def m_durlim(it, e, c):
    return num((1 << 63) - 1) if e['fn'].endswith('max') else num(-(1 << 63))


@free('std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::chrono::high_resolution_clock::now')
def m_now(it, e, c):
    v = raw('nondet', 'now', num(it.uid(e)), it.F.uid, ctx(it))
    it.ev('clock', e, val=v)
    return v


def m_iteq(it, e, c):
    if it.tk(it.strip(c.ty(0))) != 'iter':
        return NotImplemented
    r = eq(c.V(0), c.V(1))
    return NOT(r) if '!=' in opname(e['fn']).split('::')[-1] else r


for _n in ('std::__detail::operator', 'std::operator'):
    for _o in ('==', '!='):
        _p = FREE.get(_n + _o)
        FREE[_n + _o] = (lambda p: lambda it, e, c: (lambda r: r if r is not NotImplemented else p(it, e, c) if p else NotImplemented)(m_iteq(it, e, c)))(_p)


# ---- references into vector<bool>
@meth(('bit', 'operator='))
def b_assign(it, e, c):
    A = c.ov()
    v = c.V(0)
    if it.tk(it.strip(c.ty(0))) == 'bit':
        v = it.read(v, 'bool')
    it.write(A, v, 'bool')
    return c.O


@meth(('bit', 'operator bool'))
def b_get(it, e, c):
    return it.read(c.ov(), 'bool')


# ---- strings
@meth(('str', 'c_str'), ('str', 'data'), ('str', 'begin'), ('str', 'cbegin'))
def s_cstr(it, e, c):
    return eptr(it, c.O, 's')


@meth(('str', 'end'), ('str', 'cend'))
def s_end(it, e, c):
    return padd(eptr(it, c.O, 's'), vlen(c.ov()))


@meth(('str', 'operator[]'), ('str', 'at'))
def s_index(it, e, c):
    return padd(eptr(it, c.O, 's'), c.V(0))


@meth(('str', 'compare'))
def s_compare(it, e, c):
    k = 0
    a = c.ov()
    if c.n() == 3:
        k = 2
        a = substr(it, a, [c.V(0), c.V(1)])
    elif c.n() != 1:
        return NotImplemented
    b = c.V(k)
    if it.tk(c.ty(k)) != 'str':
        b = strof(it, b)
    return ite(eq(a, b), ZERO, app('strcmp', a, b))


@meth(('str', 'append'), ('str', 'operator+='))
def s_append(it, e, c):
    b = c.V(0)
    k = it.tk(c.ty(0))
    if c.n() > 1:
        if k in ('ptr', 'arr') and it.tk(c.ty(1)) == 'int':
            a, o = bytesat(it, b)
            b = substring(a, o, c.V(1))
        else:
            return NotImplemented
    elif k in ('ptr', 'arr'):
        b = strof(it, b)
    elif k == 'int':
        b = app('chr', b)
    c.oset(scatl(c.ov(), b))
    return c.O


@meth(('str', 'assign'))
def s_assign(it, e, c):
    b = c.V(0)
    k = it.tk(c.ty(0))
    if k in ('ptr', 'arr'):
        if c.n() > 1:
            a, o = bytesat(it, b)
            b = substring(a, o, c.V(1))
        else:
            b = strof(it, b)
    elif c.n() > 1:
        return NotImplemented
    c.oset(b)
    return c.O


@meth(('str', 'substr'))
def s_substr(it, e, c):
    return substr(it, c.ov(), c.all())


def substr(it, v, a):
    n = vlen(v)
    p = a[0] if a else ZERO
    bad = lt(n, p)
    if bad is not FALSE and not (PROVER.simp(bad) is FALSE):
        s = it.S.fork(AND(it.S.pc, bad))
        if s.pc is not FALSE:
            it.throws[-1].append((s, raw('exc', 'std::out_of_range')))
        it.S = it.S.fork(AND(it.S.pc, NOT(bad)))
    rest = sub(n, p)
    if len(a) < 2:
        m = rest
    else:
        k = a[1]
        m = ite(lt(k, rest), k, rest) if k.op != 'n' or k.a[0] < (1 << 63) else rest
    if p is ZERO and m is n:
        return v
    return substring(lamfun(lambda i: schar(v, i)), p, m)


@meth(('str', 'find'), ('str', 'rfind'), ('str', 'find_first_of'), ('str', 'find_last_of'), ('str', 'find_first_not_of'))
def s_pure(it, e, c):
    return opaque_result(it, e, 's:' + e['mname'], [c.ov()] + c.all())


@meth(('stream', 'str'))
def st_str(it, e, c):
    if c.n():
        c.oset(c.V(0))
        return VOID
    return c.ov()


@meth(('stream', 'operator<<'))
def st_out(it, e, c):
    v = manipulate(it, e, c.O, c.args[0], c.pt[0] if c.pt else '')
    if v is None:
        v = c.V(0)
        k = it.tk(c.ty(0))
        if k in ('ptr', 'arr') and it.T.get(c.ty(0), {}).get('to') in ('char', 'signed char', 'unsigned char'):
            v = strof(it, v)
        else:
            v = tostr(v)
        v = formatted(it, c.O, v, fmtkind(it, c.ty(0)), e)
    return out(it, c.O, v, c.ot)


@meth(('*', 'operator long'))
def st_pos(it, e, c):
    return c.ov() if c.ot.startswith('std::fpos') else NotImplemented


@meth(('stream', 'tellp'))
def st_tellp(it, e, c):
    return it.liftaddr(c.O, lambda z: raw('nondet', 'tellp', z) if z.op == 'optr' and z.a[0].a[0] == 'global' and z.a[0].a[1].startswith('std::') else vlen(it.read(z, c.ot)))


@meth(('stream', 'flush'), ('stream', 'clear'))
def st_flush(it, e, c):
    c.all()
    return c.O if e.get('lv') else opaque_result(it, e, 'st', [])


@meth(('stream', 'precision'), ('stream', 'width'), ('stream', 'fill'))
def st_fmt(it, e, c):
    ch = 'prec' if e['mname'] == 'precision' else e['mname']
    old = it.liftaddr(c.O, lambda z: fmtget(it, z, ch))
    if c.n():
        fmtset(it, c.O, ch, c.V(0), e)
    return old


@meth(('stream', 'flags'))
def st_flags(it, e, c):
    old = it.liftaddr(c.O, lambda z: raw('fmtflags', *[fmtget(it, z, ch) for ch in sorted(FMTMASK)]))
    if c.n():
        v = c.V(0)
        if v.op == 'fmtflags':
            for ch, x in zip(sorted(FMTMASK), v.a):
                fmtset(it, c.O, ch, x, e)
        elif isnum(v):
            for ch in FMTMASK:
                fmtset(it, c.O, ch, num(v.a[0] & FMTMASK[ch]), e)
        else:
            it.unsupported('flags of a stream', e)
    return old


@meth(('stream', 'setf'), ('stream', 'unsetf'))
def st_setf(it, e, c):
    v = c.V(0)
    m = c.V(1) if c.n() > 1 else v
    old = it.liftaddr(c.O, lambda z: raw('fmtflags', *[fmtget(it, z, ch) for ch in sorted(FMTMASK)]))
    if not isnum(v) or not isnum(m):
        it.unsupported('flags of a stream', e)
        return old
    for ch, k in FMTMASK.items():
        if m.a[0] & k:
            if m.a[0] & k != k:
                now = fmtget(it, c.O, ch) if c.O.op != 'I' else None
                base = FMTDEF.get(ch, 0) if now is not None and now.op == 'cell' else now.a[0] if now is not None and isnum(now) else None
                if base is None:
                    it.unsupported('flags of a stream', e)
                    continue
                r = base & ~m.a[0]
            else:
                r = 0
            fmtset(it, c.O, ch, num((r | (v.a[0] & m.a[0] if e['mname'] == 'setf' else 0)) & k), e)
    return old


@free('std::flush', 'std::endl', 'std::cout')
def st_manip(it, e, c):
    return c.A(0)


# ---- maps and iterators
@meth(('map', 'find'))
def mp_find(it, e, c):
    m = register_map(it, c.ov(), c.ot)
    k = c.V(0)
    O = c.O
    return lift(('mfind', k.id, O.id), lambda x: raw('mfind', x, k, O), m)


@meth(('map', 'end'), ('map', 'cend'))
def mp_end(it, e, c):
    return lift('mend', lambda x: raw('mend', x), register_map(it, c.ov(), c.ot))


@meth(('map', 'begin'), ('map', 'cbegin'))
def mp_begin(it, e, c):
    O = c.O
    return lift(('mbeg', O.id), lambda x: raw('mit', x, ZERO, O), register_map(it, c.ov(), c.ot))


@meth(('map', 'size'))
def mp_size(it, e, c):
    return app('msize', c.ov())


@meth(('map', 'empty'))
def mp_empty(it, e, c):
    return eq(app('msize', c.ov()), ZERO)


@meth(('map', 'count'), ('map', 'contains'))
def mp_count(it, e, c):
    h = mhas(register_map(it, c.ov(), c.ot), c.V(0))
    return ite(h, ONE, ZERO) if e['mname'] == 'count' else h


@meth(('map', 'clear'))
def mp_clear(it, e, c):
    c.oset(raw('mempty'))
    return VOID


@meth(('map', 'erase'))
def mp_erase(it, e, c):
    k = c.V(0)
    m = c.ov()
    if it.tk(c.ty(0)) == 'iter':
        if k.op == 'mfind':
            k = k.a[1]
        elif k.op == 'mit':
            k = raw('mkey', k.a[0], k.a[1])
        else:
            return NotImplemented
    it.ev('mapwrite', e, addr=c.O, key=k, val=None)
    c.oset(mdel(m, k))
    return opaque_result(it, e, 'x:erase', [m, k])


def mdel(m, k):
    return lift(('mdel', k.id), lambda x: raw('mdel', x, k), m)


@meth(('map', 'operator[]'))
def mp_index(it, e, c):
    k = c.V(0)
    m = register_map(it, c.ov(), c.ot)
    args = it.T.get(it.strip(c.ot), {}).get('args') or ['int', 'int']
    d = it.zero(args[1]) if it.tk(args[1]) in ('ptr', 'int', 'bool', 'enum') else it.default(args[1])
    h = mhas(m, k)
    if h is not TRUE:
        c.oset(ite(h, m, mput(m, k, d)))
    # the referenced element
    A = c.O

    def one(z):
        if z.op == 'optr':
            return raw('optr', z.a[0], z.a[1], z.a[2] + (('m', k),))
        r, p, accs = it.place(z, c.ot)
        return raw('optr', r, p, accs + (('m', k),))
    return it.liftaddr(A, one)


@meth(('map', 'at'))
def mp_at(it, e, c):
    k = c.V(0)
    it.ev('mapat', e, map=c.ov(), key=k)
    h = mhas(register_map(it, c.ov(), c.ot), k)
    if h is not TRUE:
        s = it.S.fork(AND(it.S.pc, NOT(h)))
        if s.pc is not FALSE:
            it.throws[-1].append((s, raw('exc', 'std::out_of_range')))
        it.S = it.S.fork(AND(it.S.pc, h))

    def one(z):
        r, p, accs = (z.a[0], z.a[1], z.a[2]) if z.op == 'optr' else it.place(z, c.ot)
        return raw('optr', r, p, accs + (('m', k),))
    return it.liftaddr(c.O, one)


@meth(('map', 'insert'), ('map', 'emplace'), ('map', 'insert_or_assign'), ('map', 'try_emplace'))
def mp_insert(it, e, c):
    if c.n() == 1:
        v = c.V(0)
        k, x = getf(v, 'first'), getf(v, 'second')
    else:
        k, x = c.V(0), c.V(1)
    m = register_map(it, c.ov(), c.ot)
    if e['mname'] == 'insert_or_assign':
        c.oset(lift(('mput', k.id, x.id), lambda y: mput(y, k, x), m))
    else:
        h = mhas(m, k)
        c.oset(ite(h, m, lift(('mput', k.id, x.id), lambda y: mput(y, k, x), m)))
    return opaque_result(it, e, 'x:insert', [m, k, x])


def advance(v, n):
    def one(z):
        if z.op == 'mit':
            return raw('mit', z.a[0], add(z.a[1], n), z.a[2])
        return padd(z, n)
    return lift('adv%d' % n.id, one, v)


@meth(('iter', 'operator++'), ('iter', 'operator--'))
def i_inc(it, e, c):
    v = c.ov()
    nv = advance(v, ONE if e['mname'] == 'operator++' else num(-1))
    c.oset(nv)
    if e.get('args') or not e.get('lv'):
        return v
    return c.O


@meth(('iter', 'operator+'), ('iter', 'operator-'), ('iter', 'operator+='), ('iter', 'operator-='))
def i_arith(it, e, c):
    n = c.V(0)
    op = e['mname'][8]
    v = c.ov()
    if op == '-' and it.tk(c.ty(0)) == 'iter':
        return sub(v, n)
    r = advance(v, n if op == '+' else neg(n))
    if e['mname'].endswith('='):
        c.oset(r)
        return c.O
    return r


@meth(('iter', 'operator*'), ('iter', 'operator->'))
def i_deref(it, e, c):
    v = c.ov()

    def one(z):
        if z.op == 'mfind':
            return raw('ment', z.a[2], z.a[1], z.a[0])
        if z.op == 'mit':
            return raw('ment', z.a[2], mkey(z.a[0], z.a[1]), z.a[0])
        return z
    r = lift('ideref', one, v)
    it.ev('ideref', e, it=v)
    return r


def mkey(m, i):
    return app('mkey', m, i)


@meth(('iter', 'operator[]'))
def i_index(it, e, c):
    return padd(c.ov(), c.V(0))


@meth(('iter', 'operator=='), ('iter', 'operator!='))
def i_eq(it, e, c):
    r = eq(c.ov(), c.V(0))
    return r if e['mname'] == 'operator==' else NOT(r)


# ---- smart pointers
@meth(('uptr', 'get'), ('uptr', 'operator->'))
def u_get(it, e, c):
    return c.ov()


@meth(('uptr', 'operator*'))
def u_deref(it, e, c):
    it.deref(c.ov(), e)
    return c.ov()


@meth(('uptr', 'operator[]'))
def u_index(it, e, c):
    A = padd(c.ov(), c.V(0))
    it.ev('index', e, ptr=A, idx=c.V(0), base=c.ov())
    return A


@meth(('uptr', 'release'))
def u_release(it, e, c):
    v = c.ov()
    it.ev('unmanage', e, ptr=v)
    c.oset(NULL)
    return v


@meth(('uptr', 'reset'))
def u_reset(it, e, c):
    c.oset(c.V(0) if c.n() else NULL)
    return VOID


@meth(('uptr', 'operator bool'))
def u_bool(it, e, c):
    return NOT(isnull(c.ov()))


@meth(('fun', 'operator()'), ('closure', 'operator()'))
def f_call(it, e, c):
    f = c.ov()

    def go(fv):
        if fv.op == 'closure':
            return it.callclosure(fv, e, e['args'])
        if fv.op == 'func':
            ee = dict(e)
            ee.pop('o', None)
            ee['fid'], ee['fn'] = fv.a[0], fv.a[1]
            ee['pt'] = it.ptof(fv.a[0], e)
            it.uids[id(ee)] = (it.uid(e), e)
            it.keep = getattr(it, 'keep', [])
            it.keep.append(ee)
            g = it.p.functions.get(fv.a[0])
            if g is not None:
                return it.dispatch(ee, None)
            return call(it, ee)
        return it.unsupported('indirect call', e)
    if f.op == 'I':
        def br(x):
            if x.op == 'I':
                return it.branch(it.simp(atom(x.a[0])), lambda: br(x.a[1]), lambda: br(x.a[2]))
            return go(x)
        return br(f)
    return go(f)


# ----------------------------------------------------------------- ranges
def rangeloop(it, s):
    r = s['r']
    t = it.strip(r['t'])
    k = it.tk(t)
    A = it.lv_or_temp(r)
    v = s['v']
    if k == 'vrec':
        for b in it.p.records.get(t, {}).get('bases', []):
            if it.tk(b) == 'vec':
                A = it.fieldaddr(A, '#base', t)
                t, k = b, 'vec'
    if k == 'vec':
        n = vlen(it.read(A, t))
        et = elemtype(it, t)
        base = eptr(it, A, 'v')
    elif k == 'arr':
        n = num(it.T[t].get('n', 0))
        et = it.T[t]['to']
        base = it.liftaddr(A, lambda z: raw('ptr', z.a[0], z.a[1], z.a[2], 'a') if z.op == 'optr' else z)
    elif k == 'str':
        n = vlen(it.read(A, t))
        et = 'char'
        base = eptr(it, A, 's')
    elif k == 'map':
        m = register_map(it, it.read(A, t), t)
        n = app('msize', m)
        et = None
        base = None
    else:
        it.unsupported('range over ' + t, s)
        return

    def bind(kk):
        if base is None:
            E = raw('ment', A, mkey(m, kk), m)
            if it.T.get(v['t'], {}).get('k') == 'ref':
                it.F.vars[v['d']] = E
            else:
                rr = raw('region', 'local', v['d'], it.F.uid)
                it.decls.add(rr)
                B = raw('optr', rr, (), ())
                it.F.vars[v['d']] = B
                it.write(B, rec({'first': mkey(m, kk), 'second': mget(m, mkey(m, kk))}), v['t'])
            return
        E = padd(base, kk)
        if it.T.get(v['t'], {}).get('k') == 'ref':
            it.F.vars[v['d']] = E
        else:
            rr = raw('region', 'local', v['d'], it.F.uid)
            it.decls.add(rr)
            B = raw('optr', rr, (), ())
            it.F.vars[v['d']] = B
            it.write(B, it.read(E, et), v['t'])
    it.loop(s, 'while', None, s['b'], None, None, native=(n, bind))
