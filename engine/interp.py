"""Interprocedural gated value-flow analysis of the library.

Every function is summarised as a set of guarded outcomes (normal return,
exception, process exit) over a store of cells.  Branches are joined with
gates (no path enumeration); loops are summarised by recurrences of the cells
they modify; calls to library functions are resolved (virtual calls included)
and replaced by their summary; calls to outside libraries have models.
"""
from terms import *
import terms
import models


class Unsupported(Exception):
    pass


class St:
    __slots__ = ('pc', 'm')

    def __init__(self, pc, m):
        self.pc = pc
        self.m = m

    def fork(self, pc=None):
        return St(self.pc if pc is None else pc, dict(self.m))


def restrict(f, care):
    """simplify f assuming care (Coudert-Madre)"""
    if care is TRUE or f.op != 'I':
        return f
    memo = {}

    def go(f, c):
        if c is TRUE or c is FALSE or f.op != 'I':
            return f
        k = (f.id, c.id)
        r = memo.get(k)
        if r is not None:
            return r
        x = f.a[0]
        y = c.a[0] if c.op == 'I' else None
        if y is not None and y.id < x.id:
            r = go(f, OR(c.a[1], c.a[2]))
        elif y is x:
            if c.a[1] is FALSE:
                r = go(f.a[2], c.a[2])
            elif c.a[2] is FALSE:
                r = go(f.a[1], c.a[1])
            else:
                r = node(x, go(f.a[1], c.a[1]), go(f.a[2], c.a[2]))
        else:
            r = node(x, go(f.a[1], c), go(f.a[2], c))
        memo[k] = r
        return r
    return go(f, care)


class Frame:
    def __init__(self, uid, fn, this=None, cls=None):
        self.uid = uid
        self.fn = fn
        self.this = this
        self.cls = cls
        self.rets = []
        self.vars = {}


class Event:
    def __init__(self, kind, pc, ctx, loc, **kw):
        self.kind = kind
        self.pc = pc
        self.ctx = ctx
        self.loc = loc
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Event(%s %s %s pc=%s)' % (self.kind, self.loc, {k: v for k, v in self.__dict__.items() if k not in ('kind', 'pc', 'ctx', 'loc')}, self.pc)


class Interp:
    def __init__(self, prog, opaque=(), dyn=None, noeffect=('SimpleBenchmark',), maxdepth=40):
        self.p = prog
        self.T = prog.types
        self.opaque = {}
        for o in opaque:
            if isinstance(o, tuple):
                self.opaque[o[0]] = o[1]
            else:
                self.opaque[o] = o
        self.noeffect = set(noeffect)
        self.dynof = {}        # region -> class
        self.uids = {}
        self.mute = 0
        self.events = []
        self.unsup = []
        self.loops = []        # [(k, n)]
        self.pcs = [TRUE]
        self.S = St(TRUE, {})
        self.frames = []
        self.throws = [[]]
        self.exits = []
        self.textout = False # whether what is printed is looked at
        self.statics = {}    # static variables: name, value they start with
        self.brk = []
        self.cont = []
        self.decls = set()
        self.ctype = {}
        self.fnseen = set()
        self.maxdepth = maxdepth
        self.callstack = []
        self.ncalls = 0
        self.excn = 0
        self.nloops = 0
        self.unroll = 0
        self.oom = ()
        self.junk = False     # whether undefined scalars are values that may be anything
        self.foldcount = 0

    # ------------------------------------------------------------ utilities
    def uid(self, o):
        r = self.uids.get(id(o))
        if r is None:
            r = (len(self.uids) + 1, o)
            self.uids[id(o)] = r
        return r[0]

    @property
    def F(self):
        return self.frames[-1]

    def loc(self, e):
        f = self.F.fn if self.frames else None
        return '%s:%s' % (f['file'] if f else '?', e.get('l', '?') if isinstance(e, dict) else '?')

    def where(self, e):
        f = self.F.fn
        return dict(file=f['file'], line=e.get('l'), function=f['fn'])

    def abspc(self):
        r = self.S.pc
        for c in reversed(self.pcs):
            r = AND(c, r)
        return r

    def ev(self, kind, e, **kw):
        if self.mute or self.S.pc is FALSE:
            return
        self.events.append(Event(kind, self.abspc(), tuple(self.loops), self.loc(e), fn=self.F.fn['fn'], inctor=any(f.fn.get('kind') == 'ctor' and f.fn is not self.frames[0].fn for f in self.frames), **kw))

    def unsupported(self, what, e):
        if self.S.pc is FALSE:
            return raw('dead')
        if not self.mute:
            self.unsup.append((what, self.loc(e), self.F.fn['fn']))
        return raw('unk', what, self.uid(e))

    def simp(self, t):
        PROVER.push_cond(self.S.pc)
        try:
            return PROVER.simp(t)
        finally:
            PROVER.pop()

    # ------------------------------------------------------------ types
    def tk(self, t):
        return models.kind(self, t)

    def sizeof_int(self, t):
        d = self.T.get(t, {})
        if d.get('k') in ('int', 'enum'):
            return d.get('w', 0) // 8
        if d.get('k') == 'bool':
            return 1
        return 0

    def strip(self, t):
        d = self.T.get(t)
        while d and d['k'] == 'ref':
            t = d['to']
            d = self.T.get(t)
        return t

    def isobj(self, t):
        return self.tk(self.strip(t)) in ('obj', 'bm')

    def default(self, t):
        k = self.tk(t)
        if k in ('zz', 'zzp', 'mpz'):
            return ZERO
        if k == 'poly':
            return raw('acon', ZERO)
        if k == 'vec':
            return vec(ZERO, UNINIT)
        if k == 'str':
            return sconst(b'')
        if k == 'stream':
            return sconst(b'')
        if k == 'map':
            return raw('mempty')
        if k == 'vrec':
            d = {}
            for b in self.p.records.get(t, {}).get('bases', []):
                if self.tk(b) == 'vec':
                    d['#base'] = vec(ZERO, UNINIT)
            return rec(d)
        if k == 'arr':
            v = self.default(self.T[t]['to'])
            return UNINIT if v is UNINIT else raw('acon', v)
        if k in ('uptr', 'fun'):
            return NULL
        if self.junk and k in ('int', 'enum', 'float', 'ptr', 'bool'):
            return atom(raw('junk', k)) if k == 'bool' else raw('junk', k)
        return UNINIT

    def zero(self, t):
        k = self.tk(t)
        if k in ('int', 'enum', 'float'):
            return ZERO
        if k == 'bool':
            return FALSE
        if k == 'ptr':
            return NULL
        if k == 'arr':
            return raw('acon', self.zero(self.T[t]['to']))
        return self.default(t)

    # ------------------------------------------------------------ cells
    def cellget(self, region, path, t=None):
        key = (region, path)
        v = self.S.m.get(key)
        if v is not None:
            return v
        return self.initial(region, path, t)

    def initial(self, region, path, t=None):
        kind = region.a[0]
        if kind in ('local', 'heap', 'temp', 'exc') and not (path and isinstance(path[-1], str) and path[-1].startswith('#:')):
            # a part of an enclosing value?
            return UNINIT
        c = raw('cell', region, path)
        if t is not None:
            d = self.T.get(t, {})
            if d.get('k') in ('int', 'enum') and not d.get('s'):
                mark_nonneg(c)
        return c

    def cellset(self, region, path, v, t=None):
        if self.S.pc is FALSE:
            return
        self.S.m[(region, path)] = v
        if t is not None:
            self.ctype[(region, path)] = t

    # address term -> (region, path, accs)
    def place(self, A, t):
        if A.op == 'optr':
            return A.a[0], A.a[1], A.a[2]
        b, o = psplit(A)
        if b.op == 'ptr':
            return b.a[0], b.a[1], b.a[2] + (('i' + b.a[3], o),)
        if b.op == 'optr':
            if o is ZERO:
                return b.a[0], b.a[1], b.a[2]
            return b.a[0], b.a[1], b.a[2] + (('o', o),)
        if self.isobj(t):
            return self.derefregion(A), (), ()
        return self.derefregion(b), (), (('ia', o),)

    def derefregion(self, A):
        return raw('region', 'deref', A)

    def accget(self, v, accs, t=None):
        for i, a in enumerate(accs):
            if a[0] == 'ia':
                v = rd(v, a[1])
            elif a[0] == 'iv':
                v = rd(varr(v), a[1])
            elif a[0] == 'is':
                v = schar(v, a[1])
            elif a[0] == 'f':
                v = getf(v, a[1].a[0])
            elif a[0] == 'm':
                v = mget(v, a[1])
            elif a[0][0] == 'w':     # w-byte word at byte offset
                b = v
                v = models.load(v if a[0] == 'wa' else varr(v) if a[0] == 'wv' else lamfun(lambda i: schar(b, i)), a[1], a[2])
            else:
                v = raw('part', v, a[1])
        if t is not None and v.op in ('rd', 'mget', 'fld') and v.id not in NONNEG_T:
            d = self.T.get(t, {})
            if d.get('k') in ('int', 'enum') and not d.get('s'):
                mark_nonneg(v)
        return v

    def accset(self, v, accs, x):
        if not accs:
            return x
        a = accs[0]
        if a[0] == 'ia':
            return st(v, a[1], self.accset(rd(v, a[1]), accs[1:], x) if len(accs) > 1 else x)
        if a[0] == 'iv':
            e = varr(v)
            return vec(vlen(v), st(e, a[1], self.accset(rd(e, a[1]), accs[1:], x) if len(accs) > 1 else x))
        if a[0] == 'is':
            n = vlen(v)
            return raw('strset', v, a[1], x)
        if a[0] == 'f':
            f = a[1].a[0]
            return setf(v, f, self.accset(getf(v, f), accs[1:], x) if len(accs) > 1 else x)
        if a[0] == 'm':
            return mput(v, a[1], self.accset(mget(v, a[1]), accs[1:], x) if len(accs) > 1 else x)
        if a[0] == 'wa':
            return models.store(v, a[1], a[2], x)
        if a[0] == 'wv':
            return vec(vlen(v), models.store(varr(v), a[1], a[2], x))
        if a[0] == 'ws':
            return raw('clobber', a[1])
        return raw('partset', v, a[1], x)

    def read(self, A, t, e=None):
        """value stored at address A of type t"""
        if A.op == 'I':
            return lift('read%d' % self.uid(self.S), lambda z: self.read1(z, t, e), A) if False else self.liftaddr(A, lambda z: self.read1(z, t, e))
        return self.read1(A, t, e)

    def liftaddr(self, A, f):
        if A.op != 'I':
            return f(A)
        at, hi, lo = A.a
        d = PROVER.decide(at)
        if d is True:
            return self.liftaddr(hi, f)
        if d is False:
            return self.liftaddr(lo, f)
        c = atom(at)
        if AND(self.S.pc, c) is FALSE:
            return self.liftaddr(lo, f)
        if AND(self.S.pc, NOT(c)) is FALSE:
            return self.liftaddr(hi, f)
        return ite(c, self.liftaddr(hi, f), self.liftaddr(lo, f))

    def read1(self, A, t, e=None):
        if A is NULL or A.op in ('uninit', 'dead', 'badread'):
            return raw('badread')
        if A.op == 'ment':
            r, p, accs = self.place(A.a[0], 'int')
            return rec({'first': A.a[1], 'second': mget(self.accget(self.cellget(r, p), accs), A.a[1])})
        b, o = psplit(A)
        if b.op == 'fold' and not self.mute:
            raise Unsupported('a store through a pointer whose course through a loop is not understood')
        if b.op == 'pcast':
            w = b.a[1]
            r, p, accs = self.place(b.a[0], 'unsigned char')
            last = accs[-1] if accs else ('ia', ZERO)
            accs = accs[:-1] if accs else ()
            v = self.cellget(r, p, None)
            return self.accget(v, accs + (('w' + last[0][1], add(last[1], mul(num(w), o)), w),), t)
        r, p, accs = self.place(A, t)
        if self.isobj(t) and not accs:
            return self.snapshot(r, p, t)
        v = self.cellget(r, p, t if not accs else None)
        v = self.accget(v, accs, t)
        if self.T.get(t, {}).get('k') == 'bool' and not isbool(v) and v.op not in ('uninit', 'dead', 'badread', 'unk'):
            v = lift('asbool', lambda z: z if z in (TRUE, FALSE) or z.op in ('uninit', 'dead', 'badread') else atom(z), v)
        return v

    def snapshot(self, r, p, t):
        """value of an object of a library class"""
        d = []
        for f in self.allfields(t):
            A = raw('optr', r, p + (f['n'],), ())
            d.append((f['n'], self.read1(A, f['t'])))
        return raw('objval', self.classof(r, p, t), tuple(d))

    def classof(self, r, p, t):
        return self.dynof.get((r, p), self.strip(t))

    def allfields(self, t):
        out = []
        rec_ = self.p.records.get(t)
        if rec_:
            for b in rec_['bases']:
                out += self.allfields(b)
            out += rec_['fields']
        return out

    def write(self, A, v, t, e=None):
        if self.S.pc is FALSE:
            return
        if A.op == 'I':
            base = self.S.m
            at, hi, lo = A.a
            d = PROVER.decide(at)
            if d is None:
                c = atom(at)
                if AND(self.S.pc, c) is FALSE:
                    d = False
                elif AND(self.S.pc, NOT(c)) is FALSE:
                    d = True
            if d is not None:
                return self.write(hi if d else lo, v, t, e)
            s = self.S
            s1 = St(AND(s.pc, atom(at)), dict(s.m))
            s2 = St(AND(s.pc, NOT(atom(at))), dict(s.m))
            self.S = s1
            self.write(hi, v, t, e)
            s1 = self.S
            self.S = s2
            self.write(lo, v, t, e)
            s2 = self.S
            self.S = self.merge2(atom(at), s1, s2)
            return
        if A is NULL or A.op in ('uninit', 'dead', 'badread'):
            return
        b, o = psplit(A)
        if b.op == 'pcast':
            w = b.a[1]
            r, p, accs = self.place(b.a[0], 'unsigned char')
            last = accs[-1] if accs else ('ia', ZERO)
            accs = (accs[:-1] if accs else ()) + (('w' + last[0][1], add(last[1], mul(num(w), o)), w),)
        else:
            r, p, accs = self.place(A, t)
        if self.isobj(t) and not accs:
            return self.putobj(r, p, t, v)
        if accs:
            v = self.accset(self.cellget(r, p, None), accs, v)
        self.cellset(r, p, v, t if not accs else None)

    def putobj(self, r, p, t, v):
        if v.op == 'I':
            vals = {}
            for f in self.allfields(t):
                fv = lift('of:' + f['n'], lambda z: objfield(z, f['n']), v)
                self.write(raw('optr', r, p + (f['n'],), ()), fv, f['t'])
            return
        for f in self.allfields(t):
            fv = objfield(v, f['n'])
            self.write(raw('optr', r, p + (f['n'],), ()), fv, f['t'])
        if v.op == 'objval':
            self.dynof.setdefault((r, p), v.a[0])

    # ------------------------------------------------------------ merging
    def merge2(self, c, a, b):
        """c selects a"""
        if a is None or a.pc is FALSE:
            return b if b is not None else a
        if b is None or b.pc is FALSE:
            return a
        m = {}
        if a.m is b.m:
            m = a.m
        else:
            for k in set(a.m) | set(b.m):
                va = a.m.get(k)
                vb = b.m.get(k)
                if va is vb:
                    m[k] = va
                    continue
                if va is None:
                    va = self.initial(k[0], k[1], self.ctype.get(k))
                if vb is None:
                    vb = self.initial(k[0], k[1], self.ctype.get(k))
                m[k] = joinval(c, va, vb)
        return St(OR(a.pc, b.pc), m)

    def mergemany(self, states, vals=None):
        """join of disjoint states; returns (state, value)"""
        live = [(s, (vals[i] if vals else None)) for i, s in enumerate(states) if s is not None and s.pc is not FALSE]
        if not live:
            return None, None
        s, v = live[-1]
        for s2, v2 in reversed(live[:-1]):
            care = OR(s.pc, s2.pc)
            c = restrict(s2.pc, care)
            ns = self.merge2(c, s2, s)
            if vals:
                v = v2 if v is v2 else joinval(c, v2, v)
            s = ns
        return s, v

    # ------------------------------------------------------------ expressions
    def rv(self, e):
        """value of an expression"""
        if e is None:
            return VOID
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.unsupported('expression ' + k, e)
        if e.get('lv') and k not in ('temp',):
            A = self.lv(e)
            return self.read(A, e['t'], e)
        return m(e)

    def lv(self, e):
        """address of an lvalue expression"""
        k = e['k']
        m = getattr(self, 'l_' + k, None)
        if m is None:
            if e.get('lv') and k in ('str',):
                return self.e_str(e)
            # rvalue: materialise
            return self.materialise(e)
        return m(e)

    def materialise(self, e):
        r = raw('region', 'temp', self.uid(e), self.F.uid)
        self.decls.add(r)
        t = e['t']
        if self.isobj(t):
            return self.objexpr(e, r)
        v = self.rv(e)
        A = raw('optr', r, (), ())
        self.write(A, v, t)
        return A

    def objexpr(self, e, r, p=()):
        """evaluate an object-class prvalue into region r"""
        k = e['k']
        if k in ('temp',):
            return self.objexpr(e['e'], r, p)
        if k == 'cast' and e.get('ck') in ('NoOp', 'ConstructorConversion', 'LValueToRValue'):
            return self.objexpr(e['e'], r, p)
        if k == 'ctor':
            self.construct(e, raw('optr', r, p, ()), e['t'])
            return raw('optr', r, p, ())
        v = self.rv(e)
        self.write(raw('optr', r, p, ()), v, e['t'])
        return raw('optr', r, p, ())

    def l_temp(self, e):
        return self.lv_or_temp(e['e'])

    def lv_or_temp(self, e):
        if e.get('lv'):
            return self.lv(e)
        return self.materialise(e)

    def e_temp(self, e):
        if self.isobj(e['t']):
            A = self.lv_or_temp(e['e'])
            return self.read(A, e['t'])
        return self.rv(e['e'])

    def e_int(self, e):
        v = int(e['v'])
        if self.T.get(e['t'], {}).get('k') == 'bool':
            return TRUE if v else FALSE
        return num(v)

    def e_float(self, e):
        return raw('flt', e['v'])

    def e_str(self, e):
        b = bytes(e.get('bytes', []))
        r = raw('region', 'strlit', b)
        return raw('ptr', r, (), (), 's')

    def l_str(self, e):
        return self.e_str(e)

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.zero(e['t'])

    def e_this(self, e):
        return self.F.this

    def l_this(self, e):
        return self.F.this

    def l_ref(self, e):
        dk = e['dk']
        if dk in ('var', 'param'):
            A = self.F.vars.get(e['d'])
            if A is not None:
                return A
            return self.unsupported('variable ' + e['n'], e)
        if dk == 'global':
            if e['n'] in ('cout', 'cerr', 'clog'):
                return raw('optr', raw('region', 'global', 'std::' + e['n']), (), ())
            q = e['q']
            if q.startswith('static:') and e['d'] in self.F.vars:
                return self.F.vars[e['d']]
            r = raw('region', 'global', q)
            key = (r, ())
            if key not in self.S.m:
                g = self.p.globals.get(q)
                if 'cv' in e:
                    c = num(int(e['cv']))
                    if self.T.get(e['t'], {}).get('k') == 'bool':
                        c = TRUE if int(e['cv']) else FALSE
                    self.S.m[key] = c
                    self.statics[r] = (q, {(): c})
                elif g and g.get('const') and g.get('init'):
                    self.S.m[key] = self.rvinit(g['init'], g['t'])
                    self.statics[r] = (q, {(): self.S.m[key]})
            return raw('optr', r, (), ())
        if dk == 'func':
            return raw('func', e['fid'], e['fn'])
        return self.unsupported('reference ' + e['n'], e)

    def e_ref(self, e):
        if e['dk'] == 'func':
            return raw('func', e['fid'], e['fn'])
        return self.read(self.l_ref(e), e['t'], e)

    def objaddr(self, o, arrow, e=None):
        """address of the object of a member access or call"""
        if arrow:
            p = self.rv(o)
            self.deref(p, e or o)
            return p
        return self.lv_or_temp(o)

    def deref(self, p, e, n=None):
        if self.mute or self.S.pc is FALSE:
            return
        if p.op == 'optr' or psplit(p)[0].op == 'optr':
            if p.op == 'optr' and p.a[0].a[0] == 'heap':
                self.ev('use', e, ptr=p)
            return
        self.ev('deref', e, ptr=p)

    def fieldaddr(self, A, f, t):
        def one(z):
            if z is NULL or z.op in ('uninit', 'dead', 'badread'):
                return raw('badread')
            if z.op == 'ment':
                if f == 'second':
                    r, p, accs = self.place(z.a[0], 'int')
                    return raw('optr', r, p, accs + (('m', z.a[1]),))
                r = raw('region', 'temp', 'key', z.a[1])
                self.cellset(r, (), z.a[1])
                return raw('optr', r, (), ())
            if z.op == 'optr' and not z.a[2]:
                if self.isobj(t):
                    return raw('optr', z.a[0], z.a[1] + (f,), ())
                return raw('optr', z.a[0], z.a[1], (('f', sym(f)),))
            r, p, accs = self.place(z, t)
            if self.isobj(t) and not accs:
                return raw('optr', r, p + (f,), ())
            return raw('optr', r, p, accs + (('f', sym(f)),))
        return self.liftaddr(A, one)

    def l_mem(self, e):
        A = self.objaddr(e['o'], e.get('arrow'), e)
        ot = e['fc'] if e.get('fc') in self.p.records else self.objtype(e)
        return self.fieldaddr(A, e['f'], ot)

    def objtype(self, e):
        t = e['o']['t']
        d = self.T.get(t, {})
        if d.get('k') in ('ptr', 'ref'):
            t = d['to']
        return t

    def e_mem(self, e):
        if e['o'].get('lv') or e.get('arrow'):
            return self.read(self.l_mem(e), e['t'], e)
        if self.isobj(self.objtype(e)):
            return self.read(self.l_mem(e), e['t'], e)
        v = self.rv(e['o'])
        return getf(v, e['f'])

    def l_sub(self, e):
        a = self.rv(e['a'])
        i = self.rv(e['i'])
        if self.tk(e['a']['t']) not in ('ptr', 'arr') and self.tk(e['i']['t']) in ('ptr', 'arr'):
            a, i = i, a
        A = padd(a, i)
        self.ev('index', e, ptr=A, idx=i, base=a)
        self.deref(a, e)
        return A

    e_sub = lambda self, e: self.read(self.l_sub(e), e['t'], e)

    def l_un(self, e):
        op = e['op']
        if op == '*':
            p = self.rv(e['e'])
            self.deref(p, e)
            self.ev('index', e, ptr=p, idx=ZERO, base=p)
            return p
        if op in ('++', '--'):
            A = self.lv(e['e'])
            t = e['e']['t']
            v = self.read(A, t)
            self.write(A, self.narrow(self.arith('+' if op == '++' else '-', v, ONE, t, e), t), t)
            return A
        if op in ('__extension__',):
            return self.lv(e['e'])
        return self.materialise(e)

    def e_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            A = self.lv(e['e'])
            t = e['e']['t']
            v = self.read(A, t)
            nv = self.narrow(self.arith('+' if op == '++' else '-', v, ONE, t, e), t)
            self.write(A, nv, t)
            return v if e.get('post') else nv
        if op == '&':
            if e['e']['k'] == 'ref' and e['e'].get('dk') == 'func':
                return self.e_ref(e['e'])
            return self.addrof(self.lv_or_temp(e['e']))
        if op == '*':
            return self.read(self.l_un(e), e['t'], e)
        v = self.rv(e['e'])
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return NOT(self.tobool(v))
        if op == '~':
            return app('bitnot', v)
        return self.unsupported('unary ' + op, e)

    def addrof(self, A):
        def one(z):
            if z.op == 'optr' and z.a[2]:
                last = z.a[2][-1]
                if last[0] in ('ia', 'iv', 'is'):
                    return padd(raw('ptr', z.a[0], z.a[1], z.a[2][:-1], last[0][1]), last[1])
            return z
        return self.liftaddr(A, one)

    def tobool(self, v, e=None):
        def one(z):
            if z in (TRUE, FALSE):
                return z
            if z.op in ('ptr', 'optr', 'padd', 'func', 'closure') or z is NULL:
                return NOT(isnull(z))
            if z.op == 'n':
                return TRUE if z.a[0] else FALSE
            return NOT(eq(z, ZERO))
        if v.op == 'I' and isbool(v):
            return v
        return lift('tobool', one, v)

    def arith(self, op, a, b, t, e):
        k = self.tk(t)
        if k == 'float':
            if op == '/' and not self.mute:
                self.ev('fdivide', e, den=b)
            return app('f' + op, a, b)
        if k == 'ptr' and op in '+-':
            if op == '-':
                return padd(a, neg(b))
            if e['k'] == 'bin' and self.tk(e['a']['t']) not in ('ptr', 'array'):
                a, b = b, a
            return padd(a, b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if not self.mute:
                self.ev('divide', e, den=b)
            return fdiv(a, b)
        if op == '%':
            if not self.mute:
                self.ev('divide', e, den=b)
            return fmod(a, b)
        if op in ('<<', '>>') and k == 'int' and not self.mute:
            self.ev('shift', e, n=b, width=max(32, self.T.get(t, {}).get('w', 32)))
        if op == '<<':
            return self.wrap(shl(a, b), t)
        if op == '>>':
            return shr(a, b)
        if op == '&':
            return AND(a, b) if isbool(a) and isbool(b) else band(a, b)
        if op == '|':
            return OR(a, b) if isbool(a) and isbool(b) else bor(a, b)
        if op == '^':
            return xor(a, b)
        return self.unsupported('operator ' + op, e)

    def wrap(self, v, t):
        return v

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            self.rv(e['a'])
            return self.rv(e['b'])
        if op in ('&&', '||'):
            a = self.tobool(self.rv(e['a']))
            a = self.simp(a)
            if op == '&&':
                if a is FALSE:
                    return FALSE
                return self.branch(a, lambda: self.tobool(self.rv(e['b'])), lambda: FALSE)
            if a is TRUE:
                return TRUE
            return self.branch(a, lambda: TRUE, lambda: self.tobool(self.rv(e['b'])))
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, e['a']['t'], e)
        return self.arith(op, a, b, e['t'], e)

    def compare(self, op, a, b, t, e):
        if self.tk(t) == 'float':
            return atom(app('fcmp' + op, a, b)) if not (a.op == 'I' or b.op == 'I') else lift('fcmp' + op, lambda x, y: atom(raw('fcmp' + op, x, y)), a, b)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return NOT(eq(a, b))
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        return le(b, a)

    def l_bin(self, e):
        if e['op'] == ',':
            self.rv(e['a'])
            return self.lv(e['b'])
        return self.materialise(e)

    def branch(self, c, ft, fe):
        if c is TRUE:
            return ft()
        if c is FALSE:
            return fe()
        s0 = self.S
        pct = AND(s0.pc, c)
        pcf = AND(s0.pc, NOT(c))
        if pct is FALSE:
            return fe()
        if pcf is FALSE:
            return ft()
        PROVER.push_cond(c)
        self.S = s0.fork(pct)
        v1 = ft()
        s1 = self.S
        PROVER.pop()
        PROVER.push_cond(NOT(c))
        self.S = s0.fork(pcf)
        v2 = fe()
        s2 = self.S
        PROVER.pop()
        self.S = self.merge2(c, s1, s2)
        if s1.pc is FALSE:
            return v2
        if s2.pc is FALSE:
            return v1
        return v1 if v1 is v2 else joinval(c, v1, v2)

    def e_cond(self, e):
        c = self.simp(self.tobool(self.rv(e['c'])))
        return self.branch(c, lambda: self.rv(e['a']), lambda: self.rv(e['b']))

    def l_cond(self, e):
        c = self.simp(self.tobool(self.rv(e['c'])))
        return self.branch(c, lambda: self.lv_or_temp(e['a']), lambda: self.lv_or_temp(e['b']))

    def l_assign(self, e):
        t = e['a']['t']
        if self.isobj(t):
            b = self.rv(e['b'])
            A = self.lv(e['a'])
            self.write(A, b, t)
            return A
        v = self.rv(e['b'])
        A = self.lv(e['a'])
        self.write(A, v, t, e)
        self.ev('assign', e, addr=A, val=v)
        return A

    def e_assign(self, e):
        A = self.l_assign(e)
        return self.read(A, e['t'])

    def l_cassign(self, e):
        A = self.lv(e['a'])
        t = e['a']['t']
        b = self.rv(e['b'])
        v = self.read(A, t)
        ct = e.get('ct', t)
        r = self.arith(e['op'], v, b, ct, e)
        r = self.convert(r, ct, t)
        self.write(A, r, t, e)
        return A

    def e_cassign(self, e):
        return self.read(self.l_cassign(e), e['t'])

    def narrow(self, v, t):
        """a type narrower than int is promoted for the addition and truncated back"""
        t = self.T.get(t, {})
        if t.get('k') == 'int' and 0 < t.get('w', 0) < 32:
            return models.trunc(v, t['w'], t.get('s'))
        return v

    def convert(self, v, ft, tt):
        """integral conversions"""
        f, t = self.T.get(ft, {}), self.T.get(tt, {})
        if t.get('k') == 'bool' and f.get('k') != 'bool':
            return self.tobool(v)
        if f.get('k') == 'bool' and t.get('k') in ('int', 'enum'):
            return lift('b2i', lambda z: ONE if z is TRUE else ZERO if z is FALSE else z, v)
        if f.get('k') == 'float' and t.get('k') in ('int', 'enum'):
            return app('f2i', v)
        if t.get('k') == 'float' and f.get('k') in ('int', 'bool', 'enum'):
            return app('i2f', v)
        if f.get('k') in ('int', 'enum') and t.get('k') in ('int', 'enum'):
            fw, tw = f.get('w', 0), t.get('w', 0)
            if tw < fw:
                return models.trunc(v, tw, t.get('s'))
            if tw == fw == 8:
                return v
        return v

    def e_cast(self, e):
        ck = e['ck']
        s = e['e']
        if ck == 'LValueToRValue':
            return self.read(self.lv(s), e['t'], e)
        if ck == 'ArrayToPointerDecay':
            A = self.lv(s)
            if A.op == 'ptr':
                return A

            def one(z):
                if z.op == 'optr':
                    return raw('ptr', z.a[0], z.a[1], z.a[2], 'a')
                r, p, accs = self.place(z, s['t'])
                return raw('ptr', r, p, accs, 'a')
            return self.liftaddr(A, one)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            self.rv(s)
            return NULL
        if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'FloatingToBoolean'):
            v = self.rv(s)
            if ck == 'IntegralToBoolean':
                return self.tobool(v)
            return self.convert(v, s['t'], e['t'])
        if ck == 'PointerToBoolean':
            return NOT(isnull(self.rv(s)))
        if ck in ('BitCast', 'LValueBitCast'):
            v = self.rv(s) if not (ck == 'LValueBitCast') else self.lv(s)
            return self.ptrcast(v, s['t'], e['t'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic', 'NoOp'):
            if self.T.get(e['t'], {}).get('k') == 'ptr':
                v = self.rv(s)
                return v
            if e.get('lv') or s.get('lv'):
                return self.read(self.lv(e), e['t'])
            v = self.rv(s)
            if self.tk(e['t']) == 'vec' and self.tk(s['t']) == 'vrec':
                return getf(v, '#base')
            return v
        if ck in ('ToVoid',):
            self.rv(s)
            return VOID
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            return app(ck, self.rv(s))
        if ck == 'FunctionToPointerDecay':
            return self.rv(s)
        return self.unsupported('cast ' + ck, e)

    def l_cast(self, e):
        ck = e['ck']
        s = e['e']
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
            A = self.lv_or_temp(s)
            if self.tk(e['t']) == 'vec' and self.tk(s['t']) == 'vrec':
                return self.fieldaddr(A, '#base', s['t'])
            return A
        if ck == 'LValueBitCast':
            return self.lv(s)
        return self.materialise(e)

    def ptrcast(self, v, ft, tt):
        f, t = self.T.get(ft, {}), self.T.get(tt, {})
        if t.get('k') != 'ptr' or f.get('k') != 'ptr':
            return v
        a, b = self.sizeof_int(f['to']), self.sizeof_int(t['to'])
        fk, tk_ = self.T.get(f['to'], {}).get('k'), self.T.get(t['to'], {}).get('k')
        if tk_ == 'void':
            return v
        if fk == 'void':
            a = 1

        def one(z):
            base, o = psplit(z)
            if base.op == 'pcast':
                if b == base.a[1] or not b:
                    return z
                un = padd(base.a[0], mul(num(base.a[1]), o))
                return un if b == 1 else raw('pcast', un, b)
            if a and b and a != b:
                if b > 1 and a == 1:
                    if z.op in ('optr',):
                        return z
                    return raw('pcast', z, b)
            return z
        return lift('ptrcast%d.%d' % (a, b), one, v)

    def e_new(self, e):
        et = e['et']
        n = ONE
        if e['arr'] and e.get('n'):
            n = self.rv(e['n'])
        ks = tuple(k for k, _ in self.loops)
        if self.oom and self.F.fn.get('fid') in self.oom and self.S.pc is not FALSE and not e.get('nothrow'):
            # the allocation may fail
            c = atom(raw('fails', self.uid(e), self.F.uid, ks))
            self.ev('mayfail', e, cond=c)
            self.throws[-1].append((self.S.fork(AND(self.S.pc, c)), raw('exc', 'std::bad_alloc')))
            self.S = self.S.fork(AND(self.S.pc, NOT(c)))
        r = raw('region', 'heap', self.uid(e), self.F.uid) if e['arr'] else raw('region', 'heap', self.uid(e), self.F.uid, ks)
        isv = bool(e.get('init')) and e['init']['k'] in ('zero', 'ilist')
        self.decls.add(r)
        if e['arr']:
            v = self.zero(et) if isv else self.default(et)
            # allocated in loops: one row per iteration
            accs = tuple(('ia', k) for k in ks)
            v = UNINIT if v is UNINIT else raw('acon', v)
            self.cellset(r, (), self.accset(self.cellget(r, ()), accs, v))
            self.cellset(r, ('#n',), self.accset(self.cellget(r, ('#n',)), accs, n))
            p = raw('ptr', r, (), accs, 'a')
        else:
            p = raw('optr', r, (), ())
            self.dynof[(r, ())] = et
            if e.get('init') and e['init']['k'] == 'ctor':
                self.construct(e['init'], p, et)
            elif e.get('init'):
                self.write(p, self.rvinit(e['init'], et), et)
            else:
                self.initdefault(p, et)
        self.ev('alloc', e, region=r, n=n, arr=e['arr'], et=et, nothrow=e.get('nothrow'))
        return p

    def e_del(self, e):
        p = self.rv(e['e'])
        self.ev('free', e, ptr=p, arr=e['arr'], dt=e['dt'])
        return VOID

    def e_throw(self, e):
        if e.get('e') is None:
            cur = getattr(self, 'curexc', None)
            self.throws[-1].append((self.S.fork(), cur or raw('exc', 'unknown')))
        else:
            x = e['e']
            if self.isobj(x['t']):
                r = raw('region', 'exc', self.uid(e), self.F.uid)
                self.decls.add(r)
                if x.get('lv'):
                    v = self.rv(x)
                    self.write(raw('optr', r, (), ()), v, x['t'])
                else:
                    self.objexpr(x, r)
                exc = raw('exc', self.strip(x['t']), raw('optr', r, (), ()))
            else:
                self.rv(x)
                exc = raw('exc', e['tt'])
            if self.S.pc is not FALSE:
                self.ev('throw', e, tt=e['tt'])
                self.throws[-1].append((self.S.fork(), exc))
        self.S = St(FALSE, self.S.m)
        return raw('dead')

    def e_ilist(self, e):
        t = e['t']
        k = self.tk(t)
        if k == 'arr' or k == 'vec' or self.T.get(t, {}).get('k') == 'arr':
            v = raw('acon', self.rv(e['fill'])) if e.get('fill') else UNINIT
            for i, x in enumerate(e['es']):
                v = st(v, num(i), self.rv(x))
            return v
        if len(e['es']) == 1 and k not in ('rec', 'vrec', 'other'):
            return self.rv(e['es'][0])
        if not e['es']:
            return self.zero(t)
        return raw('agg', t, tuple(self.rv(x) for x in e['es']))

    def e_stdinit(self, e):
        return self.rv(e['e'])

    def e_lambda(self, e):
        caps = []
        for c in e.get('caps', []):
            if c.get('this'):
                caps.append(('this', self.F.this))
            elif 'd' in c:
                if c.get('init'):
                    caps.append((c['d'], 'val', self.rv(c['init']), c['init']['t']))
                elif c.get('ref'):
                    A = self.l_ref({'dk': 'var', 'd': c['d'], 'n': '?', 'l': e.get('l')})
                    caps.append((c['d'], 'ref', A))
                else:
                    A = self.l_ref({'dk': 'var', 'd': c['d'], 'n': '?', 'l': e.get('l')})
                    caps.append((c['d'], 'cell', A))
        self.closures = getattr(self, 'closures', {})
        key = self.uid(e)
        self.closures[key] = (e, self.F)
        snap = []
        for c in caps:
            if c[0] == 'this':
                snap.append(c)
            elif c[1] == 'cell':
                t = self.ctypeof(c[2])
                snap.append((c[0], 'val', self.read(c[2], t) if t else UNINIT, t))
            else:
                snap.append(c)
        return raw('closure', key, tuple(tuple(x) for x in snap))

    def ctypeof(self, A):
        if A.op == 'optr':
            t = self.ctype.get((A.a[0], A.a[1]))
            if t:
                return t
            return 'unsigned long'
        return 'unsigned long'

    def e_unsup(self, e):
        return self.unsupported(e.get('what', '?'), e)

    # ------------------------------------------------------------ construction
    def rvinit(self, e, t):
        if e['k'] in ('zero',):
            return self.zero(t)
        return self.rv(e)

    def e_ctor(self, e):
        t = e['t']
        if self.isobj(t):
            r = raw('region', 'temp', self.uid(e), self.F.uid)
            self.decls.add(r)
            A = raw('optr', r, (), ())
            self.construct(e, A, t)
            return self.read(A, t)
        k = self.tk(t)
        if k == 'vrec':
            if (e.get('copy') or e.get('move')) and e['args']:
                return self.rv(e['args'][0])
            r = raw('region', 'temp', self.uid(e), self.F.uid)
            self.decls.add(r)
            A = raw('optr', r, (), ())
            self.cellset(r, (), self.default(t))
            self.callctor(e, A, t)
            return self.read(A, t)
        if k == 'arr':
            return self.default(t)
        return models.ctor(self, e, t)

    def construct(self, e, A, t):
        """run constructor expression e on address A"""
        if e['k'] == 'temp':
            e = e['e']
        if e['k'] != 'ctor':
            self.write(A, self.rv(e), t)
            return
        if self.T.get(t, {}).get('k') == 'arr':
            self.write(A, self.default(t), t)
            return
        if not self.isobj(t):
            self.write(A, self.e_ctor(e), t)
            return
        if A.op == 'optr':
            self.dynof[(A.a[0], A.a[1])] = t
        if self.tk(t) == 'bm':
            for a in e.get('args', []):
                self.rv(a)
            return
        if (e.get('copy') or e.get('move')) and e.get('impl') and e['args']:
            v = self.rv(e['args'][0])
            self.write(A, v, t)
            return
        self.callctor(e, A, t)

    def callctor(self, e, A, t):
        f = self.p.functions.get(e['fid'])
        if f is None or ('body' not in f and not f.get('inits') and f.get('kind') != 'ctor'):
            if e.get('impl') or e.get('dflt'):
                self.initdefault(A, t)
                return
            self.unsupported('constructor ' + e['fid'], e)
            return
        self.call(f, e, A, t, e['args'], e.get('pt', []))

    def initdefault(self, A, t):
        """implicit default initialisation"""
        if self.tk(t) == 'bm':
            return
        if self.isobj(t):
            rec_ = self.p.records.get(t)
            if A.op == 'optr':
                self.dynof[(A.a[0], A.a[1])] = t
            for f in self.allfields(t):
                self.initfield(A, f, t)
            return
        self.write(A, self.default(t), t)

    def initfield(self, A, f, t):
        FA = self.fieldaddr(A, f['n'], t)
        if f.get('init'):
            if self.isobj(f['t']):
                self.construct(f['init'], FA, f['t'])
            else:
                self.write(FA, self.rvinit(f['init'], f['t']), f['t'])
            return
        if self.isobj(f['t']):
            # default constructor of the member
            k = None
            for m in self.p.methods(f['t']):
                if m['kind'] == 'ctor' and m.get('dflt'):
                    k = self.p.functions.get(m['fid'])
            if k is not None and self.tk(f['t']) != 'bm':
                self.call(k, {'k': 'ctor', 'l': f.get('l')}, FA, f['t'], [p.get('def') for p in k['params']], [p['t'] for p in k['params']])
            else:
                self.initdefault(FA, f['t'])
            return
        self.write(FA, self.default(f['t']), f['t'])

    # ------------------------------------------------------------ calls
    def argvals(self, args, pts):
        out = []
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else (a['t'] if a else 'int')
            if a is None:
                out.append((UNINIT, pt))
                continue
            if self.T.get(pt, {}).get('k') == 'ref':
                out.append((self.lv_or_temp(a), pt))
            elif self.isobj(pt):
                out.append((self.rv(a), pt))
            else:
                out.append((self.rv(a), pt))
        return out

    def e_call(self, e):
        r = self.docall(e)
        if e.get('lv') and r is not None:
            return self.read(r, e['t'], e)
        return r

    def l_call(self, e):
        if e.get('lv'):
            return self.docall(e)
        return self.materialise(e)

    def docall(self, e):
        if self.S.pc is FALSE:
            return raw('dead')
        fid = e['fid']
        if e.get('mname') == 'operator()' and str(e.get('cls', '')).startswith('lambda@') and 'o' in e:
            # a function object written as a lambda expression
            A = self.objaddr(e['o'], e.get('arrow'), e)
            if self.S.pc is FALSE:
                return raw('dead')
            fv = self.read(A, e['cls'])
            ee = dict(e)
            self.uids[id(ee)] = (self.uid(e), e)
            self.keep = getattr(self, 'keep', [])
            self.keep.append(ee)

            def go(fv):
                if fv.op == 'I':
                    return self.branch(self.simp(atom(fv.a[0])), lambda: go(fv.a[1]), lambda: go(fv.a[2]))
                if fv.op == 'closure':
                    return self.callclosure(fv, ee, e['args'])
                return self.unsupported('indirect call', e)
            return go(fv)
        # library function?
        if e.get('repo') or fid in self.p.functions:
            this, cls = None, None
            if 'o' in e:
                this = self.objaddr(e['o'], e.get('arrow'), e)
                if self.S.pc is FALSE:
                    return raw('dead')
            return self.dispatch(e, this)
        return models.call(self, e)

    def dispatch(self, e, this):
        fid = e['fid']
        scls = e.get('cls')
        nm = e['fn']
        plain = nm.split('<')[0] if '<' in nm else nm
        base = scls.split('<')[0] if scls else ''
        if base in self.noeffect or (e.get('cls') and self.p.records.get(scls) and base in self.noeffect):
            vs = [self.rv(a) for a in e['args'] if a is not None]
            if self.textout and this is not None and this.op != 'I':
                return models.opaque_result(self, e, 'bm:' + e.get('mname', ''), [this])
            return models.opaque_result(self, e, 'bm', [])
        if this is not None and this.op == 'I' and (e.get('virt')):
            # receiver chosen among several objects
            at, hi, lo = this.a
            return self.branch(self.simp(atom(at)), lambda: self.dispatch(e, hi), lambda: self.dispatch(e, lo))
        targets = [fid]
        if e.get('virt') and this is not None:
            dc = self.dyncls(this, scls)
            if dc is not None:
                targets = [self.p.resolve(fid, dc)]
            else:
                cs = [scls] + self.p.derived(scls)
                targets = []
                for c in cs:
                    if self.p.records.get(c, {}).get('abstract'):
                        continue
                    r = self.p.resolve(fid, c)
                    if r not in targets:
                        targets.append(r)
                if not targets:
                    targets = [fid]
        if len(targets) == 1:
            f = self.p.functions.get(targets[0])
            if f is not None:
                key = self.opaquekey(f)
                if key is not None:
                    return self.opaquecall(e, this, key)
                if 'body' in f or f['kind'] == 'ctor':
                    vals = self.argvals(e['args'], e['pt'])
                    return self.callv(f, e, this, f.get('cls'), vals)
                if f.get('impl') and e.get('mname') == 'operator=':
                    v = self.argvals(e['args'], e['pt'])[0][0]
                    t = scls
                    self.write(this, self.read(v, t), t)
                    return this
        if e.get('mname') == 'operator=' and len(e['args']) == 1:
            A = self.lv_or_temp(e['args'][0])
            self.write(this, self.read(A, scls), scls)
            return this
        return self.vcall(e, this, targets)

    def opaquekey(self, f):
        for k in (f['fid'], f['fn'] + '/%d' % len(f['params']), f['fn']):
            if k in self.opaque:
                return self.opaque[k]
            k2 = k.split('<')[0] + ('::' + k.split('>::')[-1] if '>::' in k else '')
            if k2 in self.opaque:
                return self.opaque[k2]
        return None

    def opaquecall(self, e, this, key):
        vals = self.argvals(e['args'], e['pt'])
        args = []
        for v, pt in vals:
            if self.T.get(pt, {}).get('k') == 'ref':
                t = self.T[pt]['to']
                args.append(self.read(v, t))
            else:
                args.append(v)
        if callable(key):
            return key(self, e, this, vals, args)
        self.ev('call', e, callee=key, args=args, this=this)
        return app(key, *args)

    def dyncls(self, this, scls):
        if this.op == 'optr' and not this.a[2]:
            d = self.dynof.get((this.a[0], this.a[1]))
            if d:
                return d
            if this.a[1]:
                # a member object: its declared class
                return scls if not self.isptrfield(this) else None
        return None

    def isptrfield(self, this):
        return False

    def vcall(self, e, this, targets):
        vals = self.argvals(e['args'], e['pt'])
        mname = e.get('mname', e['fn'])
        args = [v for v, _ in vals]
        self.ev('vcall', e, name=mname, this=this, args=args, cls=e.get('cls'))
        ctx = tuple(k for k, _ in self.loops)
        if mname == 'receive':
            # another party handles the message: it may refuse it, it may change the message
            c = atom(raw('refuses', self.uid(e), self.F.uid, ctx))
            snap = []
            for v, pt in vals:
                d = self.T.get(pt, {})
                if d.get('k') == 'ptr' and self.isobj(d['to']):
                    self.ev('send', e, to=this, msg=self.snap(v, d['to']))
            s0 = self.S
            st_ = s0.fork(AND(s0.pc, c))
            r = raw('region', 'exc', self.uid(e), self.F.uid)
            if st_.pc is not FALSE:
                self.throws[-1].append((st_, raw('exc', 'ProtocolException', raw('optr', r, (), ()))))
            self.S = s0.fork(AND(s0.pc, NOT(c)))
            for v, pt in vals:
                d = self.T.get(pt, {})
                if d.get('k') == 'ptr' and self.isobj(d['to']):
                    for f in self.allfields(d['to']):
                        FA = self.fieldaddr(v, f['n'], d['to'])
                        self.write(FA, raw('after', self.uid(e), self.F.uid, ctx, f['n']), f['t'])
            return VOID
        rv_ = [self.read(v, self.T[pt]['to']) if self.T.get(pt, {}).get('k') == 'ref' else v for v, pt in vals]
        h = self.opaque.get('v:%s/%d' % (mname, len(rv_)))
        if callable(h):
            return h(self, e, this, [v for v in vals], rv_)
        return models.opaque_result(self, e, ('v:' if e.get('virt') else 'x:') + mname, [this] + rv_)

    def snap(self, A, t):
        v = self.read(A, t)
        return v

    def call(self, f, e, this, cls, args, pts):
        vals = self.argvals(args, pts or [p['t'] for p in f['params']])
        return self.callv(f, e, this, cls, vals)

    def callv(self, f, e, this, cls, vals, caps=None):
        """inline the summary of f"""
        if self.S.pc is FALSE:
            return raw('dead')
        if len(self.frames) > self.maxdepth or sum(1 for g in self.frames if g.fn is f) > 2:
            return self.unsupported('recursion of ' + f['fn'], e)
        self.fnseen.add(f['fn'])
        self.ncalls += 1
        fr = Frame(raw('frame', self.F.uid if self.frames else None, self.uid(e)), f, this, cls)
        if caps:
            fr.vars.update(caps)
        # parameters
        pm = []
        for i, p in enumerate(f['params']):
            if i < len(vals):
                v, pt = vals[i]
            else:
                v, pt = (None, p['t'])
            r = raw('region', 'local', p['d'], fr.uid)
            if self.T.get(p['t'], {}).get('k') == 'ref':
                if v is None:
                    self.frames.append(fr)
                    v = self.lv_or_temp(p['def']) if p.get('def') else raw('badread')
                    self.frames.pop()
                pm.append((p, r, v, True))
            else:
                if v is None:
                    self.frames.append(fr)
                    v = self.rvinit(p['def'], p['t']) if p.get('def') else UNINIT
                    self.frames.pop()
                pm.append((p, r, v, False))
        self.frames.append(fr)
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        try:
            for p, r, v, isref in pm:
                self.decls.add(r)
                if isref:
                    fr.vars[p['d']] = v
                else:
                    A = raw('optr', r, (), ())
                    fr.vars[p['d']] = A
                    self.write(A, v, p['t'])
            if f.get('kind') == 'ctor':
                self.ctorinits(f, this, cls)
            if f.get('body') and self.S.pc is not FALSE:
                self.stmt(f['body'])
            if self.S.pc is not FALSE:
                fr.rets.append((self.S, VOID))
            st_, v = self.mergemany([s for s, _ in fr.rets], [x for _, x in fr.rets])
            if st_ is None:
                self.S = St(FALSE, self.S.m)
                return raw('dead')
            self.S = st_
            return v
        finally:
            self.frames.pop()
            self.brk, self.cont = sb, sc

    def ctorinits(self, f, this, cls):
        t = f['cls']
        ini = f.get('inits', [])
        if any(i.get('deleg') for i in ini):
            for i in ini:
                if i.get('deleg'):
                    self.construct(i['e'], this, t) if i['e']['k'] == 'ctor' else None
                    if this.op == 'optr':
                        self.dynof[(this.a[0], this.a[1])] = cls or t
            return
        rec_ = self.p.records.get(t, {'fields': [], 'bases': []})
        vrec = self.tk(t) == 'vrec'
        for i in ini:
            if 'base' in i:
                if self.tk(i['base']) == 'vec' and vrec:
                    FA = self.fieldaddr(this, '#base', t)
                    self.write(FA, self.rv(i['e']), i['base'])
                elif i['base'] in self.p.records:
                    e = i['e']
                    if e['k'] == 'ctor':
                        if (e.get('copy') or e.get('move')) and e.get('impl') and e['args']:
                            A = self.lv_or_temp(e['args'][0])
                            for fd in self.allfields(i['base']):
                                self.write(self.fieldaddr(this, fd['n'], t), self.read(self.fieldaddr(A, fd['n'], i['base']), fd['t']), fd['t'])
                        else:
                            g = self.p.functions.get(e['fid'])
                            if g is not None:
                                self.call(g, e, this, i['base'], e['args'], e.get('pt', []))
                            else:
                                for fd in self.allfields(i['base']):
                                    self.initfield(this, fd, t)
        done = {i['field']: i for i in ini if 'field' in i}
        for fd in rec_['fields']:
            i = done.get(fd['n'])
            if i is None:
                if f.get('impl') and False:
                    continue
                self.initfield(this, fd, t)
                continue
            FA = self.fieldaddr(this, fd['n'], t)
            e = i['e']
            if e is None:
                self.initfield(this, fd, t)
            elif self.isobj(fd['t']):
                self.construct(e, FA, fd['t'])
            elif e['k'] == 'zero':
                self.write(FA, self.zero(fd['t']), fd['t'])
            elif self.T.get(fd['t'], {}).get('k') == 'ref':
                self.cellsetaddr(FA, self.lv_or_temp(e))
            else:
                self.write(FA, self.rvinit(e, fd['t']), fd['t'])
        if this is not None and this.op == 'optr':
            self.dynof[(this.a[0], this.a[1])] = cls or t

    def cellsetaddr(self, FA, A):
        r, p, accs = self.place(FA, 'int')
        self.cellset(r, p, A)

    def e_icall(self, e):
        f = self.rv(e['f'])
        if self.S.pc is FALSE:
            return raw('dead')
        args = None

        def go(fv):
            if fv.op == 'I':
                c = self.simp(atom(fv.a[0]))
                return self.branch(c, lambda: go(fv.a[1]), lambda: go(fv.a[2]))
            if fv.op == 'func':
                g = self.p.functions.get(fv.a[0])
                ee = dict(e)
                ee['fid'], ee['fn'] = fv.a[0], fv.a[1]
                ee.setdefault('pt', self.ptof(fv.a[0], e))
                self.uids[id(ee)] = (self.uid(e), e)
                self.keep = getattr(self, 'keep', [])
                self.keep.append(ee)
                if g is not None:
                    return self.dispatch(ee, None)
                return models.call(self, ee)
            if fv.op == 'closure':
                return self.callclosure(fv, e, e['args'])
            return self.unsupported('indirect call', e)
        return go(f)

    def ptof(self, fid, e):
        """parameter types from the spelled signature of an outside function"""
        s = fid[fid.index('(') + 1:fid.rindex(')')]
        out, d, cur = [], 0, ''
        for ch in s:
            if ch in '<(':
                d += 1
            if ch in '>)':
                d -= 1
            if ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        for t in out:
            if t not in self.T and t.endswith('&'):
                to = t[:-1].strip()
                if to.startswith('const '):
                    to = to[6:]
                self.T[t] = {'k': 'ref', 'to': to}
        return out

    def callclosure(self, fv, e, args):
        le_, fr0 = self.closures[fv.a[0]]
        g = {'fn': fr0.fn['fn'] + '::lambda', 'file': fr0.fn['file'], 'line': le_.get('l'), 'params': le_['params'], 'body': le_.get('body'), 'kind': 'fn', 'ret': le_['ret'], 'fid': 'lambda%d' % fv.a[0]}
        self.keep = getattr(self, 'keep', [])
        self.keep.append(g)
        pts = [p['t'] for p in le_['params']]
        vals = self.argvals(args, pts)
        caps = {}
        this = None
        for c in fv.a[1]:
            if c[0] == 'this':
                this = c[1]
            elif c[1] == 'ref':
                caps[c[0]] = c[2]
            else:
                r = raw('region', 'temp', 'cap%s' % c[0], self.F.uid, self.uid(e))
                self.decls.add(r)
                A = raw('optr', r, (), ())
                self.write(A, c[2], c[3] or 'int')
                caps[c[0]] = A
        return self.callv(g, e, this, None, vals, caps=caps)

    # ------------------------------------------------------------ statements
    def stmt(self, s):
        if s is None or self.S.pc is FALSE:
            return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.unsupported('statement ' + k, s)
            return
        m(s)

    def s_block(self, s):
        for x in s['ss']:
            if self.S.pc is FALSE:
                return
            self.stmt(x)

    def s_nop(self, s):
        pass

    def s_expr(self, s):
        e = s['e']
        if e.get('lv'):
            self.lv(e)
        else:
            self.rv(e)

    def s_decl(self, s):
        for v in s['vs']:
            if v.get('k') == 'unsup':
                self.unsupported('declaration', s)
                continue
            self.declare(v)

    def declare(self, v):
        t = v['t']
        if v.get('static'):
            r = raw('region', 'global', 'static%d' % v['d'])
            A = raw('optr', r, (), ())
            self.F.vars[v['d']] = A
            if not any(k[0] is r for k in self.S.m) and v.get('init'):
                if v['init']['k'] in ('ctor', 'temp'):
                    self.dynof[(r, ())] = t
                    self.construct(v['init'], A, t)
                else:
                    self.write(A, self.rvinit(v['init'], t), t)
                self.statics.setdefault(r, (v['n'], {p: x for (q, p), x in self.S.m.items() if q is r}))
            return
        if self.T.get(t, {}).get('k') == 'ref':
            self.F.vars[v['d']] = self.lv_or_temp(v['init'])
            return
        r = raw('region', 'local', v['d'], self.F.uid)
        self.decls.add(r)
        A = raw('optr', r, (), ())
        self.F.vars[v['d']] = A
        self.ctype[(r, ())] = t
        init = v.get('init')
        if self.isobj(t):
            self.dynof[(r, ())] = t
            if init:
                self.construct(init, A, t) if init['k'] in ('ctor', 'temp') else self.write(A, self.rv(init), t)
            else:
                self.initdefault(A, t)
            return
        if init:
            if init['k'] == 'ctor':
                self.construct(init, A, t)
            else:
                self.write(A, self.rvinit(init, t), t)
                if self.T.get(t, {}).get('k') == 'arr' and init['k'] == 'str':
                    b = bytes(init.get('bytes', []))
                    arr = raw('acon', ZERO)
                    for i, ch in enumerate(b):
                        arr = st(arr, num(i), num(ch))
                    self.write(A, arr, t)
        else:
            self.write(A, self.default(t), t)
            if not self.S.m.get((r, ())):
                pass

    def s_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.stmt(s['cv'])
        c = self.simp(self.tobool(self.rv(s['c'])))
        if self.S.pc is FALSE:
            return
        self.branch(c, lambda: self.stmt(s['a']) or VOID, lambda: self.stmt(s.get('b')) or VOID)

    def s_return(self, s):
        v = VOID
        if s.get('e') is not None:
            ret = self.F.fn.get('ret')
            if self.T.get(ret, {}).get('k') == 'ref':
                v = self.lv_or_temp(s['e'])
            else:
                v = self.rvinit(s['e'], ret)
        if self.S.pc is not FALSE:
            self.F.rets.append((self.S, v))
            self.S = St(FALSE, self.S.m)

    def s_break(self, s):
        self.brk.append(self.S)
        self.S = St(FALSE, self.S.m)

    def s_continue(self, s):
        self.cont.append(self.S)
        self.S = St(FALSE, self.S.m)

    def s_switch(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.stmt(s['cv'])
        v = self.rv(s['c'])
        if self.S.pc is FALSE:
            return
        body = s['b']
        items = body['ss'] if body['k'] == 'block' else [body]
        flat = []

        def unnest(x):
            if x and x['k'] in ('case', 'default'):
                flat.append(('label', x))
                unnest(x['s'])
            elif x is not None:
                flat.append(('stmt', x))
        for x in items:
            unnest(x)
        # conditions of the labels
        conds = {}
        seen = FALSE
        for kd, x in flat:
            if kd == 'label' and x['k'] == 'case':
                c = eq(v, self.rv(x['v']))
                if x.get('v2'):
                    c = AND(le(self.rv(x['v']), v), le(v, self.rv(x['v2'])))
                c = AND(c, NOT(seen))
                conds[id(x)] = c
                seen = OR(seen, c)
        for kd, x in flat:
            if kd == 'label' and x['k'] == 'default':
                conds[id(x)] = NOT(seen)
                seen_d = True
        entry = self.S
        sb = self.brk
        self.brk = []
        cur = St(FALSE, entry.m)
        curc = FALSE      # entry conditions of the code being executed
        hasdef = any(kd == 'label' and x['k'] == 'default' for kd, x in flat)
        for kd, x in flat:
            if kd == 'label':
                c = self.simp(conds[id(x)]) if cur.pc is FALSE else conds[id(x)]
                ns = entry.fork(AND(entry.pc, c))
                if ns.pc is FALSE:
                    continue
                if cur.pc is FALSE:
                    cur = ns
                else:
                    cur, _ = self.mergemany([ns, cur])
                curc = OR(curc, c)
            else:
                self.S = cur
                if cur.pc is not FALSE:
                    PROVER.push_cond(restrict(curc, TRUE))
                    self.stmt(x)
                    PROVER.pop()
                cur = self.S
                if cur.pc is FALSE:
                    curc = FALSE
        outs = self.brk + [cur]
        if not hasdef:
            outs.append(entry.fork(AND(entry.pc, NOT(seen))))
        self.brk = sb
        st_, _ = self.mergemany(outs)
        self.S = st_ if st_ is not None else St(FALSE, entry.m)

    def s_try(self, s):
        self.throws.append([])
        self.stmt(s['b'])
        ths = self.throws.pop()
        normal = self.S
        outs = [normal]
        for st_, exc in ths:
            h = None
            for x in s['hs']:
                if 't' not in x or self.catches(x['t'], exc.a[0]):
                    h = x
                    break
            if h is None:
                self.throws[-1].append((st_, exc))
                continue
            self.S = st_
            if 'd' in h:
                A = exc.a[1] if len(exc.a) > 1 else raw('optr', raw('region', 'exc', 0, self.F.uid), (), ())
                self.F.vars[h['d']] = A
            old = getattr(self, 'curexc', None)
            self.curexc = exc
            self.stmt(h['b'])
            self.curexc = old
            outs.append(self.S)
        st_, _ = self.mergemany(outs)
        self.S = st_ if st_ is not None else St(FALSE, normal.m)

    def catches(self, ht, et):
        ht = self.strip(ht)
        d = self.T.get(ht, {})
        if ht.startswith('const '):
            ht = ht[6:]
        if ht == et or ht in self.p.bases(et):
            return True
        if et == 'std::bad_alloc' and ht == 'std::exception':
            return True
        if ht == 'std::exception' and et in self.p.records and 'bad_alloc' not in et:
            return True
        return False

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        self.loop(s, 'while', s.get('c'), s['b'], s.get('inc'), s.get('cv'))

    def s_while(self, s):
        self.loop(s, 'while', s['c'], s['b'], None, s.get('cv'))

    def s_do(self, s):
        self.loop(s, 'do', s['c'], s['b'], None, None)

    def s_range(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        models.rangeloop(self, s)

    def loop(self, s, kind, cond, body, inc, cv=None, native=None):
        """native: (n, bind) – iterate exactly n times, bind(k) run at the start of the body"""
        if self.S.pc is FALSE:
            return
        self.nloops += 1
        import loops
        loops.run(self, s, kind, cond, body, inc, cv, native)

    # ------------------------------------------------------------ entry
    def analyse(self, f, cls=None, args=None, pre=None, this=None):
        """summarise f as an entry point; returns a Summary"""
        self.frames = [Frame(raw('frame', 'root'), f)]
        self.S = St(TRUE, {})
        this_ = None
        if f.get('cls') and not f.get('static'):
            c = cls or f['cls']
            if this is not None:
                this_ = this
            elif self.isobj(c):
                r = raw('region', 'this')
                this_ = raw('optr', r, (), ())
                self.dynof[(r, ())] = c
                self.thisregion = r
            else:
                r = raw('region', 'this')
                this_ = raw('optr', r, (), ())
                self.thisregion = r
        vals = []
        self.args = []
        for i, p in enumerate(f['params']):
            t = p['t']
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            elif self.T.get(t, {}).get('k') == 'ref':
                v = raw('optr', raw('region', 'arg', i), (), ())
            elif self.isobj(t):
                r = raw('region', 'arg', i)
                v = self.snapshot(r, (), t)
            else:
                v = sym('arg%d' % i)
                d = self.T.get(t, {})
                if d.get('k') in ('int', 'enum') and not d.get('s'):
                    mark_nonneg(v)
                if d.get('k') == 'bool':
                    v = atom(v)
            vals.append((v, t))
            self.args.append(v)
        if pre:
            pre(self, this_, vals)
        e = {'k': 'entry', 'l': f.get('line')}
        self.keep = getattr(self, 'keep', [])
        self.keep.append(e)
        self.this = this_
        rv_ = self.callv(f, e, this_, cls or f.get('cls'), vals)
        return Summary(self, f, self.S, rv_, self.throws[0], self.exits)


class Summary:
    made = 0

    def __init__(self, it, f, s, rv, throws, exits):
        Summary.made += 1
        self.number = Summary.made
        self.it = it
        self.f = f
        self.S = s
        self.rv = rv
        self.throws = throws
        self.exits = exits
        self.events = it.events
        self.unsup = it.unsup

    def field(self, *path):
        r = raw('region', 'this')
        t = None
        return self.S.m.get((r, tuple(path)), raw('cell', r, tuple(path)))

    def at(self, A, t):
        s = self.it.S
        self.it.S = self.S
        try:
            return self.it.read(A, t)
        finally:
            self.it.S = s

    def throwpc(self, exc='ProtocolException'):
        r = FALSE
        for s, x in self.throws:
            if exc is None or x.a[0] == exc or exc in self.it.p.bases(x.a[0]):
                r = OR(r, s.pc)
        return r

    def exitpc(self):
        r = FALSE
        for s, c in self.exits:
            r = OR(r, s.pc)
        return r


def isbool(v):
    if v in (TRUE, FALSE):
        return True
    if v.op == 'I':
        return isbool(v.a[1]) and isbool(v.a[2])
    return False


def objfield(v, f):
    if v.op == 'objval':
        for n, x in v.a[1]:
            if n == f:
                return x
        return UNINIT
    if v.op in ('uninit', 'dead'):
        return UNINIT
    return raw('ofield', v, f)


def joinval(c, a, b):
    """gate of two values; undefined values leave the other one"""
    if a is b:
        return a
    if a.op in ('dead', 'badread'):
        return b
    if b.op in ('dead', 'badread'):
        return a
    if a is UNINIT:
        return b
    if b is UNINIT:
        return a
    if a.op == 'objval' and b.op == 'objval' and len(a.a[1]) == len(b.a[1]):
        return raw('objval', a.a[0], tuple((n, joinval(c, x, y)) for (n, x), (_, y) in zip(a.a[1], b.a[1])))
    if structural(a) and structural(b) and (a.op, b.op) != ('I', 'I'):
        r = joinstruct(c, a, b)
        if r is not None:
            return r
    return ite(c, a, b)


def structural(v):
    return v.op in ('vec', 'rec')


def joinstruct(c, a, b):
    if a.op == 'vec' and b.op == 'vec':
        return vec(ite(c, a.a[0], b.a[0]), joinval(c, a.a[1], b.a[1]))
    if a.op == 'rec' and b.op == 'rec':
        da, db = dict(a.a[0]), dict(b.a[0])
        if set(da) == set(db):
            return rec({k: joinval(c, da[k], db[k]) for k in da})
    return None
