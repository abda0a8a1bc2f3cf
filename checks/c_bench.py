"""The benchmark: which times are taken, and what is computed from them."""
from chk import check
import an
import loops
import proto
import reals
import terms
from terms import *

THIS = proto.THISR
SB = 'SimpleBenchmark'


def fld(n, typ):
    return proto.field(SB, n, typ=typ)


def names():
    return (fld('times', lambda t: t.startswith('std::vector<std::chrono::time_point')), fld('pauses', lambda t: t.startswith('std::vector<bool')),
            fld('cursors', lambda t: 'map<' in t), fld('stopped', lambda t: t == 'bool'))


class B:
    """the state of a benchmark: n times, n + 1 pause flags"""

    def __init__(self):
        t, p, c, s = self.f = names()
        self.times = raw('cell', THIS, (t,))
        self.n = vlen(self.times)
        mark_nonneg(self.n)
        self.pauses = vec(add(self.n, ONE), raw('elems', raw('cell', THIS, (p,))))
        self.cursors = raw('cell', THIS, (c,))
        self.stopped = atom(raw('cell', THIS, (s,)))

    def pre(self, it, this, vals):
        it.S.m[(THIS, (self.f[1],))] = self.pauses

    def time(self, i):
        return rd(varr(self.times), i)

    def paused(self, i):
        """is the interval that ends at time i a pause?"""
        v = rd(varr(self.pauses), i)
        return tobool(v)

    def pausing(self):
        return AND(NOT(self.stopped), self.paused(self.n))

    def iv(self, i):
        """interval that ends at time i, in microseconds"""
        return fdiv0(sub(self.time(i), self.time(sub(i, ONE))))

    def upto(self, m, f):
        """sum of f(i) for i = 1 .. m-1"""
        k = fresh('k', True)
        return ite(le(m, ONE), ZERO, loops.summ(sub(m, ONE), k, f(add(k, ONE))))

    def total(self, m):
        return self.upto(m, lambda i: ite(self.paused(i), ZERO, self.iv(i)))

    def counted(self, m):
        return self.upto(m, lambda i: ite(self.paused(i), ZERO, ONE))


def fdiv0(x):
    return lift('tdiv1000', lambda z: app('div', z, num(1000)), x)


def run(b, name, np=None, **kw):
    return an.run(SB + '::' + name, np, noeffect=(), pre=b.pre, **kw)


def final(s, b, i):
    v = s.S.m.get((THIS, (b.f[i],)))
    if v is None:
        v = (b.times, b.pauses, b.cursors, b.stopped)[i]
    return v


def clock(s):
    ev = [e for e in s.events if e.kind == 'clock']
    return ev


def inrange(R, name, s):
    n = 0
    for e in s.events:
        if e.kind != 'vindex' or e.len is None:
            continue
        n += 1
        facts = []
        for k, m in e.ctx:
            facts += [neg(k)] + ([add(sub(k, m), ONE)] if m.op == 'P' or m.op == 'n' else [])
        PROVER.push(facts)
        try:
            R.implies('%s: reading element %s stays inside the vector' % (name, n), e.pc, AND(le(ZERO, e.idx), lt(e.idx, e.len)), e.loc)
        finally:
            PROVER.pop()
    R.count('vector reads', n)
    return n


def samelist(R, name, v, spec, where):
    """v is the list old[0..n), then the given elements: spec = (length, function index -> element)"""
    n, f = spec
    R.same(name + ': length', vlen(v), n, where)
    i = fresh('i', True)
    R.same(name + ': elements', rd(varr(v), i), f(i), where, lt(i, n))


def mutation(R, b, name, np, cases, args=None):
    """cases: function of the argument terms giving [(condition, action)], action in 'same','start', ('take', pausing, cursor), stopped'"""
    s = run(b, name, np)
    fn = SB + '::' + name
    R.seen(*sorted(s.it.fnseen))
    a = s.it.args
    R.never('%s neither throws nor exits' % name, OR(s.throwpc(None), s.exitpc()), fn)
    inrange(R, name, s)
    now = fresh('now')
    T, P, C, S = (final(s, b, i) for i in range(4))
    # every reading of the clock is a time of its own: name the one that is stored
    i = fresh('i', True)
    for cond, act, stopped in cases(a):
        R.equiv('%s: stopped afterwards (%s)' % (name, label(act)), AND(cond, tobool(S)), AND(cond, stopped), fn)
        if act == 'same':
            R.same(name + ': no time is taken', T, b.times, fn, cond)
            R.same(name + ': no pause flag changes', P, b.pauses, fn, cond)
            R.same(name + ': no cursor changes', C, b.cursors, fn, cond)
            continue
        if act == 'reset':
            R.same(name + ': no time is kept', vlen(T), ZERO, fn, cond)
            R.same(name + ': one pause flag', vlen(P), ONE, fn, cond)
            R.never(name + ': what follows is no pause', AND(cond, tobool(rd(varr(P), ZERO))), fn)
            R.same(name + ': no cursor is kept', C, raw('mempty'), fn, cond)
            continue
        if act == 'start':
            m, pausing, cursor = ZERO, FALSE, None
        else:
            m, pausing, cursor = b.n, act[1], act[2]
        R.same('%s: one time is taken (%s)' % (name, label(act)), vlen(T), add(m, ONE), fn, cond)
        R.same('%s: one pause flag more than times (%s)' % (name, label(act)), vlen(P), add(m, num(2)), fn, cond)
        t = chkprune(rd(varr(T), m), cond)
        ok = t.op == 'nondet' and t.a[0] == 'now'
        R.ob('%s: the time taken is the clock\'s (%s)' % (name, label(act)), True if ok else None if unknownish(t) else False, fn, str(t)[:300])
        R.equiv('%s: the flag of what follows says whether it is a pause (%s)' % (name, label(act)), AND(cond, tobool(rd(varr(P), add(m, ONE)))), AND(cond, pausing), fn)
        if m is ZERO:
            R.never('%s: the first flag is unset' % name, AND(cond, tobool(rd(varr(P), ZERO))), fn)
            R.same(name + ': no cursor is kept', C, raw('mempty'), fn, cond)
        else:
            R.same('%s: earlier times stay (%s)' % (name, label(act)), rd(varr(T), i), b.time(i), fn, AND(cond, lt(i, m)))
            R.same('%s: earlier pause flags stay (%s)' % (name, label(act)), tobool(rd(varr(P), i)), b.paused(i), fn, AND(cond, le(i, m)))
            R.same('%s: the cursor names this time (%s)' % (name, label(act)), C, ite(eq(cursor, raw('sconst', b'')), b.cursors, mput(b.cursors, cursor, b.n)) if cursor is not None else b.cursors, fn, cond)
    return s


def tobool(v):
    return lift('tobool', lambda z: z if z in (TRUE, FALSE) else atom(z), v)


def unknownish(t):
    import chk
    return chk.imprecise(t) or chk.unmodelled(t) or t.op == 'I'


def chkprune(t, cond):
    import chk
    import interp
    PROVER.push_cond(cond)
    try:
        return chk.norm(chk.prune(interp.restrict(t, cond), cond))
    finally:
        PROVER.pop()


def label(act):
    return act if isinstance(act, str) else 'pausing' if act[1] is TRUE else 'going on'


def EMPTY():
    return raw('sconst', b'')


@check('C21', 'Value-flow summaries of every public operation of the benchmark over an arbitrary state with as many pause flags as times and one more: the state after each operation compared with the specification, which again satisfies the invariant; every reading of the two vectors inside them; the figures compared, as sums over the intervals, with their definitions (floating point read as real numbers).')
def c21(R):
    b = B()
    n, stopped = b.n, b.stopped
    # ---- operations
    with R.group('operations'):
        mutation(R, b, 'reset', 0, lambda a: [(TRUE, 'reset', FALSE)])
        mutation(R, b, 'start', 0, lambda a: [(TRUE, 'start', FALSE)])
        none = eq(n, ZERO)
        some = NOT(none)

        def step(a):
            c = a[0] if a else EMPTY()
            return [(none, 'start', FALSE), (AND(some, stopped), 'same', TRUE), (AND(some, NOT(stopped)), ('take', FALSE, c), FALSE)]
        mutation(R, b, 'step', 1, step)
        mutation(R, b, 'cont', 0, step)
        quiet = OR(OR(none, stopped), b.pausing())
        mutation(R, b, 'pause', 1, lambda a: [(quiet, 'same', stopped), (NOT(quiet), ('take', TRUE, a[0]), FALSE)])
        idle = OR(stopped, b.pausing())
        mutation(R, b, 'stop', 1, lambda a: [(idle, 'same', TRUE), (NOT(idle), ('take', FALSE, a[0]), TRUE)])
    with R.group('state'):
        s = run(b, 'isPaused', 0)
        R.equiv('a running benchmark is paused when its last time began a pause', tobool(s.rv), b.pausing(), SB + '::isPaused')
        inrange(R, 'isPaused', s)
        s = run(b, 'isStopped', 0)
        R.equiv('a benchmark is stopped when it has been stopped', tobool(s.rv), stopped, SB + '::isStopped')
        cs = [fid for fid, g in an.prog().functions.items() if fid.startswith(SB + '::#ctor(') and len(g['params']) == 1 and SB not in g['params'][0]['t']]
        R.need(len(cs) == 1, 'no constructor of the benchmark')
        s = an.run(None, fid=cs[0], noeffect=())
        R.seen(*sorted(s.it.fnseen))
        w = cs[0]
        T, Pv, C, S = (s.S.m.get((THIS, (x,)), raw('cell', THIS, (x,))) for x in b.f)
        R.same('a new benchmark has no times', vlen(T), ZERO, w)
        R.same('a new benchmark has one pause flag', vlen(Pv), ONE, w)
        R.never('a new benchmark does not begin with a pause', tobool(rd(varr(Pv), ZERO)), w)
        R.same('a new benchmark has no cursors', C, raw('mempty'), w)
        R.implies('a new benchmark is stopped', TRUE, tobool(S), w)
    # ---- figures
    with R.group('figures'):
        two = le(num(2), n)
        cur, nop = sym('arg0'), None
        last = b.iv(sub(n, ONE))
        s = run(b, 'benchmark', 1, pred=lambda g: 'basic_string' not in g['fid'])
        c = s.it.args[0]
        R.seen(*sorted(s.it.fnseen))
        one = lambda c: ite(AND(lt(c, n), two), ite(eq(c, ZERO), last, b.iv(c)), ZERO)
        R.same('the time of a cursor is the interval that ends there, of none the last one', s.rv, one(c), SB + '::benchmark')
        inrange(R, 'benchmark', s)
        s = run(b, 'benchmark', 1, pred=lambda g: 'basic_string' in g['fid'])
        c = s.it.args[0]
        named = lambda c: ite(mhas(b.cursors, c), mget(b.cursors, c), ZERO)
        mark_nonneg(mget(b.cursors, c))
        R.same('a named cursor stands for its number', s.rv, one(named(c)), SB + '::benchmark')
        inrange(R, 'benchmark(name)', s)
        cum = lambda c, nop: ite(lt(c, n), ite(eq(c, ZERO), ite(nop, b.total(n), span(b, sub(n, ONE))), ite(nop, b.total(add(c, ONE)), span(b, c))), ZERO)
        for g, f in (('basic_string', named), (None, lambda c: c)):
            s = run(b, 'cumulativeBenchmark', 2, pred=lambda h: ('basic_string' in h['fid']) == bool(g))
            R.seen(*sorted(s.it.fnseen))
            c, nop = f(s.it.args[0]), tobool(s.it.args[1])
            R.same('the cumulative time adds the intervals up to the cursor%s, without pauses if they are left out' % (' named' if g else ''), s.rv, cum(c, nop), SB + '::cumulativeBenchmark')
            inrange(R, 'cumulativeBenchmark', s)
    with R.group('statistics'):
        enough = lambda nop: AND(two, OR(NOT(nop), le(ONE, b.counted(n))))
        s = run(b, 'average', 1)
        R.seen(*sorted(s.it.fnseen))
        nop = tobool(s.it.args[0])
        inrange(R, 'average', s)
        avg = lambda nop: ite(nop, mul(b.total(n), reals.inv(b.counted(n))), mul(span(b, sub(n, ONE)), reals.inv(sub(n, ONE))))
        R.same('the average is the cumulative time over the number of intervals', reals.real(s.rv), ite(enough(nop), avg(nop), ZERO), SB + '::average')
        s = run(b, 'variance', 1)
        R.seen(*sorted(s.it.fnseen))
        nop = tobool(s.it.args[0])
        inrange(R, 'variance', s)

        def var(nop):
            m = ite(nop, b.counted(n), sub(n, ONE))
            a = avg(nop)
            return b.upto(n, lambda i: ite(AND(nop, b.paused(i)), ZERO, mul(mul(sub(b.iv(i), a), sub(b.iv(i), a)), reals.inv(m))))
        R.same('the variance is the mean squared distance from the average', reals.real(s.rv), ite(enough(nop), var(nop), ZERO), SB + '::variance')
        s = run(b, 'standardDeviation', 1)
        nop = tobool(s.it.args[0])
        inrange(R, 'standardDeviation', s)
        R.same('the standard deviation is the root of the variance', reals.real(s.rv), ite(enough(nop), app('x:sqrt', var(nop)), ZERO), SB + '::standardDeviation')
        R.seen(*sorted(s.it.fnseen))
    with R.group('extremes'):
        for name, big in (('max', True), ('min', False)):
            s = run(b, name, 1)
            R.seen(*sorted(s.it.fnseen))
            nop = tobool(s.it.args[0])
            inrange(R, name, s)
            extreme(R, b, s, name, big, nop, enough)


def span(b, i):
    return fdiv0(sub(b.time(i), b.time(ZERO)))


def better(big, x, p):
    return ite(lt(p, x) if big else lt(x, p), x, p)


def plain(b, big, nop, f, t):
    """t is the fold, over the intervals from the one after time f on, that keeps the better one (lemma for the other extreme kept beside it)"""
    if t.op != 'fold':
        return False
    p, k = fresh('p'), fresh('k', True)
    body = beta(beta(t.a[0], p), k)
    off = ONE if nop else num(2)
    i = add(add(f, off), k)
    facts = []
    inner = [x for x in allsub(body).values() if x.op == 'fold' and k in support(x) and p not in support(x)]
    inner = [x for x in inner if not any(x is not y and x in allsub(y).values() for y in inner)]
    for x in inner:
        # the other extreme of the same intervals: never on the wrong side of this one
        if x.a[2] is not k or x.a[1] is not t.a[1]:
            return False
        if not plain(b, not big, nop, f, raw('fold', x.a[0], x.a[1], t.a[2])):
            return False
        m = fresh('m')
        body = subst(body, {x: m})
        facts.append(sub(m, p) if big else sub(p, m))
    want = better(big, b.iv(i), p)
    if nop:
        want = ite(b.paused(i), p, want)
    import chk
    PROVER.push([neg(k)] + facts)
    try:
        return chk.norm(body) is chk.norm(want) or chk.agree(chk.norm(body), chk.norm(want))
    finally:
        PROVER.pop()


def extreme(R, b, s, name, big, nop, enough):
    import chk
    import interp
    n = b.n
    w = SB + '::' + name
    k = fresh('k', True)
    first = raw('first', sub(n, ONE), close(k, NOT(b.paused(add(k, ONE)))))
    p = fresh('p')

    def ref(skip, f, init):
        x = better(big, b.iv(add(k, ONE)), p)
        return raw('fold', close(p, close(k, ite(b.paused(add(k, ONE)), p, x) if skip else x)), init, sub(n, ONE))
    refs = {True: ref(True, first, b.iv(add(first, ONE))), False: ref(False, ZERO, b.iv(ONE))}
    for skip in (True, False):
        c = AND(enough(nop), nop if skip else NOT(nop))
        t = chkprune(s.rv, c)
        f = first if skip else ZERO
        what = 'the %s is that of the intervals%s' % (name, ', pauses left out' if skip else '')
        if plain(b, big, skip, f, t):
            m = sub(sub(n, ONE), f) if skip else sub(n, num(2))
            facts = AND(c, lt(first, sub(n, ONE))) if skip else c
            R.same(what + ': every interval is looked at', t.a[2], m, w, c)
            R.same(what + ': it starts with one of them', t.a[1], b.iv(add(f, ONE)), w, facts)
        else:
            R.same(what, t, refs[skip], w, c)
    R.same('the %s is nothing when there is no interval' % name, s.rv, ZERO, w, NOT(enough(nop)))
