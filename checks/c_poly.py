"""Batches of polynomials, step by step."""
from chk import check
import chk
import ir
import an
import proto
import interp
import models
from terms import *
from c_hash import f, cellof, final, THIS
from c_small import setter, getter, ctors, only, run, boolof
from c_values import gathered, factored

Z = 'ZZpPolynomials'
def imp(a, b):
    return OR(NOT(a), b)


POLY, PAIR = f(Z, 'polynomials'), f(Z, 'factorPairs')
NF, PS, RO = f(Z, 'n', getter=Z + '::size'), f(Z, 'padsize', getter=Z + '::getPadsize'), f(Z, 'roots')


def through(s, p, fn):
    """fn(array value, number of elements allocated or None) of what a pointer value points to after the call"""
    if p.op == 'I':
        return ite(p.a[0], through(s, p.a[1], fn), through(s, p.a[2], fn))
    if p is NULL or p.op in ('uninit', 'dead'):
        return UNINIT
    if p.op in ('optr', 'ptr'):
        r = p.a[0]
        return fn(s.S.m.get((r, ()), raw('cell', r, ())), s.S.m.get((r, ('#n',))))
    r = proto.derefr(p)
    return fn(s.S.m.get((r, ()), raw('cell', r, ())), None)


def ite(c, a, b):
    return interp.joinval(c, a, b)


@check('C29', 'Value-flow summaries of every operation from an arbitrary state of the batch: arrays afterwards compared at a generic position, room in the arrays as an inductive invariant.')
def c29(R):
    nn = cellof(THIS, NF)
    mark_nonneg(nn)
    P0, F0 = cellof(THIS, POLY), cellof(THIS, PAIR)
    pa, fa = cellof(proto.derefr(P0)), cellof(proto.derefr(F0))
    j = fresh('j', True)

    def elem(s, p):
        return through(s, p, lambda a, n: rd(a, j))

    def extent(s, p, old):
        """elements behind a pointer: what was allocated, or (inductively) the former number of polynomials"""
        return through(s, p, lambda a, n: n if n is not None else old)

    def within(g, n):
        return AND(g, AND(le(ZERO, j), lt(j, n)))

    ext = sym('extent')
    mark_nonneg(ext)

    def factors_of(x):
        # factors are unique up to a constant, which makeMonic removes
        return app('factors', x.a[0] if x.op == 'monic' else x)

    def known(v):
        """with factors there before being those of the polynomials"""
        return subst(v, {fa: lamfun(lambda k: factors_of(rd(pa, k)))})

    def sizes(what, s, where):
        """arrays hold at least the number of polynomials in use"""
        n = final(s, THIS, (NF,))
        for nm, fld in (('polynomials', POLY), ('factor pairs', PAIR)):
            p = final(s, THIS, (fld,))
            e0 = extent(s, p, ext)
            e0 = num(1 << 70) if e0 is UNINIT else e0
            R.implies('%s: room for as many %s as polynomials in use' % (what, nm), AND(AND(NOT(isnull(p)), le(nn, ext)), lt(e0, n)), FALSE, where)
        p = final(s, THIS, (POLY,))
        R.implies('%s: polynomials in use are there' % what, AND(isnull(p), AND(lt(ZERO, n), imp(lt(ZERO, nn), NOT(isnull(P0))))), FALSE, where)
        p = final(s, THIS, (PAIR,))
        R.implies('%s: nothing is factorised without polynomials' % what, AND(NOT(isnull(p)), AND(isnull(final(s, THIS, (POLY,))), imp(isnull(P0), isnull(F0)))), FALSE, where)
        R.never('%s: throws nothing' % what, s.throwpc(None), where)
        now = elem(s, final(s, THIS, (POLY,)))
        R.same('%s: factors are those of the polynomials in use' % what, strip(known(elem(s, p))), lift('factorsof', factors_of, now), where,
               within(AND(AND(NOT(isnull(p)), imp(eq(nn, n), NOT(isnull(P0)))), imp(isnull(P0), isnull(F0))), n))

    # empty to begin with
    cs = [x for x in ctors(Z)]
    R.need(len(cs) == 1, 'constructor of the batch')
    s = an.run(None, fid=cs[0]['fid'], noeffect=())
    R.seen(*sorted(s.it.fnseen))
    w = Z + '::' + Z
    R.same('a new batch is empty', final(s, THIS, (NF,)), ZERO, w)
    R.same('a new batch has the padding it is given', final(s, THIS, (PS,)), s.it.args[0], w)
    for nm, fld in (('polynomials', POLY), ('factor pairs', PAIR)):
        R.implies('a new batch has no %s' % nm, NOT(isnull(final(s, THIS, (fld,)))), FALSE, w)
    R.same('a new batch has no roots', vlen(final(s, THIS, (RO,))), ZERO, w)
    getter(R, Z + '::size', nn)
    getter(R, Z + '::getPadsize', cellof(THIS, PS))
    th = f(Z, 'nThreads')
    s = run(R, Z + '::useThreads', 1)
    only(R, Z + '::useThreads', s, {}, Z + '::useThreads', ignore=(th,))

    # interpolation
    s = an.run(Z + '::interpolate', 4)
    R.seen(*sorted(s.it.fnseen))
    w = Z + '::interpolate'
    X, Y, n, mo = s.it.args
    mob = boolof(mo)
    X = cellof(X.a[0]) if X.op == 'optr' else raw('unk', 'x')
    Y = cellof(proto.derefr(Y))
    R.same('interpolate: as many polynomials are in use as asked for', final(s, THIS, (NF,)), n, w)
    got = elem(s, final(s, THIS, (POLY,)))
    one = models.interp(X, rd(Y, j))
    there = imp(eq(nn, n), NOT(isnull(P0)))
    R.same('interpolate: each is the monic polynomial through its points', got, app('monic', one), w, within(AND(mob, there), n))
    R.same('interpolate: each is the polynomial through its points if it shall not be monic', got, one, w, within(AND(NOT(mob), there), n))
    sizes('interpolate', s, w)
    frame(R, 'interpolate', s, (NF, POLY, PAIR), w)
    # made monic
    s = an.run(Z + '::makeMonic', 0)
    R.seen(*sorted(s.it.fnseen))
    w = Z + '::makeMonic'
    R.same('makeMonic: each is made monic', elem(s, final(s, THIS, (POLY,))), app('monic', rd(pa, j)), w, within(NOT(isnull(P0)), nn))
    sizes('makeMonic', s, w)
    frame(R, 'makeMonic', s, (), w)
    # factors
    s = an.run(Z + '::factorise', 1)
    R.seen(*sorted(s.it.fnseen))
    w = Z + '::factorise'
    R.implies('factorise: polynomials get factors', AND(isnull(final(s, THIS, (PAIR,))), NOT(isnull(P0))), FALSE, w)
    R.same('factorise: the polynomials stay', elem(s, final(s, THIS, (POLY,))), rd(pa, j), w, within(NOT(isnull(P0)), nn))
    R.same('factorise: without polynomials nothing changes', final(s, THIS, (PAIR,)), F0, w, isnull(P0))
    sizes('factorise', s, w)
    frame(R, 'factorise', s, (PAIR,), w)
    # roots
    s = an.run(Z + '::findIntersection', 0)
    R.seen(*sorted(s.it.fnseen))
    w = Z + '::findIntersection()'
    ps = cellof(THIS, PS)
    mark_nonneg(ps)
    R.same('findIntersection: the roots are gathered from the factors', final(s, THIS, (RO,)), gathered(lambda k: rd(fa, k), ps, nn), w, NOT(isnull(F0)))
    R.same('findIntersection: no roots without factors', vlen(final(s, THIS, (RO,))), ZERO, w, isnull(F0))
    told(R, 'findIntersection', s, w)
    sizes('findIntersection', s, w)
    frame(R, 'findIntersection', s, (RO,), w)
    # all at once
    s = an.run(Z + '::findIntersection', 4)
    R.seen(*sorted(s.it.fnseen))
    w = Z + '::findIntersection(points)'
    X, Y, n, _ = s.it.args
    X = cellof(X.a[0]) if X.op == 'optr' else raw('unk', 'x')
    Y = cellof(proto.derefr(Y))
    R.same('findIntersection(points): as many polynomials are in use as asked for', final(s, THIS, (NF,)), n, w)
    there = imp(isnull(P0), isnull(F0))
    R.same('findIntersection(points): leaves the polynomials of interpolate', elem(s, final(s, THIS, (POLY,))), app('monic', models.interp(X, rd(Y, j))), w, within(there, n))
    R.same('findIntersection(points): leaves the factors of factorise', elem(s, final(s, THIS, (PAIR,))), factored(X, rd(Y, j)), w, within(there, n))
    R.same('findIntersection(points): the roots are those of findIntersection() after the steps', final(s, THIS, (RO,)), gathered(lambda k: factored(X, rd(Y, k)), ps, n), w)
    told(R, 'findIntersection(points)', s, w)
    sizes('findIntersection(points)', s, w)
    frame(R, 'findIntersection(points)', s, (RO, NF, POLY, PAIR), w)


def strip(t):
    """the factors of a polynomial made monic are those of the polynomial"""
    m, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'factors' and x.a[0].op == 'monic':
            m[x] = app('factors', x.a[0].a[0])
        st += subterms1(x)
    return subst(t, m) if m else t


def told(R, what, s, where):
    R.ob('%s: hands out the roots' % what, s.rv.op in ('ptr', 'optr') and s.rv.a[0] is THIS and tuple(s.rv.a[1]) == (RO,), where, chk.short(s.rv))


def frame(R, what, s, may, where):
    for (r, p), v in sorted(s.S.m.items(), key=lambda kv: str(kv[0])):
        if r is THIS and p and p[0] not in may:
            R.same('%s leaves %s alone' % (what, '.'.join(map(str, p))), v, cellof(THIS, *p), where)
