"""Nothing is computed from memory nobody wrote."""
from chk import check
import chk
import ir
import an
import interp
from c_memory import name, OUT
from terms import *

KINDS = ('int', 'enum', 'float', 'ptr', 'bool')
TWIN = {raw('junk', k): raw('junk', k, 2) for k in KINDS}
_has = {}


def junky(t):
    """whether a value mentions undefined memory"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'junk':
            return True
        st += subterms1(x)
    return False


def terms_of(v):
    if isinstance(v, T):
        yield v
    elif isinstance(v, (tuple, list)):
        for x in v:
            for y in terms_of(x):
                yield y


def analyse(f):
    it = interp.Interp(an.prog(), noeffect=() if f.get('cls') == 'SimpleBenchmark' else ('SimpleBenchmark',))
    it.opaque = {k: v for k, v in an.STD.items() if f['fn'] + '/%d' % len(f['params']) != k}
    it.junk = True
    return it.analyse(f)


def sinks(s):
    """(what, where, value, condition) of everything that outlives or leaves the function"""
    w = s.f['fid']
    yield 'result', w, s.rv, s.S.pc
    for nm, c in (('end by exception', s.throwpc(None)), ('end of the process', s.exitpc()), ('return', s.S.pc)):
        yield nm, w, c, TRUE
    for e in s.events:
        yield '%s happening' % e.kind, e.loc, e.pc, TRUE
        for k, v in e.__dict__.items():
            if k not in ('kind', 'loc', 'pc', 'fn', 'ctx'):
                for x in terms_of(v):
                    yield '%s of %s' % (k, e.kind), e.loc, x, e.pc
    kept = {x.a[0] for (r, p), v in s.S.m.items() if r.a[0] == 'this' for x in parts(v) if x.op in ('ptr', 'optr')}
    for (r, p), v in s.S.m.items():
        if r.a[0] in OUT or r in kept and s.S.m.get((r, ('#n',))) is not None:
            continue      # a buffer of the object may be larger than what is in it
        if r.a[0] == 'heap' and s.S.m.get((r, ('#n',))) is not None and not p:
            # an array: the elements it has, unless it was not written at all yet
            n, j = s.S.m[(r, ('#n',))], fresh('j', True)
            c = s.S.pc
            for e in s.events:
                if e.kind == 'alloc' and e.region is r:
                    c = AND(c, e.pc)
            if not untouched(v):
                yield '%s afterwards' % show(r), w, rd(v, j), AND(c, AND(le(ZERO, j), lt(j, n)))
        elif not untouched(v):
            yield '%s afterwards' % '.'.join([show(r)] + [str(x) for x in p]), w, v, s.S.pc


def parts(v):
    if v.op == 'I':
        return parts(v.a[1]) + parts(v.a[2])
    return [v]


# sizes of digests and the halving sum are beyond linear arithmetic: C14 and C23 decide these results exactly
ELSEWHERE = ('ZZPRF::generate', 'StrInt::#ctor', 'StrInt::StrInt', 'StrInt::set')


def unfolded(v):
    """does v mention an array that a loop builds in a way there is no closed form for?"""
    seen, todo = set(), [v]
    while todo:
        t = todo.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'fold' and (t.a[1].op in ('rd', 'lam', 'acon', 'elems', 'cell') or junky(t)):
            return True
        todo += subterms1(t)
    return False


def untouched(v):
    """an array nothing was written to yet"""
    return v.op == 'acon' and (v.a[0].op in ('junk', 'acon'))


@check('C28', 'Value-flow summary of every function with undefined scalars as values of their own: no result, effect, decision or surviving cell may differ when they do.')
def c28(R):
    P = an.prog()
    n = 0
    for fid, f in sorted(P.functions.items()):
        if not f.get('file', '').startswith(ir.REPO) or f.get('impl') and not f.get('copy') and '::operator=(' not in fid or not an.entry(f):
            continue
        with R.group('summary of ' + fid[:80], 60):
            s = analyse(f)
            n += 1
            R.seen(*sorted(s.it.fnseen))
            bad = False
            for what, where, v, c in sinks(s):
                if not junky(v):
                    continue
                a, b = v, subst(v, TWIN)
                k = len(R.obs)
                (R.equiv if interp.isbool(v) and c is TRUE else R.same)('%s: %s does not depend on undefined memory' % (name(fid), what), a, b, where, **({} if interp.isbool(v) and c is TRUE else {'assume': c}))
                if R.obs[-1][1] is not True and f['fn'] in ELSEWHERE and (R.obs[-1][1] is None or unfolded(v)):
                    R.obs.pop()
                bad = True
            R.count('values that mention undefined memory', int(bad))
            if not bad:
                R.ob('%s: nothing depends on undefined memory' % name(fid), True, fid)
    R.need(n > 100, 'only %d functions' % n)
