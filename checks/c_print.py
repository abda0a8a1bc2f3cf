"""The figures the library prints are those of the tables and times they are printed for."""
import re
from chk import check
import chk
import ir
import an
import interp
import loops
import models
import reals
from c_bench import tobool
from terms import *
from terms import _monos, _frommonos


class Loop:
    def __init__(self, n, i, parts):
        self.n, self.i, self.parts = n, i, parts


def leaves(t, c=TRUE):
    """(condition, pieces) of a text, the pieces in order: constants, figures and loops"""
    if c is FALSE:
        return []
    if t.op == 'I':
        return leaves(t.a[1], AND(c, atom(t.a[0]))) + leaves(t.a[2], AND(c, NOT(atom(t.a[0]))))
    if t.op == 'cat':
        out = [(c, [])]
        for x in t.a:
            out = [(c2, ps + q) for c1, ps in out for c2, q in leaves(x, c1)]
        return out
    if t.op == 'fold':
        p, i = fresh('txt'), fresh('i', True)
        loop = Loop(t.a[2], i, leaves(beta(beta(t.a[0], p), i)))
        return [(c1, ps + [loop]) for c1, ps in leaves(t.a[1], c)]
    if t.op == 'sconst':
        return [(c, [t.a[0].decode('utf8', 'replace')] if t.a[0] else [])]
    if t.op == 'tostr':
        return [(c, [t.a[0]])]
    if t.op == 'sym' or t.op == 'cell' and t.a[1] == (models.TEXT,):
        return [(c, [])]
    return [(c, [t])]


class Figure:
    def __init__(self, before, value):
        self.before, self.value, self.after = before, value, ''


def figures(ps):
    """figures with the words before and after them; loops in their place"""
    out, text = [], ''
    for x in ps:
        if isinstance(x, str):
            text += x
            if out and isinstance(out[-1], Figure):
                out[-1].after += x
        else:
            out.append(x if isinstance(x, Loop) else Figure(text.lower(), x))
            text = ''
    return out


def printed(f, noeffect=('SimpleBenchmark',)):
    it = interp.Interp(an.prog(), noeffect=noeffect)
    it.opaque = dict(an.STD)
    it.textout = True
    return it.analyse(f)


def texts(s):
    """(condition, pieces) of what is printed when the function returns"""
    for (r, p), v in s.S.m.items():
        if p == (models.TEXT,) and r.a[1] == 'std::cout':
            return [(AND(s.S.pc, c), ps) for c, ps in leaves(v)]
    return []


def fn(name, n=None):
    fs = [f for f in an.prog().fn(name, n)]
    if not fs:
        raise ir.Missing('no function ' + name)
    return fs[0]


def table(R):
    """HashBuckets::printStats"""
    f = fn('HashBuckets<NTL::ZZ_p>::printStats')
    w = 'HashBuckets::printStats'
    s = printed(f)
    R.seen(*sorted(s.it.fnseen))
    this = raw('region', 'this')
    k, load = s.field('k'), s.field('maxLoad')
    full = tobool(s.it.args[0])
    sums.k = k
    B = s.it.derefregion(s.field('buckets'))
    L = lambda i: vlen(getf(rd(raw('cell', B, ()), i), '#base'))
    i, p = fresh('k', True), fresh('p')
    rest = sub(k, ONE)
    n = ite(le(rest, ZERO), ZERO, rest)
    total = reals.real(loops.summ(k, i, L(i)))
    mean = mul(total, reals.inv(k))
    pick = lambda better: raw('fold', close(p, close(i, ite(better(L(add(ONE, i)), p), L(add(ONE, i)), p))), L(ZERO), rest)
    low, high = pick(lambda x, y: lt(x, y)), pick(lambda x, y: lt(y, x))
    d = sub(L(i), mean)
    var = loops.summ(k, i, mul(mul(d, d), reals.inv(k)))
    want = [('number of buckets', None, r'bucket', k), ('load', r'size|load', None, load), ('number of elements', r'total|element', r'^\s*\(|^\s*$', total),
            ('use in percent', None, r'%', mul(num(100), mul(mul(total, reals.inv(k)), reals.inv(load)))),
            ('least size', r'\bmin', None, low), ('greatest size', r'\bmax', None, high), ('average', r'average|mean', None, mean),
            ('variance', r'variance', None, var), ('standard deviation', r'std|dev', None, app('x:sqrt', var))]
    facts = AND(le(ONE, k), le(ONE, load))
    seen = {}
    for c, ps in texts(s):
        c = AND(c, facts)
        if c is FALSE:
            continue
        fs = figures(ps)
        for name, before, after, v in want:
            x = [g for g in fs if isinstance(g, Figure) and (not before or re.search(before, g.before)) and (not after or re.search(after, g.after.split('\n')[0]))]
            if name == 'load':
                x = [g for g in x if 'bucket' in g.before]
            if name == 'number of buckets':
                x = x[:1]
            if not x:
                R.ob('printStats: the %s is printed' % name, None, w, 'no such figure recognised')
                continue
            for g in x[:1]:
                same(R, 'printStats: the %s is that of the table' % name, g.value, v, w, c)
        for name, label, v in (('least', r'\bmin', low), ('greatest', r'\bmax', high)):
            at = [j for j, g in enumerate(fs) if isinstance(g, Figure) and re.search(label, g.before)]
            if at and at[0] + 1 < len(fs) and isinstance(fs[at[0] + 1], Figure) and 'bucket' in fs[at[0] + 1].before:
                b = fs[at[0] + 1].value
                extreme(R, 'printStats: the bucket named as the %s is of that size' % name, b, low if label == r'\bmin' else high, L, k, i, label == r'\bmin', w, c)
            else:
                R.ob('printStats: the bucket of the %s size is printed' % name, None, w, 'no such figure recognised')
        ls = [g for g in fs if isinstance(g, Loop)]
        R.ob('printStats: the buckets are listed', True if len(ls) == 1 else None, w)
        for l in ls[:1]:
            R.same('printStats: all buckets are listed when asked', interp.restrict(l.n, AND(c, full)), k, w, AND(c, full))
            R.implies('printStats: no bucket is listed that is not there', AND(c, lt(k, l.n)), FALSE, w)
            for c2, q in l.parts:
                v = [g.value for g in figures(q) if isinstance(g, Figure)]
                for g, x, what in zip(v, (l.i, L(l.i)), ('its number', 'its size')):
                    same(R, 'printStats: each bucket is listed with %s' % what, g, x, w, AND(AND(c, c2), AND(le(ZERO, l.i), lt(l.i, l.n))))
                R.ob('printStats: each bucket is listed with its number and its size', True if len(v) == 2 else None, w)


def same(R, name, a, b, w, c):
    """equal as numbers, rounding aside; a value that was cut to whole numbers on the way is another one"""
    a = interp.restrict(reals.real(a), c)
    b = interp.restrict(b, c)
    if a.op == b.op == 'x:sqrt':
        a, b = a.a[0], b.a[0]
    for c1, at in cases(c):
        PROVER.push_cond(c1)
        try:
            x, y = (sums(chk.norm(settle(sums(at(t))))) for t in (a, b))
        finally:
            PROVER.pop()
        R.same(name, x, y, w, c1)


def cases(c):
    """tables of one bucket apart"""
    k = sums.k
    if k is None:
        return [(c, lambda t: t)]
    out = []
    one = AND(c, NOT(lt(ONE, k)))
    if one is not FALSE:
        d = settle(subst(one, {k: ONE}))
        out.append((d, lambda t: settle(interp.restrict(subst(t, {k: ONE}), d))))
    many = AND(c, lt(ONE, k))
    return [x for x in out + [(many, lambda t: interp.restrict(t, many))] if x[0] is not FALSE]


def sums(t):
    """sums over all but the first as sums over all"""
    def go(t):
        if t.op == 'sum':
            i = fresh('i', True)
            b = go(beta(t.a[1], i))
            parts = {}
            for m, q in _monos(b).items():
                out = tuple(x for x in m if i not in support(x))
                parts.setdefault(out, {})[tuple(x for x in m if i in support(x))] = q
            if go.k is not None and b.op != 'I' and (len(parts) > 1 or () not in parts):
                # what does not depend on the place goes before the sum
                r = ZERO
                for out, d in parts.items():
                    n = d.pop((), 0)
                    r = add(r, mul(_frommonos({out: n}), t.a[0])) if n else r
                    if d:
                        r = add(r, mul(_frommonos({out: 1}), go(loops.summ(t.a[0], i, _frommonos(d)))))
                return r
            if go.k is not None and t.a[0] is sub(go.k, ONE) and i in support(b):
                before, first = subst(b, {i: sub(i, ONE)}), subst(b, {i: num(-1)})
                if not any(x.op == 'rd' and x.a[1].op == 'n' and x.a[1].a[0] < 0 for x in allsub(first).values()):
                    return sub(loops.summ(go.k, i, go(before)), go(first))
        if not t.a or t.op in ('n', 'sym', 'bv', 'region', 'sconst', 'cell', 'null'):
            return t
        return rebuild(t, go)
    go.k = sums.k
    return go(t)


def extreme(R, name, b, v, L, k, i, least, w, c):
    """the bucket named: the last one better than all before it, or any formula whose size is the extreme"""
    for c1, at in cases(c):
        if at(k) is ONE:
            R.same(name, at(L(b)), at(v), w, c1)
        else:
            several(R, name, at(b), at(v), L, k, i, least, w, c1)


def several(R, name, b, v, L, k, i, least, w, c):
    p = fresh('p')
    j = fresh('j', True)
    rest = sub(k, ONE)
    PROVER.push_cond(c)
    try:
        x = settle(chk.minmax(chk.norm(interp.restrict(b, c))))
        # of equals the first or the last
        for cmp in (lt, le):
            better = cmp if least else (lambda x, y: cmp(y, x))
            upto = lambda m: raw('fold', close(p, close(i, ite(better(L(add(ONE, i)), p), L(add(ONE, i)), p))), L(ZERO), m)
            ref = raw('lastset', rest, close(j, better(L(add(ONE, j)), upto(j))), close(j, add(ONE, j)), ZERO)
            if x is chk.minmax(chk.norm(interp.restrict(ref, c))):
                return R.ob(name, True, w)
    finally:
        PROVER.pop()
    R.same(name, L(b), v, w, c)


def settle(t):
    """loops that run no times"""
    memo = {}

    def go(t):
        if t.id not in memo:
            r = t if not t.a or t.op in ('n', 'sym', 'bv', 'region', 'sconst', 'cell', 'null') else rebuild(t, go)
            if r.op == 'lastset' and r.a[0] is ZERO:
                r = r.a[3]
            elif r.op == 'fold' and r.a[2] is ZERO:
                r = r.a[1]
            elif r.op == 'lastset' and go(beta(r.a[1], ZERO)) is FALSE:
                # the first time changes nothing
                i = fresh('i', True)
                r = raw('lastset', sub(r.a[0], ONE), close(i, go(beta(r.a[1], add(ONE, i)))), close(i, go(beta(r.a[2], add(ONE, i)))), r.a[3])
            elif r.op == 'fold' and beta(beta(r.a[0], r.a[1]), ZERO) is r.a[1]:
                p, i = fresh('p'), fresh('i', True)
                r = raw('fold', close(p, close(i, go(beta(beta(r.a[0], p), add(ONE, i))))), r.a[1], sub(r.a[2], ONE))
            memo[t.id] = r
        return memo[t.id]
    return go(t)


UNITS = {'s': 1000000, 'ms': 1000, 'µs': 1, 'us': 1, 'ns': None}


def times(R):
    """figures that come from benchmarks: in the unit printed after them, and of the work named before them"""
    P = an.prog()
    found = 0
    SECTION = (('interpol', 'bmInt'), ('monic', 'bmMon'), ('factori', 'bmFac'), ('finding', 'bmCap'))
    WHAT = (('avg', ('average',)), ('average', ('average',)), ('std', ('standardDeviation',)), ('total', ('cumulativeBenchmark',)))
    for fid, f in sorted(P.functions.items()):
        if not f.get('file', '').startswith(ir.REPO) or 'body' not in f or f.get('cls') == 'SimpleBenchmark' or not an.entry(f) or f.get('cls') not in ('EOPSIClient', 'EOPSIServer', 'EOPSIParty', 'ZZpPolynomials'):
            continue
        with R.group('output of ' + fid[:80], 100):
            s = printed(f)
            done = {}
            for c, ps in texts(s):
                section = ''
                for g in figures(ps):
                    if not isinstance(g, Figure):
                        continue
                    for a, b in SECTION:
                        if re.search(r'--[^\n]*' + a, g.before):
                            section = b
                    if not any(x.op.startswith('bm') for x in allsub(g.value).values()):
                        continue
                    m = re.match(r'\s*(\w+)', g.after)
                    key = (g.value.id, m and m.group(1), g.before[-60:])
                    if key in done:
                        continue
                    done[key] = 1
                    found += 1
                    name = fid.split('(')[0] + ': the time after "%s" ' % ' '.join(g.before.split())[-40:]
                    bms = [x for x in allsub(g.value).values() if x.op.startswith('bm')]
                    if len(bms) != 1 or not m or m.group(1) not in UNITS:
                        R.ob(name + 'has a unit', None, fid, 'not recognised: %s' % g.after[:30])
                        continue
                    R.same(name + 'is in the unit printed', reals.real(g.value), mul(bms[0], reals.inv(num(UNITS[m.group(1)]))), fid)
                    last = g.before.split('\n')[-1]
                    for a, b in WHAT:
                        if re.search(a, last):
                            R.ob(name + 'is the figure named', bms[0].op.split(':')[-1] in b, fid, '%s printed as %s' % (bms[0].op, last.strip()))
                            break
                    if section and any(re.search(a, last) for a, b in WHAT):
                        obj = str(bms[0].a[0].a[1]) if bms[0].a and bms[0].a[0].op == 'optr' else ''
                        if 'bm' in obj:
                            R.ob(name + 'is of the step named', section in obj, fid, '%s printed under %s' % (obj, section))
            R.seen(*sorted(s.it.fnseen))
    R.count('times printed', found)
    if found < 15:
        R.ob('the times printed are recognised', None, 'EOPSIClient, EOPSIServer', 'only %d' % found)


def counts(R):
    """how many polynomials and common elements there are"""
    f = fn('EOPSIClient::intersect')
    s = printed(f)
    R.seen(*sorted(s.it.fnseen))
    for c, ps in texts(s):
        for g in figures(ps):
            if isinstance(g, Figure):
                if re.search(r'polynomials', g.before.split('\n')[-1]):
                    R.same('intersect: the number of polynomials printed', g.value, s.field('length'), f['fid'], c)
                if re.search(r'intersection size', g.before):
                    R.same('intersect: the size of the intersection printed', g.value, vlen(interp.restrict(s.field('setcap'), c)), f['fid'], c)


def arrays(R):
    f = fn('NTL::printZZArray')
    s = printed(f)
    R.seen(*sorted(s.it.fnseen))
    a, n = s.it.args[0], s.it.args[1]
    el = lambda i: rd(raw('cell', s.it.derefregion(a), ()), i)
    w = f['fid']
    done = False
    for c, ps in texts(s):
        if AND(c, le(ONE, n)) is FALSE:
            R.ob('printZZArray: no element is printed of none', not [g for g in figures(ps) if not isinstance(g, str)], w)
            continue
        at = ZERO
        for g in figures(ps):
            if isinstance(g, Figure):
                same(R, 'printZZArray: elements are printed in order', g.value, el(at), w, c)
                at = add(at, ONE)
            else:
                for c2, q in g.parts:
                    v = [h.value for h in figures(q) if isinstance(h, Figure)]
                    if len(v) == 1:
                        same(R, 'printZZArray: elements are printed in order', v[0], el(add(at, g.i)), w, AND(AND(c, c2), AND(le(ZERO, g.i), lt(g.i, g.n))))
                    else:
                        R.ob('printZZArray: elements are printed one at a time', None, w)
                at = add(at, interp.restrict(g.n, c))
        R.same('printZZArray: every element is printed', at, n, w, AND(c, le(ONE, n)))
        done = True
    R.ob('printZZArray: elements are printed', True if done else None, w)


sums.k = None


@check('C32', 'Value-flow of everything written to the standard output, cut into words and figures: each figure must be the value its label and unit announce.')
def c32(R):
    with R.group('statistics of a table', 100):
        table(R)
    with R.group('arrays'):
        arrays(R)
    with R.group('counts'):
        counts(R)
    times(R)
