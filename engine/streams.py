"""Are the indices used in nested loops pairwise distinct?  Decided on the index terms."""
import itertools
import randi
import terms
from terms import *


class Stream:
    """index term over loop variables [(variable, bound)], 0 <= variable < bound"""

    def __init__(self, name, idx, vars, where=''):
        self.name = name
        self.idx = idx
        self.vars = vars
        self.where = where


def linear(idx, vs):
    """idx as base + sum coef*var, or None"""
    if idx.op == 'I':
        return None
    co = {v: {} for v in vs}
    base = {}
    for m, c in terms._monos(idx).items():
        hit = [x for x in m if x in co]
        if len(hit) > 1:
            return None
        for x in m:
            if x not in co and any(terms.contains(x, v) for v in vs):
                return None
        if hit:
            rest = list(m)
            rest.remove(hit[0])
            co[hit[0]][tuple(rest)] = c
        else:
            base[m] = c
    return terms._frommonos(base), {v: terms._frommonos(d) for v, d in co.items()}


def radix(s):
    """(lowest, highest) index when the stream is a mixed radix numbering, else None"""
    r = linear(s.idx, [v for v, _ in s.vars])
    if r is None:
        return None
    base, co = r
    bound = dict(s.vars)
    for order in itertools.permutations(bound):
        prev = ONE
        ok = True
        for v in order:
            if not PROVER.prove_le0(sub(prev, co[v])):
                ok = False
                break
            prev = mul(co[v], bound[v])
        if ok:
            hi = base
            for v in order:
                hi = add(hi, mul(co[v], sub(bound[v], ONE)))
            return base, hi
    return None


def collision(ss, params, assume, low=2, cap=4):
    """a small instance in which two positions use the same index, as text, or None.
    params: symbols to instantiate"""
    for vals in itertools.product(range(low, cap + 1), repeat=len(params)):
        fx = {p: v for p, v in zip(params, vals)}
        seen = {}
        I = randi.Interp(1, dict(fx))
        try:
            if assume is not TRUE and not I.bool(I.ev(assume)):
                continue
            for s in ss:
                bs = [I.num(I.ev(b)) for _, b in s.vars]
                for pos in itertools.product(*[range(b) for b in bs]):
                    f2 = dict(fx)
                    f2.update({v: p for (v, _), p in zip(s.vars, pos)})
                    J = randi.Interp(1, f2)
                    x = J.num(J.ev(s.idx))
                    me = (s.name, pos)
                    if x in seen and seen[x] != me:
                        return '%s: index %d is used by %s%s and %s%s' % (', '.join('%s=%d' % (p, v) for p, v in fx.items()), x, seen[x][0], seen[x][1], s.name, pos)
                    seen[x] = me
        except (randi.Stuck, RecursionError):
            return None
    return None


def distinct(R, name, ss, params, assume=TRUE, facts=()):
    """all indices of all streams are pairwise different"""
    free = set()
    for s in ss:
        free |= {x for x in terms.allsub(s.idx).values() if x.op in ('unk', 'dead', 'uninit')}
    where = ', '.join(sorted({str(s.where) for s in ss}))
    PROVER.push(list(facts))
    PROVER.push_cond(assume)
    try:
        rs = [radix(s) for s in ss]
        ok = all(r is not None for r in rs)
        if ok:
            for a, b in itertools.combinations(rs, 2):
                if not (PROVER.prove_le0(add(sub(a[1], b[0]), ONE)) or PROVER.prove_le0(add(sub(b[1], a[0]), ONE))):
                    ok = False
    finally:
        PROVER.pop()
        PROVER.pop()
    if ok:
        return R.ob(name, True, where)
    if free:
        return R.ob(name, None, where, 'index not determined')
    c = collision(ss, params, assume)
    if c:
        return R.ob(name, False, where, c)
    return R.ob(name, None, where, 'indices %s: neither shown distinct nor a clash found' % [str(s.idx)[:120] for s in ss])
