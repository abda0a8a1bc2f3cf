"""Integer divisions and shifts are defined."""
from chk import check
import ir
import an
import chk
from terms import *
from c_bench import B
from c_memory import functions, name, possible, Fn
from c_bounds import facts, unmod


# arguments documented as, or named as, what is divided by: at least one
DIVISORS = {'NTL::blocks': 1, 'StrInt::rem': 0}


def zero(x):
    """when a divisor is zero"""
    if x.op == 'I':
        return OR(AND(atomof(x), zero(x.a[1])), AND(NOT(atomof(x)), zero(x.a[2])))
    if x.op == 'flt':
        return FALSE if float(str(x.a[0])) else TRUE
    if x.op == 'i2f':
        return eq(x.a[0], ZERO)
    return eq(x, ZERO)


def least(c):
    """the geometry is at least one"""
    r = TRUE
    for t in allsub(c).values():
        if t.op == 'cell' and t.a[1] and str(t.a[1][-1]) == 'maxLoad':
            r = AND(r, le(ONE, t))
    return r


def atomof(x):
    return atom(x.a[0])


@check('C31', 'Value-flow summary of every function: under the condition of every division, remainder and shift it performs the divisor is not zero and the number of bits lies below the width of the operand; '
              'the condition of the violation is named otherwise.')
def c31(R):
    F = dict(functions(R))
    P = an.prog()
    for fid, g in sorted(P.functions.items()):
        if 'murmur' in g.get('file', '') and g.get('file', '').startswith(ir.REPO) and an.entry(g):
            with R.group('summary of ' + fid[:80], 60):
                F[fid] = Fn(fid, an.run(None, fid=fid))
    for fid, x in F.items():
        s = x.s
        if x.f.get('cls') == 'SimpleBenchmark' and x.f.get('kind') not in ('ctor', 'dtor'):
            with R.group('benchmark ' + fid[:80], 60):
                s = an.run(None, fid=fid, noeffect=(), pre=B().pre)
        with R.group('arithmetic of ' + fid[:80], 60):
            for e in s.events:
                if e.kind in ('divide', 'fdivide'):
                    R.count('divisions')
                    nm, ok = '%s: divisor is not zero', NOT(zero(e.den))
                elif e.kind == 'shift':
                    R.count('shifts')
                    nm, ok = '%s: shift is narrower than the operand', AND(le(ZERO, e.n), lt(e.n, num(e.width)))
                else:
                    continue
                nm %= name(fid)
                c = unmod(e.pc)
                if an.plain(x.f['fn']) in DIVISORS:
                    c = AND(c, le(ONE, s.it.args[DIVISORS[an.plain(x.f['fn'])]]))
                c = AND(c, least(ok))
                ok = unmod(ok)
                if ok is TRUE or not possible(AND(c, NOT(ok))):
                    R.ob(nm, True, e.loc)
                    continue
                for q, m in e.ctx:
                    c = AND(c, AND(le(ZERO, q), lt(q, m)))
                R.implies(nm, AND(c, facts(x, AND(c, NOT(ok)))), ok, e.loc)
    R.need(R.counts.get('divisions', 0) >= 10 and R.counts.get('shifts', 0) >= 20, 'only %d divisions, %d shifts' % (R.counts.get('divisions', 0), R.counts.get('shifts', 0)))
