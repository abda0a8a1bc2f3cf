"""Every access stays inside its array."""
from chk import check
import chk
import ir
import an
import interp
import proto
from terms import *
from c_hash import f, cellof, final, THIS
from c_bench import B, inrange
from an import plain
from c_memory import gates, functions, name, possible, Fn

# member arrays and the members that tell how many elements they have
SIZES = (('EOPSIClient', 'rawData', 'rawDataSize'), ('EOPSIClient', 'blindedData', 'length'), ('EOPSIClient', 't', 'length'), ('EOPSIClient', 'q', 'length'),
         ('HashBuckets', 'buckets', 'k'), ('StrInt', 'b', 'length'), ('StrInt', 'pow2', 'length'), ('ZZPRF', 'gen', 'genLength'),
         ('ZZPRF', 'hashInput', 'hashInputSize'), ('ZZpPolynomials', 'polynomials', 'n'), ('ZZpPolynomials', 'factorPairs', 'n'), ('SHA', 'lastHash', 'size'))
SIZE = {}
for c, a, s in SIZES:
    SIZE.setdefault(a, s)

# arrays handed over as arguments, and the argument (or member) that tells how many elements they have
GIVEN = {('EOPSIClient::setRawData', 0): 'arg1', ('EOPSIClient::#ctor', 6): 'arg7', ('EOPSIParty::computeTOrQ', 1): 'length', ('EOPSIParty::computeTOrQ', 2): 'length',
         ('HashTable::add', 0): 'arg1', ('HashBuckets::add', 0): 'arg1', ('NTL::array2VecZZp', 1): 'arg2', ('NTL::array2VecZZp', 0): 'arg1', ('NTL::printZZArray', 0): 'arg1',
         ('SHAByteArray::hash', 0): 'arg1', ('MurmurHash3::hash', 0): 'arg1', ('ZZpPolynomials::interpolate', 1): 'arg2', ('ZZpPolynomials::findIntersection', 1): 'arg2',
         ('StrInt::toBytes', 0): '*1', ('MurmurHash3::murmurHash3_x64_128', 0): 'arg1', ('MurmurHash3::murmurHash3_x86_128', 0): 'arg1', ('MurmurHash3::murmurHash3_x86_32', 0): 'arg1',
         ('MurmurHash3::murmurHash3_x64_128', 2): '16', ('MurmurHash3::murmurHash3_x86_128', 2): '16', ('MurmurHash3::murmurHash3_x86_32', 2): '4',
         ('polEval', 0): 'arg4', ('polEval', 1): 'arg4', ('StrInt::set', 0): 'arg1', ('StrInt::#ctor', 1): 'arg2'}

UNKNOWN = raw('unk', 'room')
OBJECT = raw('unk', 'object')


def room(x, b, kind='index'):
    """number of elements behind a pointer"""
    if b.op == 'ptr' and len(b.a) > 3 and b.a[3] == 's':
        return add(vlen(final(x.s, b.a[0], b.a[1])), ONE)       # with the terminating zero
    if b.op == 'cell':
        r, path = b.a[0], b.a[1]
        s = SIZE.get(str(path[-1]).split('::')[-1]) if path else None
        if s:
            m = raw('cell', r, path[:-1] + (s,))
            mark_nonneg(m)
            return m
    if b.op == 'optr' and not b.a[2]:
        n = x.s.S.m.get((b.a[0], ('#n',)))
        return n if n is not None else ONE if kind == 'index' else UNKNOWN
    if b.op == 'ptr' and b.a[0].a[0] == 'heap':
        for e in x.allocs:
            if e.region is b.a[0]:
                return e.n
    if b.op == 'v:hash':
        m = app('v:hashSize', b.a[0])
        mark_nonneg(m)
        return m
    for i, a in enumerate(x.s.it.args):
        if b is a and (plain(x.fid), i) in GIVEN:
            g = GIVEN[plain(x.fid), i]
            m = rd(cellof(proto.derefr(x.s.it.args[int(g[1:])])), ZERO) if g[0] == '*' else num(int(g)) if g.isdigit() else x.s.it.args[int(g[3:])] if g[:3] == 'arg' else cellof(THIS, g)
            mark_nonneg(m)
            return m
    return UNKNOWN


def split(x, p):
    """(start of the array, offset in it) of a pointer value, in bytes where the pointer was cast"""
    q, o = psplit(p)
    if q.op == 'pcast':
        b, o2 = split(x, q.a[0])
        return b, add(o2, mul(num(q.a[1]), o))
    if q is not p and q.op == 'P':
        b, o2 = split(x, q)
        return b, add(o2, o)
    if p.op == 'P':
        for m, c in p.a[0]:
            if c == 1 and len(m) == 1 and (m[0].op == 'cell' and m[0].a[1] and str(m[0].a[1][-1]) in SIZE or any(m[0] is a for i, a in enumerate(x.s.it.args) if (plain(x.fid), i) in GIVEN)):
                return m[0], sub(p, m[0])
    return psplit(p)


def bounds(x):
    """(event, kind, condition, first element beyond, elements there, first element) of every access to an array; UNKNOWN for arrays that are not known"""
    for e in x.s.events:
        if e.kind == 'vindex':
            yield e, 'element', e.pc, add(e.idx, ONE), e.len, e.idx
        elif e.kind in ('index', 'bytes'):
            n = ONE if e.kind == 'index' else e.n
            for g, p in gates(e.ptr):
                c = AND(e.pc, g)
                if c is FALSE or p is NULL:
                    continue
                b, o = split(x, p)
                q = psplit(p)[0]
                if q.op == 'pcast' and e.kind == 'index':
                    n = num(q.a[1])
                for g2, m in gates(room(x, b, e.kind)):
                    yield e, e.kind, AND(c, g2), add(o, n), m, o


LEAST = ('length', 'k', 'degree', 'height')     # geometry: at least one of each
MATRIX = ('t', 'q', 'blindedData', 'data')      # arrays of vectors with as many elements as the degree


def base(t):
    while t.op in ('rd', 'slice'):
        t = t.a[0]
    return t


def matrix(x, v):
    """whether a vector is one of a matrix of points"""
    if v.op != 'rd':
        return False
    b = base(v)
    if b.op != 'cell' or b.a[1] or b.a[0].a[0] != 'deref':
        return False
    p = b.a[0].a[1]
    if p.op == 'cell':
        return bool(p.a[1]) and str(p.a[1][-1]) in MATRIX
    return plain(x.fid) == 'EOPSIParty::computeTOrQ' and any(p is a for a in x.s.it.args[1:3])


def shrinks(t):
    """facts of a number that a loop starts with and never makes larger, nor negative"""
    lam, init = t.a[0], t.a[1]
    if lam.op != 'lam' or not nonneg(init):
        return []
    v, k = sym('shrunk'), sym('step')
    mark_nonneg(v)
    mark_nonneg(k)
    step = beta(lam, v)
    if step.op == 'lam':
        step = beta(step, k)
    most = sym('most')
    mark_nonneg(most)
    least = le(v, most)
    for x in subterms(step):
        if x.op == 'div':
            least = AND(least, AND(le(mul(x.a[1], x), x.a[0]), le(ZERO, x)))
    if possible(AND(AND(least, le(ONE, v)), NOT(le(step, most)))) or possible(AND(least, lt(step, ZERO))):
        return []
    return [le(t, init), le(ZERO, t)]


def subterms(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.id not in seen:
            seen.add(x.id)
            yield x
            st += subterms1(x)


def unmod(c):
    """remainders by constants in terms of quotients"""
    m = {t: sub(t.a[0], mul(t.a[1], fdiv(t.a[0], t.a[1]))) for t in subterms(c) if t.op == 'mod' and t.a[1].op == 'n' and t.a[1].a[0] > 0}
    return subst(c, m) if m else c


def facts(x, bad):
    """what holds in every state of the objects mentioned"""
    deg = cellof(THIS, 'degree')
    out, seen, st = [], set(), [bad]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'cell' and t.a[1]:
            l = str(t.a[1][-1])
            if l in LEAST:
                mark_nonneg(t)
                out.append(le(ONE, t))
            if l == 'unknowns':
                u = raw('len', t)
                d = raw('cell', t.a[0], t.a[1][:-1] + ('degree',))
                out.append(OR(eq(u, ZERO), eq(u, d)))
        elif t.op == 'len' and matrix(x, t.a[0]):
            out += [le(deg, t), le(ONE, deg)]
        elif t.op == 'mod' and t.a[1].op != 'n':
            out += [le(ZERO, t), OR(le(t.a[1], ZERO), lt(t, t.a[1]))]
        elif t.op == 'div' and t.a[1].op == 'n' and t.a[1].a[0] > 0:
            out += [le(mul(t.a[1], t), t.a[0]), lt(t.a[0], add(mul(t.a[1], t), t.a[1]))]
        elif t.op == 'trunc' and nonneg(t.a[1]):
            out += [le(ZERO, t), le(t, t.a[1])]
        elif t.op == 'digestsize' and t.a[0].op == 'cell' and t.a[0].a[1]:
            out.append(eq(t, raw('cell', t.a[0].a[0], t.a[0].a[1][:-1] + ('size',))))
        elif t.op == 'fold':
            out += shrinks(t)
        elif t.op == 'first' and t.a[1].op == 'lam':
            if t.a[0].op == 'inf':
                out.append(beta(t.a[1], t))
        st += subterms1(t)
    r = TRUE
    for c in out:
        r = AND(r, c)
    return r


@check('C30', 'Value-flow summary of every function: every element, byte range and vector element it touches lies, under the condition of the access, within what was allocated, or what the member or argument that counts the elements says.')
def c30(R):
    F = dict(functions(R))
    P = an.prog()
    for fid, g in sorted(P.functions.items()):
        if 'murmur' in g.get('file', '') and g.get('file', '').startswith(ir.REPO) and an.entry(g):
            with R.group('summary of ' + fid[:80], 60):
                F[fid] = Fn(fid, an.run(None, fid=fid))
    for fid, x in F.items():
        if x.f.get('cls') == 'SimpleBenchmark':
            # with as many pause flags as times and one more (an invariant by C21)
            if x.f.get('kind') not in ('ctor', 'dtor'):
                with R.group('bounds in ' + fid[:80], 60):
                    inrange(R, name(fid), an.run(None, fid=fid, noeffect=(), pre=B().pre))
            continue
        with R.group('bounds in ' + fid[:80], 60):
            for e, k, c, hi, n, lo in bounds(x):
                if n is UNKNOWN or n is OBJECT or n is None:
                    R.count('not judged')
                    continue
                R.count('accesses')
                inside = AND(le(ZERO, lo), le(hi, n))
                c, inside = unmod(c), unmod(inside)
                nm = '%s: %s accessed is there' % (name(fid), k)
                if not possible(AND(c, NOT(inside))):
                    R.ob(nm, True, e.loc)
                    continue
                for q, m in e.ctx:
                    c = AND(c, AND(le(ZERO, q), lt(q, m)))
                R.implies(nm, AND(c, facts(x, AND(c, NOT(inside)))), inside, e.loc)

        with R.group('sizes after ' + fid[:80], 60):
            sizes(R, fid, x)
    R.need(R.counts.get('accesses', 0) > 300, 'only %d accesses' % R.counts.get('accesses', 0))


def sizes(R, fid, x):
    """members that count the elements of arrays never say more than were allocated"""
    cls = x.f.get('cls')
    if x.f.get('kind') == 'dtor':
        return
    for c, a, sz in SIZES:
        if not cls or not (cls == c or cls.startswith(c + '<')):
            continue
        n0, n, p = cellof(THIS, sz), final(x.s, THIS, (sz,)), final(x.s, THIS, (a,))
        if n is n0 and p is cellof(THIS, a):
            continue
        ext = sym('extent')
        mark_nonneg(ext)
        mark_nonneg(n0)
        for g, l in gates(p):
            c = AND(x.s.S.pc, g)
            if l is NULL or l.op in ('uninit', 'dead') or c is FALSE:
                continue
            b, o = split(x, l)
            if l.op == 'cell' and l is cellof(THIS, a):
                m, c = ext, AND(c, le(n0, ext))
            else:
                m = room(x, b)
                if m is UNKNOWN or o is not ZERO:
                    R.count('arrays taken from elsewhere')
                    continue
            R.implies('%s: no more %s are counted than there are' % (name(fid), a), AND(c, facts(x, AND(c, lt(m, n)))), le(n, m), fid)
