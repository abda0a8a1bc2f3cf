"""Where elements go, and where the pseudo-random values and digests come from."""
from chk import check
import ir
import an
import chk
import proto
import terms
import interp
import loops
import models
from terms import *

THIS = proto.THISR
HBC = 'HashBuckets<NTL::ZZ_p>'
PRC = 'PseudoRandom<NTL::ZZ_p, NTL::ZZ_p>'
SHA1 = raw('alg', 'CryptoPP::SHA1')


def f(cls, name, **kw):
    return proto.field(cls, name, **kw)


def cellof(r, *p):
    return raw('cell', r, tuple(p))


def hbfield(n):
    return cellof(THIS, f(HBC, n))


def nn(x):
    mark_nonneg(x)
    return x


def K():
    return nn(cellof(THIS, f(HBC, 'k', getter=HBC + '::getLength')))


def MAX():
    return nn(cellof(THIS, f(HBC, 'maxLoad', getter=HBC + '::getMaxLoad')))


def N():
    return nn(hbfield('n'))


def BUCKETS():
    return cellof(THIS, f(HBC, 'buckets', typ=lambda t: 'MarkedVector' in t))


def rows():
    return proto.derefr(BUCKETS())


def bucket(v):
    """the elements of a bucket value"""
    return getf(v, '#base')


def mark(v):
    return getf(v, f('MarkedVector<NTL::ZZ_p>', 'marked', typ=lambda t: t == 'bool'))


def buf(name):
    return raw('ptr', raw('region', 'buf', name), (), (), 'a')


def final(s, region, path=()):
    return s.S.m.get((region, path), raw('cell', region, path))


def anyindex(R, n, facts, body):
    i = fresh(n, True)
    PROVER.push([neg(i)])
    try:
        PROVER.push_cond(facts(i))
        try:
            return body(i)
        finally:
            PROVER.pop()
    finally:
        PROVER.pop()


def samerow(R, name, a, b, where, assume=TRUE, markers=True):
    R.same(name + ': size', vlen(bucket(a)), vlen(bucket(b)), where, assume)
    i = fresh('e', True)
    n = vlen(bucket(b))
    R.same(name + ': elements', rd(varr(bucket(a)), i), rd(varr(bucket(b)), i), where, AND(assume, lt(i, n)))
    if markers:
        R.same(name + ': mark', mark(a), mark(b), where, assume)


def exits1(R, name, s, where):
    """every way out but returning is the fatal error of C24: the process ends with code 1 and nothing else happens"""
    bad = FALSE
    for e in s.events:
        if e.kind == 'exit' and e.code is not ONE:
            bad = OR(bad, e.pc)
    R.never(name, OR(bad, s.throwpc(None)), where)


@check('C10', 'Value-flow summaries of HashBuckets: the bucket array after an insertion, as terms over the state before it and the inserted element; conditions of every exit; the constructor\'s initial buckets; composition of single and batch insertion.')
def c10(R):
    fn = HBC + '::addToBucket'
    s = an.run(fn, 2)
    R.seen(*sorted(s.it.fnseen))
    elem, i = s.it.args[0], sym('arg1')
    if elem.op in ('ptr', 'optr') or elem.op.startswith('region'):
        elem = raw('cell', elem.a[0], ())
    elem = cellof(raw('region', 'arg', 0)) if elem.op in ('ptr', 'optr') else elem
    r = rows()
    old = cellof(r)
    row = rd(old, i)
    sz = vlen(bucket(row))
    fits = AND(lt(i, K()), lt(sz, MAX()))
    R.equiv('an element is refused exactly when its bucket is full or does not exist', s.exitpc(), NOT(fits), fn)
    exits1(R, 'the refusal ends the process with code 1', s, fn)
    new = final(s, r)
    j = fresh('j', True)
    samerow(R, 'every other bucket is left alone', rd(new, j), rd(old, j), fn, AND(fits, NOT(eq(i, j))))
    nrow = rd(new, i)
    R.same('its bucket grows by one', vlen(bucket(nrow)), add(sz, ONE), fn, fits)
    R.same('the element comes last', rd(varr(bucket(nrow)), sz), elemvalue(s, 0), fn, fits)
    e = fresh('e', True)
    R.same('earlier elements of the bucket stay', rd(varr(bucket(nrow)), e), rd(varr(bucket(row)), e), fn, AND(fits, lt(e, sz)))
    R.same('the mark of the bucket stays', mark(nrow), mark(row), fn, fits)
    R.same('the number of elements grows by one', final(s, THIS, (f(HBC, 'n'),)), add(N(), ONE), fn, fits)
    for nm, p in (('number of buckets', K()), ('maximum load', MAX()), ('bucket array', BUCKETS())):
        R.same('insertion keeps the ' + nm, final(s, THIS, p.a[1]), p, fn, fits)

    # add: exactly one insertion of the element
    s = an.run(HBC + '::add', 1, opaque={'HashBuckets::addToBucket/2': placed})
    R.seen(*sorted(s.it.fnseen))
    ev = [x for x in s.events if x.kind == 'place']
    R.need(ev, 'add() places nothing')
    pc = FALSE
    for x in ev:
        R.same('add() inserts its element', x.elem, elemvalue(s, 0), HBC + '::add')
        R.never('add() inserts once', AND(pc, x.pc), HBC + '::add')
        R.same('add() inserts into this table', x.this, raw('optr', THIS, (), ()), HBC + '::add')
        pc = OR(pc, x.pc)
    R.implies('add() always inserts', TRUE, pc, HBC + '::add')

    # batch
    s = an.run(batchname(), 2, opaque={'HashBuckets::add/1': added, 'HashTable::add/1': added, 'v:add/1': added}, cls=HBC)
    R.seen(*sorted(s.it.fnseen))
    ev = [x for x in s.events if x.kind == 'add']
    R.need(ev, 'the batch insertion inserts nothing')
    R.ob('the batch insertion has one insertion site', True if len(ev) == 1 else None, batchname())
    x = ev[0]
    R.ob('the batch insertion inserts in one loop', True if len(x.ctx) == 1 else None, batchname())
    if len(ev) == 1 and len(x.ctx) == 1:
        k = x.ctx[0][0]
        cnt = sym('arg1')
        R.equiv('the batch insertion makes one insertion per element', AND(x.pc, lt(k, cnt)), lt(k, cnt), batchname())
        R.never('the batch insertion stops at the end', AND(x.pc, le(cnt, k)), batchname())
        R.same('the batch insertion inserts the elements in order', x.elem, rd(cellof(proto.derefr(sym('arg0'))), k), batchname(), lt(k, cnt))

    # the empty table
    fid = ctor(HBC, 3)
    s = an.run(None, fid=fid)
    R.seen(*sorted(s.it.fnseen))
    b = final(s, THIS, BUCKETS().a[1])
    n = sym('arg0')

    def one(p):
        q, o = psplit(p)
        if q.op not in ('ptr', 'optr'):
            return None
        return q.a[0]
    reg = one(b)
    R.ob('a new table has its own buckets', True if reg is not None and reg.a[0] == 'heap' else None, fid)
    if reg is not None:
        R.same('a new table has the requested number of buckets', final(s, reg, ('#n',)), n, fid)
        row = rd(final(s, reg), j)
        R.same('buckets of a new table are empty', vlen(bucket(row)), ZERO, fid, lt(j, n))
    R.same('a new table knows its number of buckets', final(s, THIS, K().a[1]), n, fid)
    R.same('a new table knows its maximum load', final(s, THIS, MAX().a[1]), sym('arg1'), fid)
    R.same('a new table counts no elements', final(s, THIS, N().a[1]), ZERO, fid)

    # reading a bucket
    fn = 'HashTable<NTL::ZZ_p, MarkedVector<NTL::ZZ_p>>::getBucket'
    s = an.run(getter('getBucket'), 1)
    R.seen(*sorted(s.it.fnseen))
    i = sym('arg0')
    R.equiv('a bucket that does not exist is refused', s.exitpc(), NOT(lt(i, K())), fn)
    exits1(R, 'that refusal ends the process with code 1', s, fn)
    samerow(R, 'a bucket is handed out as it is', s.rv, rd(cellof(rows()), i), fn, lt(i, K()), False)


def getter(n):
    P = an.prog()
    c = [k for k in P.byname if k.startswith('HashTable<') and k.endswith('::' + n)]
    if len(c) != 1:
        raise ir.Missing('no ' + n)
    return c[0]


def batchname():
    return getter('add')


def elemvalue(s, i):
    """the value of a by-reference parameter at entry"""
    a = s.it.args[i]
    b, o = psplit(a)
    if b.op in ('ptr', 'optr'):
        return raw('cell', b.a[0], ())
    return a


def placed(it, e, this, vals, args):
    it.ev('place', e, elem=args[0], idx=args[1], this=this)
    return VOID


def added(it, e, this, vals, args):
    it.ev('add', e, elem=args[0], this=this)
    return VOID


def ctor(cls, n=None, has=None):
    P = an.prog()
    c = [fid for fid, x in P.functions.items() if fid.startswith(cls + '::#ctor(') and (n is None or len(x['params']) == n) and (has is None or has in fid)]
    if len(c) != 1:
        raise ir.Missing('%d constructors of %s' % (len(c), cls))
    return c[0]


def withalgorithm(n):
    """a table with a hash algorithm whose digests have n bytes"""
    def pre(it, this, vals):
        m = it.S.m
        si = cellof(THIS, f(HBC, 'hashStrInt', typ=lambda t: 'StrInt' in t))
        r = proto.derefr(si)
        if n is not None:
            strint(m, r, n)
        it.S = interp.St(AND(it.S.pc, NOT(isnull(si))), m)
    return pre


def strint(m, r, n):
    """what the constructor of StrInt establishes for n bytes"""
    p = raw('cell', r, (f('StrInt', 'pow2'),))
    m[(r, (f('StrInt', 'length'),))] = num(max(n, 1))
    m[(proto.derefr(p), ())] = lamfun(lambda i: raw('st', raw('uninit'), ZERO, shl(num(1), mul(num(8), i))))


def digestcall(it, e, this, vals, args):
    """a digest is a value of the algorithm and what is hashed"""
    p = app('digestptr', this, args[0], args[1])
    it.ev('hash', e, this=this, elem=args[0], len=args[1])
    return p


def littleendian(at, n):
    r = ZERO
    for i in range(n):
        r = add(r, mul(num(256 ** i), at(i)))
    return r


@check('C12', 'Value-flow summaries with constant propagation through the digest-length loops: the number StrInt builds from n bytes, as a polynomial in the bytes, and the bucket index passed to the insertion, as a term over the digest and the number of buckets, for every digest length of the library\'s algorithms (and all lengths up to 64 in the thorough tier).')
def c12(R):
    sizes = [0, 1, 2, 3, 5, 7, 16, 20, 28, 32] if R.tier == 'quick' else list(range(0, 65))
    zf = f('StrInt', 'z')
    for n in sizes:
        for cap in (n, n + 3, max(1, n - 2)) if n else (1, 4):
            s = an.run('StrInt::set', 2, pred=isbytes, pre=lambda it, this, vals: strint(it.S.m, THIS, cap), args=[None, num(n)], unroll=80)
            R.seen(*sorted(s.it.fnseen))
            src = cellof(proto.derefr(sym('arg0')))
            R.same('the number of %d bytes (capacity %d) is their little endian value' % (n, cap), rd(final(s, THIS, (zf,)), ZERO), littleendian(lambda i: rd(src, num(i)), min(n, cap)), 'StrInt::set')
    s = an.run('StrInt::rem', 1)
    R.seen(*sorted(s.it.fnseen))
    R.same('the remainder is that of the number', s.rv, fmod(rd(cellof(THIS, zf), ZERO), sym('arg0')), 'StrInt::rem')
    # constructor: powers and capacity
    fid = ctor('StrInt', 3)
    s = an.run(None, fid=fid)
    R.seen(*sorted(s.it.fnseen))
    cap = ite(eq(sym('arg0'), ZERO), ONE, sym('arg0'))
    R.same('a number has the requested capacity', final(s, THIS, (f('StrInt', 'length'),)), cap, fid)
    p = final(s, THIS, (f('StrInt', 'pow2'),))
    i = fresh('i', True)
    q, o = psplit(p)
    if q.op in ('ptr', 'optr'):
        R.same('byte weights are powers of 256', rd(rd(final(s, q.a[0]), i), ZERO), shl(num(1), mul(num(8), i)), fid, lt(i, cap))
    else:
        R.ob('byte weights are powers of 256', None, fid)
    # placement
    alg = cellof(THIS, f(HBC, 'hashAlgorithm'))
    for n in [x for x in sizes if x]:
        op = {'v:hashSize/0': lambda it, e, this, vals, args: num(n), 'v:hash/2': digestcall, 'HashBuckets::addToBucket/2': placed}
        s = an.run(HBC + '::add', 1, opaque=op, pre=withalgorithm(n), unroll=80)
        R.seen(*sorted(s.it.fnseen))
        ev = [x for x in s.events if x.kind == 'place']
        R.need(ev, 'add() places nothing')
        d = cellof(proto.derefr(app('digestptr', alg, elemvalue(s, 0), ZERO)))
        want = fmod(littleendian(lambda i: rd(d, num(i)), n), K())
        for x in ev:
            R.same('an element goes to the bucket its %d byte digest names' % n, x.idx, want, HBC + '::add', x.pc)
    # the algorithm chosen is the one used, with a number of its digest size
    fn = HBC + '::setHashAlgorithm'
    s = an.run(fn, 1, pred=lambda g: True)
    R.seen(*sorted(s.it.fnseen))
    a = sym('arg0')
    R.same('the algorithm given is the one used', final(s, THIS, alg.a[1]), a, fn, NOT(isnull(a)))
    R.same('giving no algorithm changes nothing', final(s, THIS, alg.a[1]), alg, fn, isnull(a))
    si = f(HBC, 'hashStrInt', typ=lambda t: 'StrInt' in t)
    PROVER.push_cond(NOT(isnull(a)))
    try:
        p = interp.restrict(final(s, THIS, (si,)), NOT(isnull(a)))
    finally:
        PROVER.pop()
    q, o = psplit(p)
    if q.op == 'optr':
        r = q.a[0]
        ln = final(s, r, (f('StrInt', 'length'),))
        R.same('digests fit the number built from them', ln, ite(eq(hs(a), ZERO), ONE, hs(a)), fn, NOT(isnull(a)))
        pw = final(s, r, (f('StrInt', 'pow2'),))
        q2, _ = psplit(pw)
        if q2.op in ('ptr', 'optr'):
            R.same('with its own byte weights', rd(rd(final(s, q2.a[0]), i), ZERO), shl(num(1), mul(num(8), i)), fn, AND(NOT(isnull(a)), lt(i, ite(eq(hs(a), ZERO), ONE, hs(a)))))
    else:
        R.ob('digests fit the number built from them', None, fn)


def hs(a):
    return nn(app('v:hashSize', a))


def isbytes(g):
    return any('char' in p['t'] or 'byte' in p['t'] for p in g['params'])


def filler(it, e, this, vals, args):
    it.ev('gen', e, this=this)
    return raw('nondet', 'gen', num(it.uid(e)), it.F.uid, models.ctx(it))


@check('C11', 'Value-flow summary of conceal(): every bucket after it as a term over the bucket before it; the generator calls as events with the loop positions they depend on; summary of the generator\'s automatic seed and index.')
def c11(R):
    fn = HBC + '::conceal'
    s = an.run(fn, 1, opaque={'PseudoRandom::generate/0': filler})
    R.seen(*sorted(s.it.fnseen))
    r = rows()
    i, e = fresh('i', True), fresh('e', True)
    old, new = rd(cellof(r), i), rd(final(s, r), i)
    sz = vlen(bucket(old))
    inb = lt(i, K())
    R.never('concealing does not fail', OR(s.exitpc(), s.throwpc(None)), fn)
    R.same('every bucket is filled to the maximum load', vlen(bucket(new)), ite(le(MAX(), sz), sz, MAX()), fn, inb)
    R.same('the elements of a bucket stay', rd(varr(bucket(new)), e), rd(varr(bucket(old)), e), fn, AND(inb, lt(e, sz)))
    R.same('exactly the empty buckets are marked', mark(new), ite(eq(sz, ZERO), TRUE, mark(old)), fn, inb)
    R.same('the number of elements is not affected', final(s, THIS, N().a[1]), N(), fn)
    R.same('the number of buckets is not affected', final(s, THIS, K().a[1]), K(), fn)
    R.same('the maximum load is not affected', final(s, THIS, MAX().a[1]), MAX(), fn)
    # fillers
    cond = AND(AND(inb, le(sz, e)), lt(e, MAX()))
    PROVER.push_cond(cond)
    try:
        x = chk.norm(chk.prune(interp.restrict(rd(varr(bucket(new)), e), cond), cond))
    finally:
        PROVER.pop()
    name = 'every filler is drawn from the generator on its own'
    if x.op == 'nondet' and x.a[0] == 'gen':
        sup = support(x)
        if i in sup and e in sup:
            R.ob(name, True if injective(x, i, e) else None, fn, str(x))
        else:
            R.ob(name, False, fn, 'the filler at position e of bucket i is %s: one draw serves several places' % x)
    elif chk.imprecise(x):
        R.ob(name, None, fn, 'filler not determined: %s' % chk.short(x))
    else:
        R.ob(name, False, fn, 'the filler at position e of bucket i is %s' % chk.short(x))
    gs = [x for x in s.events if x.kind == 'gen']
    R.count('generator calls', len(gs))
    for g in gs:
        R.same('the generator is the one given', g.this, s.it.args[0], fn)
    # the generator draws a fresh value each time
    fn = PRC + '::generate'
    s = an.run(fn, 0)
    R.seen(*sorted(s.it.fnseen))
    ai, sp, sd = (f(PRC, n) for n in ('autoIndex', 'autoSeedPtr', 'autoSeed'))
    idx = cellof(THIS, ai)
    R.same('the automatic index moves on', final(s, THIS, (ai,)), add(idx, ONE), fn)
    started = NOT(isnull(cellof(THIS, sp)))
    R.same('the automatic seed stays once chosen', final(s, THIS, (sd,)), cellof(THIS, sd), fn, started)
    R.never('a chosen seed is remembered as chosen', isnull(final(s, THIS, (sp,))), fn)
    seeded = [x for x in s.events if x.kind == 'vcall' and x.name == 'randomSeed']
    gen = [x for x in s.events if x.kind == 'vcall' and x.name == 'generate' and len(x.args) == 3]
    R.need(gen, 'the automatic generator generates nothing')
    pc = FALSE
    for x in gen:
        pc = OR(pc, x.pc)
        R.same('a value is generated at the automatic index', x.args[1], idx, fn, x.pc)
        # the pointer, once set, is to the seed kept here
        seed = x.args[0]
        if all(z is NULL or z is cellof(THIS, sp) or z.op == 'optr' and z.a == (THIS, (sd,), ()) for z in loops.leafset(final(s, THIS, (sp,)))):
            seed = terms.subst(seed, {y: cellof(THIS, sd) for y in terms.allsub(seed).values() if y.op == 'rd' and y.a[1] is ZERO and y.a[0] is raw('cell', raw('region', 'deref', cellof(THIS, sp)), ())})
        R.same('under the automatic seed', seed, final(s, THIS, (sd,)), fn, x.pc)
        R.same('at the default width', x.args[2], ZERO, fn, x.pc)
    R.implies('a value is always generated', TRUE, pc, fn)
    pcs = FALSE
    for x in seeded:
        pcs = OR(pcs, x.pc)
    R.equiv('the seed is chosen exactly when there is none', pcs, NOT(started), fn)


def injective(x, i, e):
    """the loop positions of the draw determine (i, e)"""
    pos = []

    def flat(t):
        for y in t:
            if isinstance(y, tuple):
                flat(y)
            elif isinstance(y, T):
                pos.append(y)
    flat(x.a[3:])
    got = set()
    for _ in range(3):
        for p in pos:
            vs = [v for v in (i, e) if v in support(p) and v not in got]
            if len(vs) == 1:
                v = vs[0]
                d = sub(subst(p, {v: add(v, ONE)}), p)
                if d in (ONE, num(-1)) or d.op == 'n' and d.a[0] != 0:
                    got.add(v)
    return got == {i, e}


# ------------------------------------------------------------------ digests
def digeststr():
    return app('tostr', app('rep', sym('arg0')))


def truncated(n, ln):
    return ite(le(ln, ZERO), n, ite(lt(ln, n), ln, n))


@check('C13', 'The library\'s MurmurHash3 and the published algorithm (spec/murmur_ref.cpp) are both summarised by the value-flow analysis; the 16 digest bytes are compared as terms over the hashed bytes, the length and the seed.')
def c13(R):
    s = an.run('MurmurHash3::hash', 2)
    R.seen(*sorted(s.it.fnseen))
    fn = 'MurmurHash3::hash'
    key, out = buf('key'), buf('out')
    st_ = digeststr()
    ln = truncated(vlen(st_), sym('arg1'))

    def pre(it, this, vals):
        it.S.m[(key.a[0], ())] = lamfun(lambda i: schar(st_, i))
    seed = cellof(THIS, f('MurmurHash3', 'seed'))
    mark_nonneg(seed)
    r = an.run('spec::murmur3_x64_128', 4, args=[key, models.trunc(ln, 32, True), seed, out], pre=pre)
    want = final(r, out.a[0])

    def region(p):
        q, o = psplit(p)
        return q
    q = region(s.rv)
    got = None
    if q.op in ('ptr', 'optr'):
        got = final(s, q.a[0], q.a[1])
    R.ob('the digest is handed out', True if got is not None else None, fn, str(s.rv))
    if got is not None:
        for j in range(16):
            R.same('byte %d of the digest is that of the published algorithm' % j, rd(got, num(j)), rd(want, num(j)), fn, mach=True)
    z = an.run('MurmurHash3::hashSize', 0)
    R.same('digests have 16 bytes', z.rv, num(16), 'MurmurHash3::hashSize')
    R.same('hashing leaves the seed alone', final(s, THIS, seed.a[1]), seed, fn)
    s = an.run(None, fid=ctor('MurmurHash3', 1, 'int'))
    R.same('the seed given is the one used', final(s, THIS, seed.a[1]), sym('arg0'), 'MurmurHash3::MurmurHash3(seed)')


# ------------------------------------------------------------------ pseudo-random values
def prfstate(it, this, vals):
    """buffers of any size and content; the digest buffer of the generator's SHA-1"""
    m = it.S.m
    P = 'ZZPRF'
    for fld_, nm, cnt in (('gen', 'gen', 'genLength'), ('hashInput', 'in', 'hashInputSize')):
        b = buf(nm)
        m[(THIS, (f(P, fld_),))] = b
        n = nn(cellof(THIS, f(P, cnt)))
        m[(b.a[0], ('#n',))] = n
    h = f(P, 'hashAlgorithm')
    d = buf('digest')
    m[(THIS, (h, f('SHAByteArray', 'lastHash')))] = d
    m[(THIS, (h, f('SHAByteArray', 'size')))] = num(20)
    r = raw('region', 'sha', 0)
    m[(THIS, (h, f('SHAByteArray', 'sha')))] = raw('optr', r, (), ())
    it.dynof[(r, ())] = 'CryptoPP::SHA1'


def stream(seed, index):
    """digests of seed and index, chained: byte j"""
    nb = models.numbytes(seed)
    inp = lamfun(lambda i: ite(lt(i, nb), models.byteof(seed, i), models.byteof(index, sub(i, nb))))
    n = add(nb, num(8))
    blocks = []

    def block(k):
        while len(blocks) <= k:
            if not blocks:
                i = fresh('dg', True)
                PROVER.push([neg(i), sub(add(i, ONE), n)])
                try:
                    blocks.append(raw('digest', SHA1, n, close(i, PROVER.simp(rd(inp, i)))))
                finally:
                    PROVER.pop()
            else:
                p = blocks[-1]
                blocks.append(raw('digest', SHA1, num(20), lamfun(lambda i: models.byteof(p, i))))
        return blocks[k]
    return lambda j: models.byteof(block(j // 20), num(j % 20))


WIDTHS = [1, 2, 7, 8, 9, 13, 16, 31, 52, 64, 127, 128, 150, 159, 160, 161, 168, 256, 320, 321, 400, 512]


def prfrun(b):
    if b not in _prf:
        _prf[b] = an.run('ZZPRF::generate', 3, args=[None, None, num(b)], pre=prfstate, unroll=100)
    return _prf[b]


_prf = {}


def parts(rv, b):
    """the byte array a generated number is read from"""
    return [x for x in chk.loops.leafset(rv)]


@check('C14', 'Value-flow summary of the generator for a list of widths (constant propagation through the block loop), over arbitrary seeds, indices and buffer states: the generated bytes are compared, as terms, with the chained digests of the whole seed and the whole index.')
def c14(R):
    fn = 'ZZPRF::generate'
    seed, index = sym('arg0'), nn(sym('arg1'))
    widths = WIDTHS if R.tier == 'quick' else sorted(set(WIDTHS + list(range(1, 700, 3)) + [1024, 1600]))
    for b in widths:
        s = prfrun(b)
        R.seen(*sorted(s.it.fnseen))
        n = (b + 7) // 8
        at = stream(seed, index)
        ok = TRUE
        cut = 8 * n - b
        R.never('width %d: a value is always generated' % b, OR(s.exitpc(), s.throwpc(None)), fn)
        got = bytesof(s, n)
        if got is None:
            R.ob('width %d: the value is read from the generated bytes' % b, None, fn, chk.short(s.rv))
            continue
        for j in sorted({0, 1, 18, 19, 20, 21, 39, 40, n - 2, n - 1} & set(range(n))):
            want = at(j)
            if j == n - 1 and cut:
                want = lowbits(want, 8 - cut)
            R.same('width %d: byte %d is that of the digest chain of seed and index' % (b, j), lower(rd(got, num(j))), want, fn)
    s = an.run('ZZpPRF::generate', 3)
    R.seen(*sorted(s.it.fnseen))
    bits, nbm = nn(sym('arg2')), app('NumBits', cellof(THIS, f('ZZpPRF', 'modulo')))
    w = ite(eq(bits, ZERO), nbm, ite(lt(nbm, bits), nbm, bits))
    R.same('field values: the generated number reduced to the field, as wide as asked for but not wider than the field', s.rv, app('modp', app('PRF', app('rep', seed), index, w)), 'ZZpPRF::generate')


def lowbits(x, k):
    return models.trunc(x, 8) if k == 8 else raw('lowb', x, num(k))


def lower(x):
    """trunc8(trunc8(x << c) >> c) and x & (2^k-1) keep the low bits"""
    if x.op == 'I':
        return ite(x.a[0], lower(x.a[1]), lower(x.a[2]))
    k = 8
    y = x
    while True:
        if y.op == 'trunc' and y.a[0].a[0] == 8:
            y = y.a[1]
            continue
        if y.op == 'div' and y.a[1].op == 'n' and y.a[0].op == 'trunc' and y.a[0].a[0].a[0] == 8:
            d = y.a[1].a[0]
            z = y.a[0].a[1]
            if d & (d - 1) == 0 and z.op == 'P' and len(z.a[0]) == 1 and z.a[0][0][1] == d and len(z.a[0][0][0]) == 1:
                k = min(k, 8 - (d.bit_length() - 1))
                y = z.a[0][0][0][0]
                continue
        if y.op == 'mod' and y.a[1].op == 'n' and y.a[1].a[0] & (y.a[1].a[0] - 1) == 0:
            k = min(k, y.a[1].a[0].bit_length() - 1)
            y = y.a[0]
            continue
        if y.op == 'band':
            m = [z for z in y.a if z.op == 'n']
            o = [z for z in y.a if z.op != 'n']
            if len(m) == 1 and len(o) == 1 and m[0].a[0] & (m[0].a[0] + 1) == 0:
                k = min(k, m[0].a[0].bit_length())
                y = o[0]
                continue
        break
    if k == 8:
        return x if y.op not in ('byteof',) else y
    return raw('lowb', y, num(k))


def bytesof(s, n):
    """content of the bytes a frombytes value is made of"""
    def one(x):
        if x.op == 'frombytes' and x.a[1] is ZERO and x.a[2] is num(n):
            return x.a[0]
        if x.op == 'lowbytes' and x.a[1] is num(n):
            z = x.a[0]
            return lamfun(lambda i: models.byteof(z, i))
        return None

    def go(v):
        if v.op == 'I':
            a, b = go(v.a[1]), go(v.a[2])
            if a is None or b is None:
                return None
            return ite(v.a[0] if v.a[0] in (TRUE, FALSE) else terms.atom(v.a[0]), a, b)
        return one(v)
    return go(s.rv)


@check('C15', 'Value-flow summary of the generator for a list of widths: upper bound of the most significant generated byte from the shift and mask operations applied to it, and the number of bytes the value is read from.')
def c15(R):
    fn = 'ZZPRF::generate'
    widths = WIDTHS if R.tier == 'quick' else sorted(set(WIDTHS + list(range(1, 700, 3)) + [1024, 1600]))
    for b in widths:
        s = prfrun(b)
        R.seen(*sorted(s.it.fnseen))
        n = (b + 7) // 8
        for x in chk.loops.leafset(s.rv):
            if x.op == 'n':
                R.ob('width %d: the value is below 2^%d' % (b, b), 0 <= x.a[0] < 2 ** b, fn)
                continue
            if x.op in ('frombytes', 'lowbytes') and x.a[-1].op != 'n':
                R.same('width %d: the value has the bytes its width needs' % b, x.a[-1], num(n), fn)
                continue
            if x.op not in ('frombytes', 'lowbytes'):
                R.ob('width %d: the value is below 2^%d' % (b, b), None, fn, chk.short(x))
                continue
            m = x.a[-1].a[0]
            name = 'width %d: the value is below 2^%d' % (b, b), 'width %d: the value can use all %d bits' % (b, b)
            us = [upper(PROVER.simp(rd(x.a[0], num(j)))) if x.op == 'frombytes' else 255 for j in range(m)]
            if None in us:
                for nm in name:
                    R.ob(nm, None, fn, 'byte %d not bounded' % us.index(None))
                continue
            v = sum(min(255, u) << 8 * j for j, u in enumerate(us))
            R.ob(name[0], v < 2 ** b, fn, 'bytes read: %d, largest value 2^%d' % (m, v.bit_length()))
            R.ob(name[1], v == 2 ** b - 1, fn, 'bytes read: %d, largest value has %d bits' % (m, v.bit_length()))


def upper(y):
    """largest value of a byte term; None: unknown"""
    us = [upper1(z) for z in chk.loops.leafset(y)]
    return None if None in us else max(us)


def upper1(y):
    if y.op == 'n':
        return y.a[0] if y.a[0] >= 0 else None
    if y.op in ('byteof', 'ch', 'rd', 'cell', 'uninit'):
        return 255
    if y.op == 'trunc':
        w = (1 << y.a[0].a[0]) - 1
        u = upper(y.a[1])
        return w if u is None else min(w, u)
    if y.op == 'div' and y.a[1].op == 'n' and y.a[1].a[0] > 0:
        u = upper(y.a[0])
        return None if u is None else u // y.a[1].a[0]
    if y.op == 'shr' and y.a[1].op == 'n':
        u = upper(y.a[0])
        return None if u is None else u >> y.a[1].a[0]
    if y.op == 'mod' and y.a[1].op == 'n' and y.a[1].a[0] > 0:
        u = upper(y.a[0])
        return y.a[1].a[0] - 1 if u is None else min(y.a[1].a[0] - 1, u)
    if y.op == 'band':
        us = [u for u in map(upper, y.a) if u is not None]
        return min(us) if us else None
    if y.op == 'P':
        r = 0
        for m, c in y.a[0]:
            if c < 0:
                return None
            p = c
            for z in m:
                u = upper(z)
                if u is None:
                    return None
                p *= u
            r += p
        return r
    return None


@check('C20', 'Value-flow summaries of the SHA classes: digest object, buffer extent and size chosen per flavour; digest bytes handed out as terms over the hashed bytes; extents of the bytes read and written.')
def c20(R):
    fl = {'CryptoPP::SHA256': ('SHA256_FLAVOUR', 32), 'CryptoPP::SHA1': ('SHA1_FLAVOUR', 20)}
    P = an.prog()
    n = 0
    for cls in sorted(P.records):
        if not cls.startswith('SHA<'):
            continue
        fn = cls + '::setFlavour'
        s = an.run(fn, 1)
        R.seen(*sorted(s.it.fnseen))
        a = sym('arg0')
        is256 = eq(a, num(proto.enumval('HashFlavour', 'SHA256_FLAVOUR')))
        size = ite(is256, num(32), num(20))
        R.same(cls + ': the size follows the flavour', final(s, THIS, (f(cls, 'size'),)), size, fn)
        R.same(cls + ': the flavour is remembered', final(s, THIS, (f(cls, 'flavour'),)), a, fn)
        for g, want in ((is256, 'CryptoPP::SHA256'), (NOT(is256), 'CryptoPP::SHA1')):
            p = chk.prune(interp.restrict(final(s, THIS, (f(cls, 'sha'),)), g), g)
            q, _ = psplit(p)
            al = [e for e in s.events if e.kind == 'alloc' and q.op == 'optr' and e.region is q.a[0]]
            R.ob('%s: the digest object is %s' % (cls, want), None if not al else al[0].et == want, fn, al[0].et if al else '')
            p = chk.prune(interp.restrict(final(s, THIS, (f(cls, 'lastHash'),)), g), g)
            q, _ = psplit(p)
            R.same('%s: the digest buffer has room for %s' % (cls, want), final(s, q.a[0], ('#n',)) if q.op in ('ptr', 'optr') else raw('unk', 'buffer'), num(fl[want][1]), fn, g)
        z = an.run(cls + '::hashSize', 0)
        R.same(cls + ': the digest size handed out is that size', z.rv, cellof(THIS, f(cls, 'size')), cls + '::hashSize')
        n += 1
    R.need(n >= 3, 'SHA instantiations missing')
    x = sym('arg0')
    ln = nn(sym('arg1'))
    for cls, txt, tlen in (('SHAZZp', app('tostr', app('rep', x)), None), ('SHAString', None, None), ('SHAByteArray', None, ln)):
        fn = cls + '::hash'
        digestbuf = buf('digest')
        r = raw('region', 'sha', 0)

        def pre(it, this, vals):
            m = it.S.m
            m[(THIS, (f(cls, 'lastHash'),))] = digestbuf
            m[(THIS, (f(cls, 'sha'),))] = raw('optr', r, (), ())
            it.dynof[(r, ())] = 'CryptoPP::SHA256'
            m[(THIS, (f(cls, 'size'),))] = num(32)
        s = an.run(fn, 2, pre=pre)
        R.seen(*sorted(s.it.fnseen))
        if cls == 'SHAByteArray':
            some = AND(NOT(isnull(x)), NOT(eq(ln, ZERO)))
            n, at = ln, lambda i: rd(cellof(proto.derefr(x)), i)
            R.same(fn + ': nothing hashed without bytes', s.rv, NULL, fn, NOT(some))
            R.same(fn + ': and the last digest is kept', rd(final(s, digestbuf.a[0]), ZERO), rd(cellof(digestbuf.a[0]), ZERO), fn, NOT(some))
        else:
            some = TRUE
            S_ = txt if txt is not None else x
            n = truncated(vlen(S_), ln)
            at = lambda i: schar(S_, i)
        R.same(fn + ': the digest is handed out', s.rv, digestbuf, fn, some)

        def dig(n):
            i = fresh('dg', True)
            PROVER.push([neg(i), sub(add(i, ONE), n)])
            try:
                return raw('digest', raw('alg', 'CryptoPP::SHA256'), n, close(i, PROVER.simp(at(i))))
            finally:
                PROVER.pop()
        want = dig(n)
        for j in (0, 1, 30, 31):
            R.same('%s: byte %d is that of the digest of the first bytes' % (fn, j), rd(final(s, digestbuf.a[0]), num(j)), models.byteof(want, num(j)), fn, some)
        for k, v in s.S.m.items():
            if k[1] and k[1][-1] == models.PENDING:
                R.never(fn + ': nothing stays fed into the digest for the next call', AND(s.S.pc, proto.changecond(raw('cell', *k), v)), fn)
        rs = [e for e in s.events if e.kind == 'bytes' and e.mode == 'r']
        for e in rs if len(rs) == 1 else []:
            R.same(fn + ': it reads no further than there are bytes', e.n, n, fn, e.pc)
