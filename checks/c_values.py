"""What the exchanged values are: masks, public points, the two halves and their difference."""
from chk import check
import ir
import an
import chk
import proto
import terms
import interp
import randi
import models
import streams
from terms import *

THIS = proto.THISR


def hbregion(it):
    """the bucket array of the hash table"""
    hb = c('hashBuckets', 'EOPSIClient', typ=lambda t: 'HashBuckets' in t)
    return proto.derefr(bucketptr())


def bucketptr():
    hb = c('hashBuckets', 'EOPSIClient', typ=lambda t: 'HashBuckets' in t)
    return proto.cell(proto.derefr(hb), proto.field('HashBuckets<NTL::ZZ_p>', 'buckets'))


def hbadd(it, e, this, vals, args):
    """a hash table as the sequence of operations on it (what they do is C10-C12)"""
    k = (hbregion(it), ())
    cur = it.S.m.get(k, raw('cell', *k))
    it.S.m[k] = raw('hbadd', cur, args[0])
    it.ev('hbadd', e, elem=args[0], this=this)
    return VOID


def hbconceal(it, e, this, vals, args):
    k = (hbregion(it), ())
    cur = it.S.m.get(k, raw('cell', *k))
    it.S.m[k] = raw('hbconceal', cur)
    it.ev('hbconceal', e, this=this, by=args[0])
    return VOID


HB = dict(an.STD)
HB.update({'HashBuckets::add/1': hbadd, 'HashBuckets::conceal/1': hbconceal})


def c(name, cls='EOPSIParty', **kw):
    v = proto.this(name, cls, **kw)
    return v


def size(name, cls='EOPSIParty', **kw):
    v = c(name, cls, **kw)
    mark_nonneg(v)
    return v


def L():
    return size('length')


def H():
    return size('height')


def D():
    return size('degree', getter='EOPSIParty::getDegree')


def F():
    return c('fieldsize', getter='EOPSIParty::getFieldsize')


def bits():
    return app('NumBits', F())


def point(j):
    return app('modp', app('PRF', num(4), j, bits()))


def cachedpoints():
    return ite(atom(sym('cached')), vec(D(), lamfun(point)), vec(ZERO, raw('uninit')))


def established(it, this, client=False, points=True):
    """what the constructors establish (C27) and C08 keeps: bit length in step with the field, generator over the field, hash table
    of the same length, public points cached or not yet generated"""
    m = it.S.m
    m[(THIS, (proto.field('EOPSIParty', 'fieldbitsize'),))] = bits()
    pc = AND(le(ONE, D()), le(ONE, L()))
    if points:
        m[(THIS, (proto.field('EOPSIParty', 'unknowns'),))] = cachedpoints()
    if client:
        g = c('zzpprf', 'EOPSIClient', typ=lambda t: 'ZZpPRF' in t)
        m[(proto.derefr(g), (proto.field('ZZpPRF', 'modulo'),))] = F()
        hb = c('hashBuckets', 'EOPSIClient', typ=lambda t: 'HashBuckets' in t)
        for p in (g, hb, bucketptr()):
            pc = AND(pc, NOT(isnull(p)))
        k = proto.field('HashBuckets<NTL::ZZ_p>', 'k')
        m[(proto.derefr(hb), (k,))] = L()
    it.S = interp.St(AND(it.S.pc, pc), m)


_memo = {}


def summary(fn, nparams=1, client=False, **kw):
    k = (fn, nparams)
    if k not in _memo:
        _memo[k] = an.run(fn, nparams, pre=lambda it, this, vals: established(it, this, client), **kw)
    return _memo[k]


def blind():
    return summary('EOPSIClient::blind', 1, True, opaque=HB)


def delegation():
    return summary('EOPSIClient::delegationOutput', 2, True)


def compute():
    return summary('EOPSIParty::computeTOrQ', 3)


def handler(who):
    return summary('EOPSIClient::receive', 1, True) if who == 'client' else summary('EOPSIServer::receive', 1)


def leaves(t):
    import loops
    return loops.leafset(t)


def rowsof(s, p, m=TRUE):
    """the array a pointer value leads to in the final state"""
    def one(x):
        b, o = psplit(x)
        if b.op == 'ptr' and o is ZERO:
            r = b.a[0]
        elif b.op == 'optr' and b.a[1] == ():
            r = b.a[0]
        elif b.op in ('null', 'n'):
            return raw('null')
        else:
            r = proto.derefr(x)
        return s.S.m.get((r, ()), raw('cell', r, ()))
    return lift('rowsof%d' % s.number, one, p)


def countof(s, p):
    def one(x):
        b, o = psplit(x)
        r = b.a[0] if b.op in ('ptr', 'optr') else proto.derefr(x)
        return s.S.m.get((r, ('#n',)), raw('unk', 'number of rows'))
    return lift('countof%d' % s.number, one, p)


def pos():
    i, j = fresh('i', True), fresh('j', True)
    return i, j, AND(AND(lt(i, D()), lt(j, L())), AND(le(ONE, D()), le(ONE, L())))


def elem(rows, j, i):
    return rd(varr(rd(rows, j)), i)


def under(t, a):
    PROVER.push_cond(a)
    try:
        return chk.prune(interp.restrict(t, a), a) if t.op == 'I' else t
    finally:
        PROVER.pop()


def normal(t, a):
    PROVER.push_cond(a)
    try:
        return chk.norm(under(t, a))
    finally:
        PROVER.pop()


def shape(R, name, s, p, where, assume=TRUE):
    """an array of length rows of degree values"""
    i, j, a = pos()
    a = AND(a, assume)
    R.same(name + ': one row per bucket', countof(s, p), L(), where, a)
    R.same(name + ': one value per public point in each row', vlen(rd(rowsof(s, p), j)), D(), where, a)


def prfs(t):
    return [x for x in terms.allsub(t).values() if x.op == 'PRF']


def ownseed():
    return app('rep', app('modp', c('secret', 'EOPSIClient', getter='EOPSIClient::getSecret')))


def maskof(e, seed):
    """the pseudo-random mask drawn from seed inside e"""
    return [x for x in prfs(e) if x.a[0] is seed]


def mask(seed, idx, w=None):
    return app('modp', app('PRF', seed, idx, w if w is not None else bits()))


def blinded():
    s = blind()
    p = s.field(proto.field('EOPSIClient', 'blindedData', getter='EOPSIClient::getBlindedData'))
    return s, p


def masks():
    """position -> mask index and width used when blinding"""
    s, p = blinded()
    i, j, a = pos()
    e = normal(elem(rowsof(s, p), j, i), a)
    ms = maskof(e, ownseed())
    if len(ms) == 1:
        idx, w = ms[0].a[1], ms[0].a[2]
    else:
        idx, w = add(i, mul(D(), j)), bits()

    def at(jj, ii):
        m = {i: ii, j: jj}
        return subst(idx, m), subst(w, m)
    return at


@check('C05', 'Value-flow summary of the blinding step: every outsourced value, as a term, must be the polynomial of the concealed bucket evaluated at the public point plus '
              'one mask drawn from the own secret, as wide as the field; the mask index, as a term over row and column, must be injective.')
def c05(R):
    s, p = blinded()
    R.seen(*sorted(s.it.fnseen))
    fn = 'EOPSIClient::blind'
    shape(R, 'outsourced data', s, p, fn)
    i, j, a = pos()
    e = normal(elem(rowsof(s, p), j, i), a)
    ms = maskof(e, ownseed())
    R.count('masks', len(ms))
    at = masks()
    idx, w = at(j, i)
    fin = s.S.m.get((proto.derefr(bucketptr()), ()), raw('cell', proto.derefr(bucketptr()), ()))
    b = getf(rd(fin, j), '#base') if True else None
    want = add(app('peval', app('roots', vlen(b), varr(b)), point(i)), mask(ownseed(), idx, w))
    R.same('an outsourced value is the bucket polynomial at the public point plus its mask', e, want, fn, a)
    R.implies('the mask is as wide as the field', AND(s.S.pc, a), le(bits(), w), fn)
    if ms:
        streams.distinct(R, 'no two positions share a mask', [streams.Stream('mask', idx, [(i, D()), (j, L())], fn)], [D(), L()], AND(le(ONE, D()), le(ONE, L())))
    # what the hash table holds when it is turned into polynomials
    hb = proto.derefr(bucketptr())
    n0 = [x for x in s.events if x.kind == 'hbconceal']
    for x in n0:
        R.count('conceal calls')
    R.ob('the hash table is concealed before it is used', True if fin.op == 'hbconceal' else (None if chk.imprecise(fin, False) else False), fn, 'hash table contents are %s' % chk.short(fin))
    # nothing but the masked values is handed out
    g = an.run('EOPSIClient::getBlindedData', 0)
    R.same('the masked values are what is handed out', g.rv, proto.cell(THIS, proto.field('EOPSIClient', 'blindedData')), 'EOPSIClient::getBlindedData')
    R.need(R.counts.get('conceal calls') or R.obs, 'blinding does not conceal')


def sendsof(s, kindname):
    TY, DATA = proto.field('EOPSIMessage', 'type'), proto.field('EOPSIMessage', 'data')
    import c_protocol
    out = []
    for e in s.events:
        if e.kind == 'send':
            k = interp.restrict(c_protocol.objf(e.msg, TY), e.pc)
            pc = AND(e.pc, eq(k, proto.kind(kindname)))
            if pc is not FALSE:
                out.append((e, pc, interp.restrict(c_protocol.objf(e.msg, DATA), pc)))
    return out


def matrix(M):
    """an array of rows whose elements are M(j, i)"""
    return lamfun(lambda j: vec(D(), lamfun(lambda i: M(j, i))))


def servervalue(key, A, B, j, i):
    """what the server computes from two outsourced matrices (arrays of rows) under a key"""
    s = compute()
    e = elem(rowsof(s, s.rv), j, i)
    return subst(e, {s.it.args[0]: key, raw('cell', proto.derefr(s.it.args[1]), ()): A, raw('cell', proto.derefr(s.it.args[2]), ()): B})


def keyof(R, e, a, where):
    """the key of a computed matrix element: the seed all its own pseudo-random values share"""
    ks = {x.a[0] for x in prfs(e)} - {num(4), ownseed()}
    return ks


@check('C06', 'The element term of the polynomial half computed by the delegating client must equal the element term of the server\'s function, with the two outsourced values replaced by the masks '
              'blinding draws (own secret for the delegating party, received secret for the partner).')
def c06(R):
    s = delegation()
    R.seen(*sorted(s.it.fnseen | blind().it.fnseen | compute().it.fnseen))
    at = masks()
    i, j, a = pos()
    fn = 'EOPSIClient::delegationOutput'
    shape(R, 'polynomial half', s, s.rv, fn)

    def M(seed):
        return matrix(lambda jj, ii: mask(seed, *at(jj, ii)))
    key = s.it.args[1]
    other = app('rep', app('modp', s.it.args[0]))
    e = elem(rowsof(s, s.rv), j, i)
    want = servervalue(key, M(ownseed()), M(other), j, i)
    R.same('the polynomial half is the server\'s function of the two masks', e, want, fn, a)
    # the message handler sends exactly that, for the secret and the key of this request
    s = handler('client')
    R.seen(*sorted(s.it.fnseen))
    for e, pc, d in sendsof(s, 'polynomial'):
        R.count('polynomial halves sent')
        arr = raw('cell', raw('region', 'deref', proto.Msg().data), ())
        m = proto.Msg()
        n = raw('strlen', arr, ZERO)
        secret = models.frombytes(lamfun(lambda k: rd(arr, add(add(k, n), ONE))), ZERO, sub(sub(m.len, n), num(2)))
        other = app('rep', app('modp', secret))
        el = elem(rowsof(s, d), j, i)
        aa = AND(a, pc)
        for a1, v, keys in bykey(el, a, pc):
            R.count('keys', len(keys))
            if len(keys) != 1:
                R.ob('the polynomial half is computed under one fresh key', False if not chk.imprecise(v) and not keys else None, e.loc, 'keys %s' % [chk.short(k, 80) for k in keys])
                continue
            want = servervalue(keys[0], M(ownseed()), M(other), j, i)
            R.same('the polynomial half sent is the server\'s function of the masks of requester and self', v, want, e.loc, a1)
    R.need(R.counts.get('polynomial halves sent'), 'no polynomial half is sent')


def bykey(el, a, pc, also=(), depth=4):
    """the values of an element by the fresh keys used in it: assumption, value, keys"""
    v = normal(el, a)
    keys = [k for k in {x.a[0] for x in prfs(v)} if k.op == 'randbits' or any(k is x for x in also)]
    if len(keys) > 1 and depth:
        for at in sorted({x.a[0] for x in terms.allsub(v).values() if x.op == 'I'}, key=lambda z: z.id):
            n = lambda t: {x.a[0] for x in prfs(t) if x.a[0].op == 'randbits'}
            c = atom(at)
            vs = [(b, normal(el, b)) for b in (AND(a, c), AND(a, NOT(c)))]
            if all(n(x) < n(v) for _, x in vs):
                for b, _ in vs:
                    if AND(b, pc) is not FALSE:
                        yield from bykey(el, b, pc, also, depth - 1)
                return
    yield a, v, keys


@check('C07', 'The bytes of the cloud request written by the client are substituted, as terms, for the bytes the server\'s handler parses: the identities, the key and hence the server\'s output must '
              'come out as the client used them; the output\'s element term must be the server function of the two stored matrices.')
def c07(R):
    cs, ss = handler('client'), handler('server')
    R.seen(*sorted(cs.it.fnseen | ss.it.fnseen))
    i, j, a = pos()
    cm, sm = proto.Msg(), proto.Msg()
    cl = sendsof(cs, 'cloud_request')
    so = sendsof(ss, 'output')
    pol = sendsof(cs, 'polynomial')
    R.need(cl and so and pol, 'the exchange is not found')
    st = proto.stored()
    DATA = proto.field('EOPSIMessage', 'data')
    arr = raw('cell', raw('region', 'deref', sm.data), ())
    n0 = raw('strlen', arr, ZERO)
    partner = cstr(arr, add(n0, ONE))

    def data(k):
        p = proto.cell(proto.derefr(mget(st, k)), DATA)
        return raw('cell', proto.derefr(p), ())
    # the server: its output is the function of the two stored matrices, sender first
    for e, pc, d in so:
        R.count('outputs')
        rows = proto.canon(rowsof(ss, d))
        shape(R, 'server output', ss, d, e.loc)
        v = normal(proto.canon(elem(rows, j, i)), a)
        v2 = tighten(pc, v, equal=False)[0]
        ks = [x for x in {x.a[0] for x in prfs(v2)} - {num(4)}]
        skey = models.frombytes(lamfun(lambda k: rd(arr, add(add(add(k, num(2)), n0), raw('strlen', arr, add(n0, ONE))))), ZERO, num(16))
        key = ks[0] if len(ks) == 1 else skey
        want = servervalue(key, data(sm.pid), data(partner), j, i)
        v2, want = tighten(pc, v2, want)
        R.same('the server\'s output is the function of the data of requester and partner, in this order', v2, want, e.loc, a)
        # what it parses from the request the client writes
        for e2, pc2, d2 in cl:
            R.count('requests parsed')
            bytes_ = rowsof(cs, d2)
            LEN = proto.field('EOPSIMessage', 'len')
            import c_protocol
            ln = c_protocol.objf(e2.msg, LEN)
            own, asker = proto.selfid(), cm.pid
            A = TRUE
            b = under(proto.canon(bytes_), pc2)
            sub_ = {arr: b}
            R.same('the server reads the sender\'s identifier from the request', subst(raw('cstr', arr, ZERO), sub_) if True else None, own, e2.loc, A)
            R.same('the server reads the partner\'s identifier from the request', subst(partner, sub_), asker, e2.loc, A)
            R.same('the request is as long as announced', countof(cs, d2), ln, e2.loc, pc2)
            k2 = subst(key, sub_)
            for e3, pc3, d3 in pol:
                for a1, pv, keys in bykey(elem(rowsof(cs, d3), j, i), a, AND(pc2, pc3), (key,)):
                    if len(keys) == 1:
                        R.same('server and client compute under the same key', under(k2, a1), keys[0], e2.loc, AND(A, a1))
                    else:
                        R.ob('server and client compute under the same key', None, e2.loc, 'key of the polynomial half not identified')


def tighten(pc, *ts, equal=True):
    return chk.strings(chk.literals(proto.canon(pc)), *[proto.canon(interp.restrict(t, pc)) for t in ts], equal=equal)[1:]


@check('C08', 'Value-flow summaries of the generation and caching of public points: every point, as a term, may depend on the field size and its own position only, '
              'with injective index; a non-empty cache is returned unchanged; evaluation in blinding, computation and interpolation uses these points.')
def c08(R):
    n = None
    s = an.run('EOPSIParty::generateUnknowns', 1)
    R.seen(*sorted(s.it.fnseen))
    fn = 'EOPSIParty::generateUnknowns'
    n = s.it.args[0]
    k = fresh('k', True)
    a = lt(k, n)
    for what, v in (('returned', s.rv), ('kept', s.field(proto.field('EOPSIParty', 'unknowns')))):
        R.same('%s points: as many as asked' % what, vlen(v), n, fn, le(ZERO, n))
        e = normal(rd(varr(v), k), a)
        dep = {x for x in terms.allsub(e).values() if x.op in ('cell', 'sym')} - {F(), k, THISR_()}
        bad = [x for x in dep if x is not F() and x is not k and not (x.op == 'sym' and x is k)]
        why = chk.imprecise(e)
        R.ob('%s points depend on the field size and their position only' % what, True if not bad and not why else (None if why else False), fn, 'depends on %s: %s' % (', '.join(str(x) for x in bad), chk.short(e)))
        ps = prfs(e)
        if len(ps) == 1:
            streams.distinct(R, '%s points: each has its own index' % what, [streams.Stream('point', ps[0].a[1], [(k, n)], fn)], [n], TRUE)
            R.same('%s points are as wide as the field' % what, ps[0].a[2], bits(), fn, a)
        R.same('%s points are pseudo-random field elements' % what, e, app('modp', ps[0]) if len(ps) == 1 else point(k), fn, a)
    g = an.run('EOPSIParty::getUnknowns', 1)
    R.seen(*sorted(g.it.fnseen))
    fld = proto.field('EOPSIParty', 'unknowns')
    c0 = raw('cell', THIS, (fld,))
    fn = 'EOPSIParty::getUnknowns'
    have = NOT(eq(vlen(c0), ZERO))
    m = g.it.args[0]
    made = subst(s.rv, {n: m})
    R.same('points already generated are returned', g.rv, c0, fn, have)
    R.same('points already generated are kept', g.field(fld), c0, fn, have)
    need = AND(eq(vlen(c0), ZERO), le(ONE, m))
    R.same('points are generated when there are none', g.rv, made, fn, need)
    R.same('generated points are kept', g.field(fld), made, fn, need)
    # they are what polynomials are evaluated at and interpolated over
    i, j, a = pos()
    for nm, s in (('blinding', blind()), ('computation', compute()), ('delegation', delegation())):
        R.seen(*sorted(s.it.fnseen))
        v = s.field(fld)
        R.same('%s keeps the points it used' % nm, rd(varr(v), i), point(i), nm, a)
        R.same('%s keeps as many points as there are values per row' % nm, vlen(v), D(), nm, a)
    pts = 0
    for nm, s, p in (('blinding',) + blinded(), ('computation', compute(), compute().rv)):
        v = normal(elem(rowsof(s, p), j, i), a)
        for x in terms.allsub(v).values():
            if x.op == 'peval':
                pts += 1
                R.same('%s evaluates polynomials at the public point of the column' % nm, x.a[1], point(i), nm, a)
    R.count('evaluations', pts)
    s = summary('EOPSIClient::intersect', 1, True)
    R.seen(*sorted(s.it.fnseen))
    its = [x for x in terms.allsub(raw('tup', *[v for v in s.S.m.values()])).values() if x.op == 'interp']
    R.count('interpolations', len(its))
    for x in its:
        if x.a[0] is ZERO:
            continue    # no points were ever generated
        R.count('interpolations over points')
        R.same('interpolation uses the public points', rd(x.a[1], i), point(i), 'EOPSIClient::intersect', a)
    R.need(pts, 'no polynomial is evaluated')


def THISR_():
    return THIS


@check('C16', 'The indices at which the pseudo-random function is drawn under one key while a half is computed, as terms over row, column and coefficient, must be pairwise different: mixed-radix '
              'numbering is recognised and the ranges compared; otherwise a clash in a small instance is looked for.')
def c16(R):
    for nm, s, fn in (('computation', compute(), 'EOPSIParty::computeTOrQ'), ('delegation', delegation(), 'EOPSIClient::delegationOutput')):
        R.seen(*sorted(s.it.fnseen))
        by = {}
        for e in s.events:
            if e.kind == 'prf':
                by.setdefault(e.seed, []).append(e)
        for seed, evs in by.items():
            ss = []
            for e in evs:
                vs = [(v, n) for v, n in e.ctx if v.op == 'sym']
                idx = under(e.index, AND(e.pc, AND(le(ONE, D()), le(ONE, L()))))
                ss.append(streams.Stream(str(e.loc).split('/')[-1], idx, vs, e.loc))
            R.count('streams', len(ss))
            d = fresh('d', True)
            m = {D(): add(H(), d)}
            ss = [streams.Stream(x.name, subst(x.idx, m), [(v, subst(n, m)) for v, n in x.vars], x.where) for x in ss]
            streams.distinct(R, '%s: every use of one seed has its own index' % nm, ss, [d, L(), H()], AND(le(ONE, add(H(), d)), le(ONE, L())))
    R.need(R.counts.get('streams', 0) >= 4, 'pseudo-random draws not found')


def pad():
    return sub(sub(bits(), c('rawDataBits', 'EOPSIClient')), ONE)


def accepted(pairs, padsize):
    """roots of linear factors that carry the padding, unpadded: (condition, value) of factor k"""
    def root(k):
        return app('rep', neg(app('coeff0', getf(rd(varr(pairs), k), 'a'))))
    return root


def filtered(acc, pairs, padsize):
    def root(k):
        return app('rep', neg(rd(getf(rd(varr(pairs), k), 'a'), ZERO)))

    def cond(k):
        z = root(k)
        return AND(eq(app('deg', getf(rd(varr(pairs), k), 'a')), ONE), OR(eq(z, ZERO), le(padsize, models.numtwos(z))))
    return raw('filt', acc, vlen(pairs), lamfun(cond), lamfun(lambda k: app('shr', root(k), padsize)))


def gathered(pairs_of, padsize, n):
    return raw('fold', lamfun(lambda acc: lamfun(lambda j: filtered(acc, pairs_of(j), padsize))), raw('vec', ZERO, raw('uninit')), n)


def factored(x, y):
    """factors of the monic polynomial through the points"""
    return app('factors', app('monic', models.interp(x, y)))


@check('C09', 'The value computed as intersection, as a term, must be the gathering of unpadded roots of linear factors that are zero or carry the padding, over the polynomials interpolating '
              'output minus polynomial half; inserted elements must be the raw elements padded by the same amount, and that amount must leave them below the field.')
def c09(R):
    # padding
    s = an.run('EOPSIClient::padSize', 0, pre=lambda it, this, vals: established(it, this, True))
    R.seen(*sorted(s.it.fnseen))
    rb = size('rawDataBits', 'EOPSIClient')
    fits = le(add(rb, num(2)), bits())
    R.same('the padding takes all bits of the field the data leaves, but the topmost', s.rv, pad(), 'EOPSIClient::padSize', fits)
    # insertion
    b = blind()
    R.seen(*sorted(b.it.fnseen))
    raws = raw('cell', proto.derefr(c('rawData', 'EOPSIClient', getter='EOPSIClient::getRawData')), ())
    n = size('rawDataSize', 'EOPSIClient', getter='EOPSIClient::getRawDataSize')
    hb = proto.derefr(bucketptr())
    fin = b.S.m.get((hb, ()), raw('cell', hb, ()))
    want = raw('hbconceal', raw('fold', lamfun(lambda acc: lamfun(lambda k: raw('hbadd', acc, app('modp', shl(rd(raws, k), pad()))))), raw('cell', hb, ()), n))
    R.same('every raw element is inserted once, padded, before the table is concealed', fin, want, 'EOPSIClient::blind', AND(fits, le(ONE, n)))
    # the two ways to gather roots
    f = proto.field
    Z = 'ZZpPolynomials'
    ps = raw('cell', THIS, (f(Z, 'padsize', getter=Z + '::getPadsize'),))
    mark_nonneg(ps)
    s = an.run(Z + '::findIntersection', 0)
    R.seen(*sorted(s.it.fnseen))
    fp = raw('cell', THIS, (f(Z, 'factorPairs'),))
    nn = raw('cell', THIS, (f(Z, 'n'),))
    mark_nonneg(nn)
    roots = f(Z, 'roots')
    fpa = raw('cell', proto.derefr(fp), ())
    R.same('factorised polynomials: roots gathered are the unpadded acceptable ones', s.field(roots), gathered(lambda j: rd(fpa, j), ps, nn), Z + '::findIntersection()', NOT(isnull(fp)))
    R.same('nothing factorised: no root is reported', vlen(s.field(roots)), ZERO, Z + '::findIntersection()', isnull(fp))
    s = an.run(Z + '::findIntersection', 4)
    R.seen(*sorted(s.it.fnseen))
    X = raw('cell', s.it.args[0].a[0], ()) if s.it.args[0].op == 'optr' else raw('unk', 'x')
    Y = raw('cell', proto.derefr(s.it.args[1]), ())
    X = s.at(s.it.args[0], an.prog().types and 'NTL::vec_ZZ_p') if False else X
    want = gathered(lambda j: factored(X, rd(Y, j)), ps, s.it.args[2])
    R.same('points: roots gathered are the unpadded acceptable ones of the interpolating polynomials', s.field(roots), want, Z + '::findIntersection(points)')
    # the client
    s = summary('EOPSIClient::intersect', 1, True)
    R.seen(*sorted(s.it.fnseen))
    t, q = c('t', 'EOPSIClient'), c('q', 'EOPSIClient')
    both = AND(NOT(isnull(t)), NOT(isnull(q)))
    T, Q = raw('cell', proto.derefr(t), ()), raw('cell', proto.derefr(q), ())
    pts = vec(D(), lamfun(point))
    want = gathered(lambda j: factored(pts, vec(D(), lamfun(lambda i: sub(rd(varr(rd(T, j)), i), rd(varr(rd(Q, j)), i))))), pad(), L())
    sc = f('EOPSIClient', 'setcap', getter='EOPSIClient::getIntersection')
    R.same('the intersection is gathered from output minus polynomial half', s.field(sc), want, 'EOPSIClient::intersect', AND(AND(both, fits), AND(atom(sym('cached')), AND(le(ONE, D()), le(ONE, L())))))
    R.same('the intersection is untouched while a half is missing', s.field(sc), raw('cell', THIS, (sc,)), 'EOPSIClient::intersect', NOT(both))
    R.equiv('the intersection is computed exactly when both halves are there', s.rv, both, 'EOPSIClient::intersect') if s.rv.op == 'I' else R.ob('the intersection is computed exactly when both halves are there', None)
    g = an.run('EOPSIClient::getIntersection', 0)
    R.same('the intersection is what is handed out', g.rv, raw('cell', THIS, (sc,)), 'EOPSIClient::getIntersection')


@check('C18', 'Summary of the client\'s handler for both halves: final values of the two half pointers, the intersection and the releases, as terms and conditions over the state before the message.')
def c18(R):
    import c_protocol
    s = handler('client')
    R.seen(*sorted(s.it.fnseen))
    fn = 'EOPSIClient::receive'
    m = proto.Msg()
    f = proto.field
    tf, qf, sc = f('EOPSIClient', 't'), f('EOPSIClient', 'q'), f('EOPSIClient', 'setcap')
    t0, q0 = raw('cell', THIS, (tf,)), raw('cell', THIS, (qf,))
    for kind, mine, other, nm in (('output', tf, qf, 'output'), ('polynomial', qf, tf, 'polynomial half')):
        o0 = raw('cell', THIS, (other,))
        G = AND(AND(c_protocol.known_sender(m), c_protocol.entitled('client', m)), AND(c_protocol.kindis(m, kind), NOT(isnull(m.data))))
        ret = AND(proto.canon(s.S.pc), G)
        R.implies('%s: an entitled message with data is not refused' % nm, AND(proto.canon(s.throwpc(None)), G), FALSE, fn)
        first = AND(G, isnull(o0))
        both = AND(G, NOT(isnull(o0)))
        R.same('%s: kept until the other half arrives' % nm, proto.canon(s.field(mine)), m.data, fn, first)
        R.implies('%s: the other half stays missing' % nm, AND(first, NOT(isnull(proto.canon(s.field(other))))), FALSE, fn)
        R.same('%s: intersection untouched until the other half arrives' % nm, proto.canon(s.field(sc)), raw('cell', THIS, (sc,)), fn, first)
        for g in (mine, other):
            R.implies('%s: %s is forgotten once the intersection is computed' % (nm, g), AND(both, NOT(isnull(proto.canon(s.field(g))))), FALSE, fn)
        frees = {}
        for e in s.events:
            if e.kind == 'free':
                pc = AND(proto.canon(e.pc), G)
                p = proto.canon(interp.restrict(e.ptr, e.pc))
                for x in leaves(p):
                    if x is m.data or x is o0:
                        frees.setdefault(x, []).append((pc, e))
        for x, w in ((m.data, nm), (o0, 'other half')):
            any_ = FALSE
            for pc, e in frees.get(x, []):
                R.count('releases')
                R.implies('%s: %s released only when both halves were used' % (nm, w), AND(pc, NOT(isnull(x))), both, e.loc)
                R.implies('%s: %s released once' % (nm, w), AND(AND(pc, NOT(isnull(x))), any_), FALSE, e.loc)
                any_ = OR(any_, pc)
            R.implies('%s: %s is released after use' % (nm, w), AND(both, proto.canon(s.S.pc)), any_, fn)
    # the other kinds and entry points leave the halves alone
    K = AND(proto.canon(s.S.pc), c_protocol.kindis(m, 'client_request'))
    for g in (tf, qf, sc):
        R.same('request: %s untouched' % g, proto.canon(s.field(g)), raw('cell', THIS, (g,)), fn, K)


@check('C17', 'The element term of the server\'s function must be a combination, linear in the two outsourced values, whose two coefficients are values at the public point of polynomials that depend on key and '
              'bucket only and are monic of the agreed degree; with data = polynomial + mask substituted, output minus the client\'s half must be the same combination of the two bucket polynomials.')
def c17(R):
    s, dl = compute(), delegation()
    R.seen(*sorted(s.it.fnseen | dl.it.fnseen | blind().it.fnseen))
    fn = 'EOPSIParty::computeTOrQ'
    i, j, a = pos()
    key = fresh('key', True)
    zero = matrix(lambda jj, ii: ZERO)

    def constant(x):
        return matrix(lambda jj, ii: x)

    def value(A, B):
        return normal(servervalue(key, A, B, j, i), a)
    base = value(zero, zero)
    H = c('height', 'EOPSIParty')
    ws = []
    for who, A, B in (('first', constant(ONE), zero), ('second', zero, constant(ONE))):
        w = normal(sub(value(A, B), base), a)
        R.count('coefficients')
        ps = [x for x in terms.allsub(w).values() if x.op == 'peval']
        ok = w.op == 'peval' and len(ps) == 1
        R.ob('the coefficient of the %s party\'s value is the value of one polynomial' % who, True if ok else (None if chk.imprecise(w, False) else False), fn, chk.short(w))
        if not ok:
            continue
        P, x = w.a
        R.same('it is taken at the public point of the value', x, point(i), fn, a)
        dep = [t for t in terms.allsub(P).values() if t is i]
        R.ob('the %s random polynomial is the same for all points of a bucket' % who, not dep, fn, chk.short(P))
        k = fresh('k', True)
        hs = le(ZERO, H)
        R.same('the %s random polynomial is monic of the agreed degree' % who, rd(P, H), ONE, fn, AND(a, hs))
        R.same('the %s random polynomial has no higher coefficient' % who, rd(P, k), ZERO, fn, AND(AND(a, hs), lt(H, k)))
        v = normal(rd(P, k), AND(AND(AND(a, hs), lt(k, H)), le(ZERO, k)))
        q = prfs(v)
        R.ob('every lower coefficient of the %s random polynomial is drawn under the key' % who, True if len(q) == 1 and q[0].a[0] is key and v is app('modp', q[0]) else (None if chk.imprecise(v, False) else False), fn, chk.short(v))
        ws.append(w)
    R.need(len(ws) == 2 or any(o[1] is not True for o in R.obs), 'no coefficients')
    if len(ws) < 2:
        return
    R.ob('the two random polynomials are not the same', ws[0] is not ws[1], fn, chk.short(ws[0]))
    # output minus half, for data that are polynomial values plus masks
    at = masks()
    other = app('rep', app('modp', s_other(dl)))
    fa, fb = raw('sym', 'PA'), raw('sym', 'PB')
    PA, PB = (lambda jj, ii: raw('rowval', fa, jj, ii)), (lambda jj, ii: raw('rowval', fb, jj, ii))

    def plus(P, seed):
        return matrix(lambda jj, ii: add(P(jj, ii), mask(seed, *at(jj, ii))))
    dk = dl.it.args[1]
    for first, second, name in ((ownseed(), other, 'the delegating party\'s own secret and the secret it was sent'),):
        out = servervalue(dk, plus(PA, first), plus(PB, second), j, i)
        half = elem(rowsof(dl, dl.rv), j, i)
        m = {key: dk}
        want = add(mul(PA(j, i), subst(ws[0], m)), mul(PB(j, i), subst(ws[1], m)))
        R.same('output minus half is the combination of the two bucket polynomials', sub(out, half), want, 'EOPSIClient::delegationOutput', a)


def s_other(dl):
    return dl.it.args[0]

