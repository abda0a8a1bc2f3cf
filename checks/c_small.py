"""Records, exceptions and conversions."""
from chk import check
import chk
import ir
import an
import proto
import interp
import models
from terms import *
from c_hash import f, cellof, final, THIS

MSG = 'EOPSIMessage'


def msgfields():
    return {'id': f(MSG, 'partyId', getter=MSG + '::getPartyId'), 'type': f(MSG, 'type', getter=MSG + '::getType'),
            'data': f(MSG, 'data', getter=MSG + '::getData'), 'len': f(MSG, 'len', getter=MSG + '::length')}


def only(R, what, s, sets, where, ignore=()):
    """the fields named get the values named; every other part of the object stays"""
    for k, v in sets.items():
        R.same('%s: %s' % (what, k), final(s, THIS, (k,)), v, where)
    for (r, p), v in sorted(s.S.m.items(), key=lambda kv: str(kv[0])):
        if r is THIS and not (p and (p[0] in sets or p[0] in ignore)):
            R.same('%s leaves %s alone' % (what, '.'.join(map(str, p)) or 'the object'), v, cellof(THIS, *p), where)
    ends = [e for e in s.events if e.kind in ('exit', 'throw')]
    R.ob('%s never fails' % what, not ends or all(PROVER.simp(e.pc) is FALSE for e in ends), ends[0].loc if ends else where)


def arg(s, k):
    """the value of a parameter, by value or by reference"""
    a = s.it.args[k]
    if a.op == 'optr':
        return raw('cell', a.a[0], a.a[1])
    return a


def run(R, name, n, **kw):
    s = an.run(name, n, **kw)
    R.seen(*sorted(s.it.fnseen))
    return s


def setter(R, name, sets, n=1, ignore=(), **kw):
    s = run(R, name, n, **kw)
    only(R, name, s, sets(s), name, ignore)
    return s


def getter(R, name, want, **kw):
    s = run(R, name, 0, **kw)
    R.same('%s tells the current value' % name, s.rv, atom(want) if s.rv.op == 'I' and want.op == 'cell' else want, name)
    only(R, name, s, {}, name)


def ctors(cls):
    """the constructors written for a class, except for copies"""
    return [x for x in an.prog().functions.values() if x.get('kind') == 'ctor' and x.get('cls') == cls and not x.get('impl') and not x.get('copy') and 'const %s &' % cls not in x['fid'] and '%s &&' % cls not in x['fid']]


@check('C24', 'Value-flow summaries of the constructors and accessors of the exception classes: the members afterwards and the condition and code of every exit compared exactly; '
              'the code of every exit of every library function must not be the success code.')
def c24(R):
    E = 'Exception'
    m, fa, ec = (f(E, n, getter=E + '::' + g) for n, g in (('message', 'getMessage'), ('fatal', 'isFatal'), ('exitCode', 'getExitCode')))

    def dies(what, s, cond, code, where):
        ex = [e for e in s.events if e.kind == 'exit']
        R.equiv('%s ends the process exactly when fatal' % what, s.exitpc(), cond, where)
        for e in ex:
            R.count('exits of exceptions')
            R.same('%s ends it with its code' % what, e.code, code, e.loc, e.pc)
        R.never('%s throws nothing else' % what, s.throwpc(None), where)

    for cls in (E, 'ProtocolException'):
        cs = [x for x in ctors(cls) if len(x['params']) == 3]
        R.need(len(cs) == 1, 'constructor of %s' % cls)
        s = an.run(None, fid=cs[0]['fid'])
        R.seen(*sorted(s.it.fnseen))
        w = '%s::%s' % (cls, cls)
        R.same('%s carries its message' % cls, final(s, THIS, (m,)), arg(s, 0), w)
        R.same('%s carries its fatality' % cls, final(s, THIS, (fa,)), s.it.args[1], w)
        R.same('%s carries its code' % cls, final(s, THIS, (ec,)), s.it.args[2], w)
        dies(cls, s, boolof(s.it.args[1]), s.it.args[2], w)
    cls = 'OutOfBoundException'
    cs = [x for x in ctors(cls) if len(x['params']) == 2]
    R.need(len(cs) == 1, 'constructor of %s' % cls)
    s = an.run(None, fid=cs[0]['fid'])
    R.seen(*sorted(s.it.fnseen))
    w = '%s::%s' % (cls, cls)
    empty = eq(arg(s, 0), sconst(b''))
    got = final(s, THIS, (m,))
    R.same('%s carries its message, if it is given one' % cls, got, arg(s, 0), w, NOT(empty))
    g = norm_under(got, empty)
    R.ob('%s has a message of its own if it is given none' % cls, True if constant(g) else (None if chk.imprecise(g) else False), w, chk.short(g))
    R.same('%s carries its fatality' % cls, final(s, THIS, (fa,)), s.it.args[1], w)
    R.same('%s carries code 1' % cls, final(s, THIS, (ec,)), ONE, w)
    dies(cls, s, boolof(s.it.args[1]), ONE, w)

    setter(R, E + '::setMessage', lambda s: {m: arg(s, 0)})
    setter(R, E + '::setFatal', lambda s: {fa: s.it.args[0]})
    setter(R, E + '::setExitCode', lambda s: {ec: s.it.args[0]})
    getter(R, E + '::getMessage', cellof(THIS, m))
    getter(R, E + '::isFatal', cellof(THIS, fa))
    getter(R, E + '::getExitCode', cellof(THIS, ec))
    s = run(R, E + '::what', 0)
    R.ob('what shows the message', s.rv.op == 'ptr' and s.rv.a[:3] == (THIS, (m,), ()), E + '::what', chk.short(s.rv))
    only(R, E + '::what', s, {}, E + '::what')
    # no failure looks like a success
    from c_memory import functions
    for fid, x in sorted(functions(R).items()):
        for e in x.s.events:
            if e.kind == 'exit' and e.callee in ('exit', '_exit', '_Exit', 'quick_exit'):
                R.count('exits')
                R.implies('an exit of %s has a code other than success' % fid[:100], e.pc, NOT(eq(e.code, ZERO)), e.loc) if not given(e.code) else R.ob('an exit of %s has the code it is given' % fid[:100], True, e.loc)
    R.need(R.counts.get('exits', 0) > 10, 'hardly any exits')


def given(code):
    """a code chosen by whoever made the exception"""
    return code.op in ('sym', 'cell')


def boolof(t):
    return t if t.op in ('I', 'true', 'false') else NOT(eq(t, ZERO))


def norm_under(t, c):
    PROVER.push_cond(c)
    try:
        return chk.norm(chk.prune(interp.restrict(t, c), c))
    finally:
        PROVER.pop()


def constant(t):
    return t.op == 'sconst' and t.a[0] != b''



@check('C26', 'Value-flow summaries of the number and vector conversions, compared as terms (lengths and a generic element of vectors, exact conditions) with their definitions.')
def c26(R):
    def fn(name, n, pred=None):
        s = an.run('NTL::' + name, n, pred=pred)
        R.seen(*sorted(s.it.fnseen))
        ends = OR(s.exitpc(), s.throwpc(None))
        R.never('%s never fails' % name, ends, 'NTL::' + name)
        return s

    def takes(*ts):
        return lambda g: all(t in p['t'] if isinstance(p.get('t'), str) else True for t, p in zip(ts, g['params'])) and all(t in g['fid'] for t in ts)

    # sizes
    s = fn('blocks', 2)
    b, k = s.it.args
    for x in (b, k):
        mark_nonneg(x)
    R.same('blocks is the number of blocks, the last one perhaps not full', s.rv, fdiv(sub(add(b, k), ONE), k), 'NTL::blocks', le(ONE, k))
    s = fn('bytes', 1, lambda g: 'unsigned long' in g['fid'])
    b = s.it.args[0]
    mark_nonneg(b)
    R.same('bytes of so many bits', s.rv, fdiv(add(b, num(7)), num(8)), 'NTL::bytes(bits)')
    s = fn('bytes', 1, lambda g: 'ZZ &' in g['fid'])
    R.same('bytes of a number', s.rv, fdiv(add(app('NumBits', arg(s, 0)), num(7)), num(8)), 'NTL::bytes(ZZ)')
    s = fn('bytes', 1, lambda g: 'ZZ_p' in g['fid'])
    R.same('bytes of a residue', s.rv, fdiv(add(app('NumBits', app('rep', arg(s, 0))), num(7)), num(8)), 'NTL::bytes(ZZ_p)')
    # padding
    s = fn('zeroPad', 2)
    z, n = arg(s, 0), s.it.args[1]
    mark_nonneg(n)
    R.same('zeroPad appends as many zero bits as asked for', s.rv, shl(z, n), 'NTL::zeroPad')
    s = fn('countLeadingZeros', 1)
    R.same('countLeadingZeros counts the zero bits at the end', s.rv, app('NumTwos', arg(s, 0)), 'NTL::countLeadingZeros')
    s = fn('zeroPadTo', 2)
    z, n = arg(s, 0), s.it.args[1]
    mark_nonneg(n)
    w = app('NumBits', z)
    small = AND(le(n, num((1 << 32) - 1)), le(w, num((1 << 32) - 1)))
    rv = exact(s.rv, AND(small, lt(w, n)))
    R.same('zeroPadTo leaves a number alone that is wide enough', s.rv, z, 'NTL::zeroPadTo', AND(small, le(n, w)))
    R.same('zeroPadTo pads a narrower number to one bit less than asked for', rv, shl(z, sub(sub(n, w), ONE)), 'NTL::zeroPadTo', AND(small, lt(w, n)))
    # vectors
    i = fresh('i', True)

    def isvec(what, v, src, n, where, assume):
        R.same('%s: as many elements' % what, vlen(v), n, where, assume)
        R.same('%s: the same elements, in order' % what, rd(varr(v), i), rd(src, i), where, AND(assume, lt(i, n)))

    for name in ('vector2VecZZp', 'array2VecZZp'):
        arr = name[0] == 'a'
        for n in (1, 2) if not arr else (2, 3):
            s = fn(name, n)
            w = 'NTL::%s, %d arguments' % (name, n)
            k = n - (2 if arr else 1)
            old = arg(s, 0) if k else None
            got = s.S.m.get((s.it.args[0].a[0], ()), old) if k else s.rv
            if arr:
                p, m = s.it.args[k], s.it.args[k + 1]
                mark_nonneg(m)
                isvec(w, got, cellof(proto.derefr(p)), m, w, NOT(isnull(p)))
                if k:
                    R.same('%s: nothing to read, nothing changed' % w, got, old, w, isnull(p))
                else:
                    R.same('%s: nothing to read, no element' % w, vlen(got), ZERO, w, isnull(p))
            else:
                v = arg(s, k)
                isvec(w, got, varr(v), vlen(v), w, TRUE)


def exact(t, a):
    """without the truncations that do not change the value where a holds"""
    PROVER.push_cond(a)
    try:
        m = {}
        for x in allsub(t).values():
            if x.op == 'trunc' and PROVER.prove_le0(neg(x.a[1])) and PROVER.prove_le0(sub(x.a[1], num((1 << x.a[0].a[0]) - 1))):
                m[x] = x.a[1]
        return subst(t, m) if m else t
    finally:
        PROVER.pop()


PARTY, CLIENT, SERVER = 'EOPSIParty', 'EOPSIClient', 'EOPSIServer'


def heapfield(s, p, fld):
    """a field of the object a pointer value leads to, at the end of s"""
    if p.op != 'optr':
        return final(s, proto.derefr(p), (fld,))
    return s.S.m.get((p.a[0], p.a[1] + (fld,)), raw('uninit'))


@check('C27', 'Value-flow summaries of the constructors, setters and getters of messages, parties and markable vectors compared exactly with the record they are said to keep, member by member; '
              'frame condition over the summary of every member function of the parties: who may change which part of the record.')
def c27(R):
    m = msgfields()
    # messages
    with R.group('messages'):
        def size(d, n):
            return ite(isnull(d), num(8), n)
        cs = [x for x in ctors(MSG) if len(x['params']) == 3]
        R.need(len(cs) == 1, 'constructor of messages')
        s = an.run(None, fid=cs[0]['fid'])
        R.seen(*sorted(s.it.fnseen))
        a = s.it.args
        only(R, 'a new message', s, {m['data']: a[0], m['len']: size(a[0], a[1]), m['type']: a[2], m['id']: sconst(b'')}, MSG)
        setter(R, MSG + '::setData', lambda s: {m['data']: s.it.args[0], m['len']: size(s.it.args[0], s.it.args[1])}, 2)
        setter(R, MSG + '::setType', lambda s: {m['type']: s.it.args[0]})
        setter(R, MSG + '::setPartyId', lambda s: {m['id']: arg(s, 0)})
        for g, k in (('getPartyId', 'id'), ('getType', 'type'), ('getData', 'data'), ('length', 'len')):
            getter(R, MSG + '::' + g, cellof(THIS, m[k]))
    with R.group('marks'):
        MV = 'MarkedVector<NTL::ZZ_p>'
        mk = f(MV, 'marked', typ=lambda t: t == 'bool')
        base = raw('cell', THIS, ())

        def marked(s):
            return getf(final(s, THIS), mk)
        for name, n, want in (('mark', 1, None), ('unmark', 0, FALSE)):
            s = run(R, MV + '::' + name, n)
            w = MV + '::' + name
            want = want if want is not None else s.it.args[0]
            R.equiv('%s sets the mark' % name, truth(marked(s)), truth(want), w)
            R.same('%s keeps the elements' % name, getf(final(s, THIS), '#base'), getf(base, '#base'), w)
        s = run(R, MV + '::isMarked', 0)
        R.equiv('isMarked tells the mark', truth(s.rv), truth(getf(base, mk)), MV + '::isMarked')
        cs = [x for x in ctors(MV) if not x['params']]
        R.need(len(cs) == 1, 'constructor of markable vectors')
        s = an.run(None, fid=cs[0]['fid'])
        v = final(s, THIS)
        R.equiv('a new vector is not marked', truth(getf(v, mk)), FALSE, MV)
        R.same('a new vector is empty', vlen(getf(v, '#base')), ZERO, MV)
    # parties
    p = {'id': ('id', PARTY + '::getId'), 'type': ('type', PARTY + '::getType'), 'field': ('fieldsize', PARTY + '::getFieldsize'), 'degree': ('degree', PARTY + '::getDegree'),
         'bits': ('fieldbitsize', None), 'length': ('length', None), 'height': ('height', None), 'unknowns': ('unknowns', None), 'parties': ('parties', None)}
    p = {k: f(PARTY, n, getter=g) for k, (n, g) in p.items()}
    c = {'raw': ('rawData', 'getRawData'), 'size': ('rawDataSize', 'getRawDataSize'), 'blinded': ('blindedData', 'getBlindedData'), 'secret': ('secret', 'getSecret'), 'setcap': ('setcap', 'getIntersection'),
         'bits': ('rawDataBits', None), 'buckets': ('hashBuckets', None), 'q': ('q', None), 't': ('t', None), 'gen': ('zzpprf', None)}
    c = {k: f(CLIENT, n, getter=CLIENT + '::' + g if g else None) for k, (n, g) in c.items()}
    modulo = f('ZZpPRF', 'modulo', getter='ZZpPRF::getModulo')

    def madeparty(what, s, kind, a, where):
        """a = id, field, length, height, degree"""
        for k, v in (('id', a[0]), ('field', a[1]), ('length', a[2]), ('height', a[3]), ('degree', a[4]), ('type', kind)):
            R.same('%s has the %s it is given' % (what, k), final(s, THIS, (p[k],)), v, where)
        R.same('%s has the bit width of its field' % what, final(s, THIS, (p['bits'],)), app('NumBits', a[1]), where)
        R.same('%s has no public points yet' % what, vlen(final(s, THIS, (p['unknowns'],))), ZERO, where)
        R.ob('%s knows nobody yet' % what, final(s, THIS, (p['parties'],)).op == 'mempty', where, chk.short(final(s, THIS, (p['parties'],))))
        R.never('%s is always made' % what, OR(s.exitpc(), s.throwpc(None)), where)

    with R.group('constructors'):
        kinds = enumvalues()
        for x in ctors(SERVER):
            s = an.run(None, fid=x['fid'])
            R.seen(*sorted(s.it.fnseen))
            ps = params(s, x)
            madeparty('a server', s, kinds['server'], ps, x['fid'][:60])
            R.count('constructors')
        for x in ctors(CLIENT):
            s = an.run(None, fid=x['fid'])
            R.seen(*sorted(s.it.fnseen))
            w = 'EOPSIClient(%s)' % x['params'][-1]['n']
            ps = params(s, x)
            madeparty('a client', s, kinds['client'], ps, w)
            R.count('constructors')
            F = {k: final(s, THIS, (v,)) for k, v in c.items()}
            for k in ('raw', 'blinded', 'q', 't'):
                R.same('a client has no %s yet' % k, F[k], NULL, w)
            for k in ('size', 'bits'):
                R.same('a client has no data yet: %s' % k, F[k], ZERO, w)
            R.ob('a client uses the hash table it is given', F['buckets'] is s.it.args[0], w, chk.short(F['buckets']))
            R.same('the mask generator of a client is over its field', heapfield(s, F['gen'], modulo), ps[1], w)
            tail = [y for y in range(len(x['params']))][6:]
            if len(tail) == 1:
                want = arg(s, tail[0])
            else:
                b, n = s.it.args[tail[0]], s.it.args[tail[1]]
                want = models.frombytes(raw('cell', proto.derefr(b), ()), ZERO, n)
            R.same('a client has the secret it is given', F['secret'], want, w, NOT(isnull(s.it.args[tail[0]])) if len(tail) == 2 else TRUE)
        R.need(R.counts.get('constructors', 0) >= 3, 'constructors of the parties')
    with R.group('setters'):
        setter(R, PARTY + '::setId', lambda s: {p['id']: arg(s, 0)})
        setter(R, PARTY + '::setType', lambda s: {p['type']: s.it.args[0]})
        s = setter(R, PARTY + '::setDegree', lambda s: {p['degree']: s.it.args[0]}, ignore=(p['unknowns'],))
        R.same('points of another degree are forgotten', vlen(final(s, THIS, (p['unknowns'],))), ZERO, PARTY + '::setDegree', NOT(eq(s.it.args[0], cellof(THIS, p['degree']))))
        own = an.prog().fn(CLIENT + '::setFieldsize', 1)
        s = setter(R, PARTY + '::setFieldsize', lambda s: {p['field']: arg(s, 0), p['bits']: app('NumBits', arg(s, 0))}, ignore=(p['unknowns'],))
        R.same('points of another field are forgotten', vlen(final(s, THIS, (p['unknowns'],))), ZERO, PARTY + '::setFieldsize', NOT(eq(arg(s, 0), cellof(THIS, p['field']))))
        if own:
            s = setter(R, CLIENT + '::setFieldsize', lambda s: {p['field']: arg(s, 0), p['bits']: app('NumBits', arg(s, 0))}, ignore=(p['unknowns'],))
            R.same('points of another field are forgotten', vlen(final(s, THIS, (p['unknowns'],))), ZERO, CLIENT + '::setFieldsize', NOT(eq(arg(s, 0), cellof(THIS, p['field']))))
        R.same('the mask generator of a client follows its field', final(s, proto.derefr(cellof(THIS, c['gen'])), (modulo,)), arg(s, 0), CLIENT + '::setFieldsize')
        setter(R, CLIENT + '::setSecret', lambda s: {c['secret']: arg(s, 0)})
        G = 'ZZpPRF'
        setter(R, G + '::setModulo', lambda s: {modulo: arg(s, 0)})
        getter(R, G + '::getModulo', cellof(THIS, modulo))
        for g, k in (('getId', 'id'), ('getType', 'type'), ('getFieldsize', 'field'), ('getDegree', 'degree')):
            getter(R, PARTY + '::' + g, cellof(THIS, p[k]))
        for g, k in (('getRawData', 'raw'), ('getRawDataSize', 'size'), ('getBlindedData', 'blinded'), ('getSecret', 'secret'), ('getIntersection', 'setcap')):
            getter(R, CLIENT + '::' + g, cellof(THIS, c[k]))
        s = an.run(CLIENT + '::getBlindedDataSize', 0)
        R.seen(*sorted(s.it.fnseen))
        R.same('the number of blinded values told is the number of public points of every bucket', s.rv, mul(cellof(THIS, p['degree']), cellof(THIS, p['length'])), CLIENT + '::getBlindedDataSize', NOT(isnull(cellof(THIS, c['buckets']))))
    # who changes what
    with R.group('frames'):
        from c_memory import functions
        core = set(p.values()) | {c[k] for k in ('raw', 'size', 'bits', 'blinded', 'secret', 'buckets', 'gen')} - {p['unknowns']}
        core -= {p['unknowns']}
        U = p['unknowns']
        data = {c['raw'], c['size'], c['bits'], c['blinded']}
        may = {'setId': {p['id']}, 'setType': {p['type']}, 'setFieldsize': {p['field'], p['bits']}, 'setDegree': {p['degree']}, 'setSecret': {c['secret']}, 'authenticate': {p['parties']},
               'setRawData': data, 'blind': data}
        for fid, x in sorted(functions(R).items()):
            if x.f.get('cls') not in (PARTY, CLIENT, SERVER) or x.f.get('kind') in ('ctor', 'dtor') or x.f.get('impl') or x.f['name'].startswith('operator'):
                continue
            ok = may.get(x.f['name'])
            if ok is None and x.f.get('access'):
                # a helper: judged in the functions that call it
                ok = set().union(*may.values())
            R.count('functions framed')
            for (r, path), v in sorted(x.s.S.m.items(), key=lambda kv: str(kv[0])):
                if r is THIS and path and path[0] in core and path[0] not in (ok or ()):
                    R.same('%s leaves %s alone' % (x.f['name'], path[0]), v, cellof(THIS, *path), fid[:100])
        R.need(R.counts.get('functions framed', 0) > 20, 'functions of the parties')


def truth(t):
    return t if t.op in ('I', 'true', 'false') else atom(t) if t.op in ('cell', 'fld', 'sym') else NOT(eq(t, ZERO))


def params(s, x):
    """identifier, field size, length, height and degree of a party under construction, by position"""
    a = [arg(s, k) for k in range(len(s.it.args))]
    k = 1 if len(a) > 5 else 0
    return [a[k + 4], a[k], a[k + 1], a[k + 2], a[k + 3]]


def enumvalues():
    return {'client': proto.role('client'), 'server': proto.role('server')}
