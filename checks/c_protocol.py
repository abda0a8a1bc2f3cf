"""Who is heard, what is answered, to whom."""
from chk import check
import an
import proto
import terms
import interp
from terms import *

RECV = {'client': 'EOPSIClient::receive', 'server': 'EOPSIServer::receive'}


def known_sender(m):
    return AND(AND(NOT(isnull(m.p)), NOT(eq(m.pid, proto.selfid()))), mhas(proto.parties(), m.pid))


def kindis(m, k):
    return eq(m.type, proto.kind(k))


def entitled(who, m):
    st = proto.partytype(m.pid)
    fromc, froms = eq(st, proto.role('client')), eq(st, proto.role('server'))
    if who == 'client':
        return OR(AND(OR(kindis(m, 'client_request'), kindis(m, 'polynomial')), fromc), AND(kindis(m, 'output'), froms))
    return AND(OR(kindis(m, 'outsource'), kindis(m, 'cloud_request')), fromc)


def run(R, who):
    s = an.run(RECV[who], 1)
    R.seen(*sorted(s.it.fnseen))
    m = proto.Msg()
    return s, m


@check('C01', 'Value-flow summary of both message handlers (callees inlined, virtual calls resolved): for every exit, '
              'state change, outgoing message, release and process exit, the path condition must entail: message present, sender '
              'registered, sender not the party itself, and sender role entitled to the message kind (table in the check).')
def c01(R):
    for who in ('client', 'server'):
        s, m = run(R, who)
        G = AND(known_sender(m), entitled(who, m))
        c = proto.canon
        fn = RECV[who]
        R.implies('%s: returns without refusing only for an entitled sender' % who, c(s.S.pc), G, fn)
        R.implies('%s: terminates the process only for an entitled sender' % who, c(s.exitpc()), G, fn)
        for S, x in s.throws:
            R.count('exceptional exits')
            if x.a[0] != 'ProtocolException' and 'ProtocolException' not in an.prog().bases(x.a[0]):
                R.implies('%s: a refusal is reported as a protocol error' % who, c(S.pc), G, fn, 'throws ' + x.a[0])
            for r, p, i, v in proto.changes(s, S):
                R.implies('%s: state %s untouched by a refused message' % (who, '.'.join(map(str, p))), c(AND(S.pc, proto.changecond(i, v))), G, fn)
        for e in s.events:
            if e.kind in proto.EFFECTS:
                R.count('effects')
                R.implies('%s: effect "%s" only for an entitled sender' % (who, e.kind), c(e.pc), G, e.loc)
            elif e.kind == 'deref' and e.ptr is m.p:
                R.implies('%s: message examined only if present' % who, e.pc, NOT(isnull(m.p)), e.loc)
        R.need(R.counts.get('effects', 0) >= 3, 'no effects seen in %s' % fn)
    # the registry itself
    s = an.run('EOPSIParty::authenticate', 1)
    R.seen(*sorted(s.it.fnseen))
    ps = proto.parties()
    other = raw('optr', raw('region', 'arg', 0), (), ())
    oid = proto.cell(raw('region', 'arg', 0), proto.IDF())
    want = ite(eq(oid, proto.selfid()), ps, mput(ps, oid, other))
    R.same('registering a party makes exactly that party known, under its identifier', s.field(proto.field('EOPSIParty', 'parties', typ=lambda t: t.startswith('std::map<'))), want, 'EOPSIParty::authenticate')


def refused(e):
    """condition of the refusal by the receiver of an earlier message"""
    return [x for x in allsub(e.pc).values() if x.op == 'refuses']


@check('C02', 'Value-flow summary of both message handlers: the set of outgoing messages (recipient, kind, sender label, condition) '
              'is extracted from the summary and compared, as value terms, with the protocol table.')
def c02(R):
    c = proto.canon
    ps = proto.parties()
    PID, TY = proto.field('EOPSIMessage', 'partyId'), proto.field('EOPSIMessage', 'type')
    # client
    s, m = run(R, 'client')
    req = AND(AND(known_sender(m), entitled('client', m)), kindis(m, 'client_request'))
    sends = [e for e in s.events if e.kind == 'send']
    R.count('outgoing messages', len(sends))
    if not sends:
        R.ob('client: a request is answered', False, 'EOPSIClient::receive', 'no message is ever sent')
    tocloud, toclient = FALSE, FALSE
    for e in sends:
        pc = c(e.pc)
        R.implies('client: sends only while serving a computation request', pc, req, e.loc)
        R.same('client: outgoing message carries the own identifier', objf(e.msg, PID), proto.selfid(), e.loc, e.pc)
        k = interp.restrict(objf(e.msg, TY), e.pc)
        isreq, ispol = eq(k, proto.kind('cloud_request')), eq(k, proto.kind('polynomial'))
        R.implies('client: sends cloud requests and polynomials only', pc, OR(isreq, ispol), e.loc)
        if AND(pc, isreq) is not FALSE:
            a = AND(pc, isreq)
            to = recipient(e)
            R.implies('client: a cloud request goes to a registered server', AND(a, c(NOT(toserver(e)))), FALSE, e.loc, 'recipient %s' % to)
            tocloud = OR(tocloud, a)
        if AND(pc, ispol) is not FALSE:
            R.same('client: the polynomial goes to the party that asked', c(e.to), c(mget(ps, m.pid)), e.loc, AND(e.pc, ispol))
            toclient = OR(toclient, AND(pc, ispol))
    ret = AND(c(s.S.pc), req)
    R.implies('client: a served request produced a cloud request', ret, tocloud, RECV['client'])
    R.implies('client: a served request produced an answer to the requester', ret, toclient, RECV['client'])
    R.implies('client: answers a requester only after the cloud was asked', toclient, tocloud, RECV['client'])
    # server
    s, m = run(R, 'server')
    req = AND(AND(known_sender(m), entitled('server', m)), kindis(m, 'cloud_request'))
    sends = [e for e in s.events if e.kind == 'send']
    R.count('outgoing messages', len(sends))
    if not sends:
        R.ob('server: a request is answered', False, 'EOPSIServer::receive', 'no message is ever sent')
    anysend = FALSE
    d = raw('psym', 'x')
    for e in sends:
        pc = c(e.pc)
        anysend = OR(anysend, pc)
        R.implies('server: sends only while serving a computation request', pc, req, e.loc)
        R.same('server: outgoing message carries the own identifier', objf(e.msg, PID), proto.selfid(), e.loc, e.pc)
        R.same('server: sends computation output only', objf(e.msg, TY), proto.kind('output'), e.loc, e.pc)
        R.same('server: the output goes to the partner named in the request', c(e.to), mget(ps, partner(m)), e.loc, e.pc)
    R.implies('server: a served request produced an output', AND(c(s.S.pc), req), anysend, RECV['server'])


def objf(o, f):
    return lift('objf:' + f, lambda x: getobj(x, f), o)


def getobj(x, f):
    if x.op == 'objval':
        for n, v in x.a[1]:
            if n == f:
                return v
    return raw('unk', 'message field')


def recipient(e):
    return str(e.to)[:200]


def toserver(e):
    """the recipient is a registered party of the server role"""
    r = TRUE
    ty = lift('ty', lambda p: proto.cell(proto.derefr(p), proto.TYF()) if p.op == 'mget' else raw('unk', 'party'), e.to)
    for x in leaf(ty):
        mark_nonneg(x)
    return eq(ty, proto.role('server'))


def leaf(t):
    import loops
    return loops.leafset(t)


def partner(m):
    """the second identifier of a cloud request"""
    d = raw('region', 'deref', m.data)
    arr = proto_arr(m)
    n0 = raw('strlen', arr, ZERO)
    return cstr(arr, add(n0, ONE))


def proto_arr(m):
    return raw('cell', raw('region', 'deref', m.data), ())


# ------------------------------------------------------------------ requests
def strfacts(pc, *goals):
    """where a bounded search for the terminator succeeded, it found the end of the string"""
    goals = [interp.restrict(g, pc) for g in goals]
    for _ in range(6):
        PROVER.push_cond(pc)
        try:
            hit = None
            for x in list(allsub(pc).values()) + [y for g in goals for y in allsub(g).values()]:
                if x.op == 'strnlen' and PROVER.prove_le0(sub(add(x, ONE), x.a[2])):
                    hit = x
                    break
        finally:
            PROVER.pop()
        if hit is None:
            break
        m = {hit: raw('strlen', hit.a[0], hit.a[1])}
        pc = subst(pc, m)
        goals = [interp.restrict(subst(g, m), pc) for g in goals]
    return pc, goals


def payload(m):
    return raw('cell', raw('region', 'deref', m.data), ())


def base_of(p):
    b, o = psplit(p)
    while b.op == 'pcast':
        b2, o2 = psplit(b.a[0])
        if o2 is not ZERO:
            return b, o
        b = b2
    return b, o


def wellformed_client(m):
    """identifier, terminator, (possibly empty) secret, terminator; the identifier is the sender's"""
    a = payload(m)
    n = raw('strnlen', a, ZERO, m.len)
    return AND(AND(NOT(isnull(m.data)), le(add(n, num(2)), m.len)), eq(raw('cstr', a, ZERO), m.pid))


def wellformed_server(m, keybytes=16):
    a = payload(m)
    n = raw('strnlen', a, ZERO, m.len)
    n2 = raw('strnlen', a, add(n, ONE), sub(sub(m.len, n), ONE))
    c = AND(NOT(isnull(m.data)), le(add(n, ONE), m.len))
    c = AND(c, eq(raw('cstr', a, ZERO), m.pid))
    c = AND(c, le(add(add(add(n, n2), num(2)), num(keybytes)), m.len))
    p = partner(m)
    c = AND(c, mhas(proto.parties(), p))
    st = proto.stored()
    for k in (m.pid, p):
        e = mget(st, k)
        c = AND(c, mhas(st, k))
        c = AND(c, NOT(isnull(e)))
        c = AND(c, NOT(isnull(raw('cell', proto.derefr(e), (proto.field('EOPSIMessage', 'data'),)))))
    return c


@check('C03', 'Value-flow summary of both message handlers: every outgoing message is guarded by the identity comparison between '
              'payload and envelope, by the registration of the partner and by the presence of both data sets; every refusal of an '
              'entitled request is guarded by the negation of one of the documented conditions.')
def c03(R):
    c = proto.canon
    for who, k, wf in (('client', 'client_request', wellformed_client), ('server', 'cloud_request', wellformed_server)):
        s, m = run(R, who)
        fn = RECV[who]
        a = payload(m)
        sends = [e for e in s.events if e.kind == 'send']
        R.need(sends, fn + ' sends nothing')
        W = wf(m)
        G = AND(AND(known_sender(m), entitled(who, m)), kindis(m, k))
        for e in sends:
            R.count('guarded answers')
            pc = c(e.pc)
            R.implies('%s: answers only if the payload names the sender' % who, pc, eq(raw('cstr', a, ZERO), m.pid), e.loc)
            R.implies('%s: answers only if a payload is present' % who, pc, NOT(isnull(m.data)), e.loc)
            if who == 'server':
                p = partner(m)
                st = proto.stored()
                R.implies('server: answers only about a partner it knows', pc, mhas(proto.parties(), p), e.loc)
                for nm, kk in (('sender', m.pid), ('partner', p)):
                    en = mget(st, kk)
                    R.implies('server: answers only if the %s has outsourced data' % nm, pc, AND(mhas(st, kk), NOT(isnull(raw('cell', proto.derefr(en), (proto.field('EOPSIMessage', 'data'),))))), e.loc)
        # the request is refused, and refused with a protocol error, otherwise
        for S, x in s.throws:
            own = c(S.pc)
            # refused by the receiver of the answer: not this party's decision
            if any(y.op == 'refuses' for y in allsub(own).values()):
                continue
            R.count('refusals')
            R.implies('%s: an entitled, well-formed request is not refused' % who, AND(AND(own, G), W), FALSE, fn)
        R.implies('%s: a malformed request is not silently accepted' % who, AND(c(s.S.pc), G), W, fn)
    # storing outsourced data
    s, m = run(R, 'server')
    G = AND(AND(known_sender(m), entitled('server', m)), kindis(m, 'outsource'))
    st = proto.stored()
    fin = interp.restrict(c(s.field(proto.field('EOPSIServer', 'storedData', typ=lambda t: t.startswith('std::map<')))), G)
    R.same('server: outsourced data is kept under the sender', fin, mput(st, m.pid, m.p), RECV['server'], G)
    R.implies('server: outsourced data of an entitled sender is not refused', AND(c(s.throwpc(None)), G), FALSE, RECV['server'])
    # a request adds or removes no stored data
    R2 = AND(AND(known_sender(m), entitled('server', m)), kindis(m, 'cloud_request'))
    fin = interp.restrict(c(s.field('storedData')), AND(R2, c(s.S.pc)))
    R.same('server: serving a request leaves the stored data as it was', fin, st, RECV['server'], AND(R2, c(s.S.pc)))


@check('C04', 'Every read through the payload of a request (string, block, element) is found in the summaries of the two handlers; '
              'its extent, as a linear form over message length and string lengths, must be entailed to lie inside the announced length.')
def c04(R):
    for who, k in (('client', 'client_request'), ('server', 'cloud_request')):
        s, m = run(R, who)
        K = kindis(m, k)
        for e in s.events:
            if e.kind not in ('bytes', 'cstr', 'deref', 'index'):
                continue
            pc = AND(e.pc, K)
            if pc is FALSE:
                continue
            ptr = interp.restrict(e.ptr, pc)
            for x in leaf(ptr):
                b, o = base_of(x)
                if b is not m.data:
                    continue
                R.count('payload reads')
                if e.kind == 'index':
                    # an address inside or just past the payload
                    end = o
                    nm = 'address within the payload'
                elif e.kind == 'deref':
                    end = add(o, ONE)
                    nm = 'element read within the payload'
                elif e.kind == 'bytes':
                    end = add(o, e.n)
                    nm = 'block of %s within the payload' % e.callee
                else:
                    end = add(add(o, raw('strlen', payload(m), o)), ONE)
                    nm = 'string terminated within the payload'
                n = e.n if e.kind == 'bytes' else ZERO
                p2, (end2, o2, n2, len2) = strfacts(pc, end, o, n, m.len)
                bounded(R, '%s: %s' % (who, nm), p2, sub(end2, len2), e.loc)
                if o2 is not ZERO:
                    bounded(R, '%s: %s (from its start)' % (who, nm), p2, neg(o2), e.loc)
                if n2.op != 'n':
                    bounded(R, '%s: %s (size not negative)' % (who, nm), p2, neg(n2), e.loc)
        R.need(R.counts.get('payload reads', 0) >= 2, 'no payload reads seen in ' + RECV[who])


def bounded(R, name, pc, q, where):
    """q <= 0 under pc"""
    g = le0(q)
    PROVER.push_cond(pc)
    try:
        if g.op == 'I':
            g = PROVER.simp(g)
    finally:
        PROVER.pop()
    return R.implies(name, pc, g, where, 'extent %s' % q)
