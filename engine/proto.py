"""The protocol's state and messages as value terms, shared by the protocol checks."""
import ir
import an
import terms
import interp
from terms import *

STRING = 'std::basic_string<char'


def enumval(typ, name):
    d = an.prog().types.get(typ)
    if not d or d.get('k') != 'enum':
        raise ir.Missing('no enumeration ' + typ)
    for n, v in d['vals']:
        if n == name:
            return v
    raise ir.Missing('%s has no %s' % (typ, name))


KINDS = {'outsource': 'EOPSI_MESSAGE_OUTSOURCING_DATA', 'client_request': 'EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST',
         'cloud_request': 'EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST', 'output': 'EOPSI_MESSAGE_OUTPUT_COMPUTATION',
         'polynomial': 'EOPSI_MESSAGE_POLYNOMIAL'}


def kind(n):
    return num(enumval('EOPSIMessageType', KINDS[n]))


def role(n):
    return num(enumval('EOPSIPartyType', {'client': 'EOPSI_PARTY_CLIENT', 'server': 'EOPSI_PARTY_SERVER'}[n]))


def field(cls, name, typ=None, getter=None):
    """the member of cls known as `name` (by name, by its accessor, or by its type)"""
    P = an.prog()
    for c in [cls] + P.bases(cls):
        for f in P.records[c]['fields']:
            if f['n'] == name:
                return name
    if getter:
        try:
            s = an.run(getter, 0)
            if s.rv.op == 'cell' and len(s.rv.a[1]) == 1:
                return s.rv.a[1][0]
        except ir.AnalysisBroken:
            pass
    if typ:
        c = [f['n'] for k in [cls] + P.bases(cls) for f in P.records[k]['fields'] if typ(f['t'])]
        if len(c) == 1:
            return c[0]
    raise ir.Missing('%s has no member %s' % (cls, name))


THISR = raw('region', 'this')


def cell(region, *path):
    return raw('cell', region, tuple(path))


def this(name, cls='EOPSIParty', **kw):
    return cell(THISR, field(cls, name, **kw))


def derefr(p):
    return raw('region', 'deref', p)


def arg(i):
    return sym('arg%d' % i)


class Msg:
    """the incoming message of receive()"""

    def __init__(self, p=None):
        self.p = p if p is not None else arg(0)
        r = derefr(self.p)
        self.r = r
        self.pid = cell(r, field('EOPSIMessage', 'partyId', getter='EOPSIMessage::getPartyId'))
        self.type = cell(r, field('EOPSIMessage', 'type', getter='EOPSIMessage::getType'))
        self.data = cell(r, field('EOPSIMessage', 'data', getter='EOPSIMessage::getData'))
        self.len = cell(r, field('EOPSIMessage', 'len', getter='EOPSIMessage::length'))
        mark_nonneg(self.len)
        mark_nonneg(self.type)


def parties():
    return this('parties', typ=lambda t: t.startswith('std::map<' + STRING) and 'EOPSIParty *' in t)


def stored():
    return this('storedData', 'EOPSIServer', typ=lambda t: t.startswith('std::map<' + STRING) and 'EOPSIMessage *' in t)


def selfid():
    return this('id', getter='EOPSIParty::getId')


IDF = lambda: field('EOPSIParty', 'id', getter='EOPSIParty::getId')
TYF = lambda: field('EOPSIParty', 'type', getter='EOPSIParty::getType')


def canon(t):
    """a party registered under a key has that key as its identifier"""
    ps = parties()
    f = IDF()
    for _ in range(4):
        m = {}
        for x in allsub(t).values():
            if x.op == 'cell' and x.a[1] == (f,) and x.a[0].op == 'region' and x.a[0].a[0] == 'deref':
                p = x.a[0].a[1]
                if p.op == 'mget' and p.a[0] is ps:
                    m[x] = p.a[1]
        if not m:
            return t
        t = subst(t, m)
    return t


def partytype(key):
    c = cell(derefr(mget(parties(), key)), TYF())
    mark_nonneg(c)
    return c


def changes(summary, S=None):
    """(region, path, initial, final) of the cells outside the function's own frame"""
    S = S or summary.S
    out = []
    for (r, path), v in S.m.items():
        if r.a[0] in ('local', 'temp', 'exc', 'strlit'):
            continue
        if r.a[0] in ('heap', 'heapobj', 'global'):
            continue
        i = cell(r, *path)
        if v is i:
            continue
        out.append((r, path, i, v))
    return out


def changecond(init, v):
    """when a cell no longer has its initial value"""
    import loops
    return loops.condof(v, lambda x: x is not init)


EFFECTS = ('send', 'free', 'exit', 'mapwrite', 'prf', 'extern')
