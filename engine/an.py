"""Analysis entry points shared by the checks."""
import os
import ir
import interp
import terms
import models
from terms import *

_P = None


def prog():
    global _P
    if _P is None:
        _P = ir.load()
    return _P


def plain(fid):
    """class::function without what is between angle brackets"""
    o, d = '', 0
    for ch in fid.split('(')[0].split('@')[0]:
        d += ch == '<'
        if not d:
            o += ch
        d -= ch == '>'
    return o


_called = None


def called():
    """functions of the library called from other functions of it"""
    global _called
    if _called is None:
        P, _called = prog(), set()
        for fid, f in P.functions.items():
            if not f.get('file', '').startswith(ir.REPO):
                continue
            st = [f.get('body'), f.get('inits')]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get('fid') and x['fid'] != fid:
                        _called.add(x['fid'])
                    st += x.values()
                elif isinstance(x, list):
                    st += x
        for fid, f in P.functions.items():
            if any(o in _called for o in f.get('over') or ()):
                _called.add(fid)
    return _called


_api = None


def entry(f):
    """whether a function is called by users, in whatever state; others are judged within those that call them"""
    global _api
    if f.get('impl') and 'body' not in f:
        return False        # declared by the compiler, never used
    if _api is None:
        with open(os.path.join(ir.VERIF, 'spec', 'api.txt')) as g:
            _api = set(g.read().split('\n'))
    if f.get('kind') in ('ctor', 'dtor') or not f.get('internal') and not f.get('access') and plain(f['fn']) in _api or plain(f['fn']).split('::')[-1].startswith('operator'):
        return True
    return f['fid'] not in called()


def prf(it, e, this, vals, args):
    """the pseudo-random function as a value of its three arguments (C14)"""
    seed, index, bits = args
    v = app('PRF', seed, index, bits)
    for x in leaves_(v):
        mark_nonneg(x)
    it.ev('prf', e, seed=seed, index=index, bits=bits, this=this)
    return v


def leaves_(t):
    import loops
    return loops.leafset(t)


STD = {'ZZPRF::generate/3': prf}


def run(name, nparams=None, cls=None, opaque=None, pre=None, args=None, pred=None, this=None, fid=None, unroll=0, noeffect=('SimpleBenchmark',)):
    P = prog()
    if fid:
        f = P.functions[fid]
    else:
        fs = P.fn(name, nparams, pred)
        if len(fs) != 1:
            raise ir.Missing('%d functions match %s' % (len(fs), name))
        f = fs[0]
    it = interp.Interp(P, noeffect=noeffect)
    it.unroll = unroll
    it.opaque = dict(STD if opaque is None else opaque)
    return it.analyse(f, cls=cls, args=args, pre=pre, this=this)
