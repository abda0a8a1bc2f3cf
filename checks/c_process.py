"""No call leaves anything changed but the objects it was given."""
from chk import check
import ir
import an
import interp
import models
from c_memory import name
from terms import *


def analyse(f):
    it = interp.Interp(an.prog(), noeffect=() if f.get('cls') == 'SimpleBenchmark' else ('SimpleBenchmark',))
    it.opaque = {k: v for k, v in an.STD.items() if f['fn'] + '/%d' % len(f['params']) != k}
    return it.analyse(f)


def shared(r, p):
    """whether a cell is nobody's object: a variable of the process, or the way a stream writes numbers"""
    if p and isinstance(p[-1], str) and p[-1].startswith('#:'):
        return p[-1] != models.PENDING and r.a[0] not in ('local', 'temp', 'exc', 'heap')
    return r.a[0] == 'global'


def label(s, r, p):
    if r.a[1] == 'process':
        return 'the %s of the process' % p[-1][2:]
    if p and isinstance(p[-1], str) and p[-1].startswith('#:'):
        return 'the %s of stream %s' % (p[-1][2:], show(r))
    if r in s.it.statics:
        return 'static variable ' + s.it.statics[r][0]
    return 'variable ' + str(r.a[1])


@check('C25', 'Effect summary of every entry function: at each way out, every variable of the process, static variable, shared library setting and stream format has the value it had at the call.')
def c25(R):
    P = an.prog()
    n = 0
    for fid, f in sorted(P.functions.items()):
        if not f.get('file', '').startswith(ir.REPO) or f.get('impl') and not f.get('copy') and '::operator=(' not in fid or not an.entry(f):
            continue
        with R.group('summary of ' + fid[:80], 60):
            s = analyse(f)
            n += 1
            R.seen(*sorted(s.it.fnseen))
            bad = False
            for what, S in [('return', s.S)] + [('an exception', x) for x, _ in s.throws]:
                if S.pc is FALSE:
                    continue
                for (r, p), v in S.m.items():
                    if not shared(r, p):
                        continue
                    c = raw('cell', r, p)
                    first = s.it.statics.get(r, (0, {}))[1].get(p, c)
                    v = subst(v, {c: first}) if first is not c else v
                    R.count('shared cells seen at the way out of a function')
                    if v is first:
                        continue
                    bad = True
                    where = next((e.loc for e in s.events if e.kind == 'process' and r.a[1] == 'process' and e.what == p[-1][2:]), f.get('loc') or fid)
                    R.same('%s: %s is as before at %s' % (name(fid), label(s, r, p), what), v, first, where, assume=S.pc)
            if not bad:
                R.ob('%s: nothing shared is changed' % name(fid), True, fid)
    R.need(n > 100, 'only %d functions' % n)
