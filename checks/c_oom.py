"""What happens when memory cannot be allocated."""
from chk import check
import an
import interp
from c_memory import functions, name, settle, tests, bsubst
from terms import *

CODE = num(2)


def analyse(x, oom):
    P = an.prog()
    it = interp.Interp(P, noeffect=() if x.f.get('cls') == 'SimpleBenchmark' else ('SimpleBenchmark',))
    it.opaque = {k: v for k, v in an.STD.items() if x.f['fn'] + '/%d' % len(x.f['params']) != k}
    it.oom = oom
    return it.analyse(x.f)


def owns(x):
    return [e for e in x.allocs if e.fn == x.f['fn'] and not e.nothrow and not e.inctor]


def failing(R, F, x, src, depth=0, seen=()):
    """obligations about the allocations of src, seen from x"""
    s = analyse(x, {src.fid})
    R.seen(*sorted(s.it.fnseen))
    ms = [e for e in s.events if e.kind == 'mayfail']
    if not ms and x is src:
        R.ob('%s: allocations can fail' % name(src.fid), None, src.fid, 'no allocation reached')
        return
    bad = s.throwpc('std::bad_alloc')
    for m in ms:
        w = AND(m.pc, m.cond)
        if x is src:
            R.count('allocations')
        R.never('%s: a failed allocation does not go on' % name(src.fid), settle(AND(w, s.S.pc), s.S.pc), m.loc, 'seen from %s' % name(x.fid))
        for st, code in s.exits:
            for g, l in gates(code):
                if l is not CODE:
                    R.never('%s: a failed allocation ends with status 2' % name(src.fid), AND(AND(w, st.pc), g), m.loc, 'ends with %s' % l)
        for st, exc in s.throws:
            if exc.a[0] != 'std::bad_alloc':
                R.never('%s: a failed allocation ends with status 2' % name(src.fid), AND(w, st.pc), m.loc, 'throws %s' % exc.a[0])
        esc = AND(w, bad)
        if esc is FALSE:
            R.ob('%s: a failed allocation is not passed on' % name(src.fid), True, m.loc)
            continue
        up = [y for y in F.values() if src.f['fn'] in y.s.it.fnseen and y is not x and y.fid not in seen and calls(y, x)]
        if not up or depth >= 3 or x.f.get('access') == 0 and not x.f.get('internal'):
            R.never('%s: a failed allocation is not passed on' % name(src.fid), esc, m.loc, 'leaves %s' % name(x.fid))
            continue
        for y in up:
            failing(R, F, y, src, depth + 1, seen + (x.fid,))
        return


def calls(y, x):
    return x.f['fn'] in y.s.it.fnseen


def gates(t):
    from c_memory import gates as g
    return g(t)


@check('C22', 'Every allocation of the library made to fail in the value-flow summary of its function (and, where the exception leaves a non-public function, of its callers): what the failing path does, through the handlers, up to the end of the program.')
def c22(R):
    F = functions(R)
    n = 0
    for x in F.values():
        if not owns(x):
            continue
        n += 1
        with R.group('allocations of ' + name(x.fid), 60):
            failing(R, F, x, x)
    R.count('functions that allocate', n)
    R.need(n >= 10, 'only %d functions allocate' % n)
