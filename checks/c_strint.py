"""Big natural numbers."""
from chk import check
import an
import proto
from c_hash import f, cellof, final, ctor, isbytes, strint, littleendian
from terms import *

THIS = proto.THISR


def run(R, name, n, **kw):
    s = an.run('StrInt::' + name, n, **kw)
    R.seen(*sorted(s.it.fnseen))
    return s


def unchanged(R, s, what, zf, keep=('z', 'length', 'pow2')):
    for x in keep:
        p = (f('StrInt', x),)
        R.same('%s leaves %s alone' % (what, x), final(s, THIS, p), cellof(THIS, *p), 'StrInt::' + what)
    R.same('%s leaves the byte weights alone' % what, final(s, proto.derefr(cellof(THIS, f('StrInt', 'pow2')))), cellof(proto.derefr(cellof(THIS, f('StrInt', 'pow2')))), 'StrInt::' + what)


@check('C23', 'Value-flow summaries of every operation of StrInt over an arbitrary number: the number afterwards, the value returned, the bytes written and the size of the buffer, each compared with its definition over the natural numbers; the byte weights the operations rely on are established by the constructor and written nowhere else.')
def c23(R):
    zf = f('StrInt', 'z')
    Z = cellof(THIS, zf)
    V = rd(Z, ZERO)
    mark_nonneg(V)
    a = sym('arg0')
    mark_nonneg(a)
    pw = proto.derefr(cellof(THIS, f('StrInt', 'pow2')))
    bits = f('StrInt', 'b')

    def weights(it, this, vals):
        # established by the constructor, kept by every operation (below)
        it.S.m[(pw, ())] = lamfun(lambda i: raw('st', raw('uninit'), ZERO, shl(num(1), mul(num(8), i))))

    with R.group('operations'):
        s = run(R, 'set', 1)
        R.same('set gives the number', rd(final(s, THIS, (zf,)), ZERO), a, 'StrInt::set')
        unchanged(R, s, 'set', zf, ('length', 'pow2'))
        s = run(R, 'inc', 0, pre=weights)
        R.same('inc adds one', rd(final(s, THIS, (zf,)), ZERO), add(V, ONE), 'StrInt::inc')
        s = run(R, 'inc', 0)
        unchanged(R, s, 'inc', zf, ('length', 'pow2'))
        s = run(R, 'add', 1, pre=weights)
        R.same('add adds its argument', rd(final(s, THIS, (zf,)), ZERO), add(V, a), 'StrInt::add')
        s = run(R, 'add', 1)
        unchanged(R, s, 'add', zf, ('length', 'pow2'))
        s = run(R, 'set', 2, pred=isbytes)
        unchanged(R, s, 'set', zf, ('length', 'pow2'))
        s = run(R, 'rem', 1)
        R.same('rem is the remainder', s.rv, fmod(V, a), 'StrInt::rem')
        unchanged(R, s, 'rem', zf)
        s = run(R, 'lsb', 0)
        R.same('lsb is the low word', s.rv, app('low64', V), 'StrInt::lsb')
        unchanged(R, s, 'lsb', zf)
        s = run(R, 'toString', 0)
        R.same('toString is the decimal text', s.rv, app('tostr', V), 'StrInt::toString')
        unchanged(R, s, 'toString', zf)
        s = run(R, 'getByteSize', 0)
        LEN = ite(eq(V, ZERO), ONE, fdiv(add(num(7), app('NumBits', V)), num(8)))
        R.same('getByteSize is the number of bytes', s.rv, LEN, 'StrInt::getByteSize')
        unchanged(R, s, 'getByteSize', zf)
    with R.group('bytes'):
        s = run(R, 'toBytes', 2)
        w = 'StrInt::toBytes'
        ln = sym('arg1')
        cap = rd(cellof(proto.derefr(ln)), ZERO)
        mark_nonneg(cap)
        own = AND(NOT(isnull(a)), AND(NOT(isnull(ln)), NOT(lt(cap, LEN))))
        R.never('toBytes never gives up', s.exitpc(), w)
        R.same('a buffer that is large enough is used', s.rv, a, w, own)
        al = [e for e in s.events if e.kind == 'alloc']
        R.need(al, 'toBytes allocates nothing')
        for e in al:
            R.implies('memory is allocated only when the buffer cannot be used', e.pc, NOT(own), e.loc)
            R.same('memory is allocated for all bytes', e.n, LEN, e.loc, e.pc)
        i = fresh('i', True)
        for e in s.events:
            if e.kind == 'bytes' and e.mode == 'w':
                R.same('as many bytes are written as there are', e.n, ite(eq(V, ZERO), ZERO, LEN), e.loc, e.pc)
        inside = AND(NOT(lt(i, ZERO)), lt(i, LEN))
        want = app('byteof', V, sub(sub(LEN, ONE), i))
        for nz, c in (('zero', eq(V, ZERO)), ('a positive number', NOT(eq(V, ZERO)))):
            exp = ZERO if nz == 'zero' else want
            R.same('the bytes of %s, highest first, in the buffer given' % nz, rd(final(s, proto.derefr(a)), i), exp, w, AND(AND(own, inside), c))
            for e in al:
                R.same('the bytes of %s, highest first, in new memory' % nz, rd(final(s, e.region), i), exp, w, AND(AND(AND(NOT(own), e.pc), inside), c))
                R.implies('new memory is returned', TRUE, root(s, e, c, own), w)
        R.same('the length is told', rd(final(s, proto.derefr(ln)), ZERO), LEN, w, NOT(isnull(ln)))
        R.same('nothing is written beyond the number', rd(final(s, proto.derefr(a)), i), rd(cellof(proto.derefr(a)), i), w, AND(own, NOT(lt(i, LEN))))
        unchanged(R, s, 'toBytes', zf)
    with R.group('construction'):
        fid = ctor('StrInt', 3)
        sizes = [1, 2, 3, 8] if R.tier == 'quick' else list(range(1, 41))
        src = cellof(proto.derefr(sym('arg1')))
        for cap in sizes:
            for n in (cap, cap + 2, max(1, cap - 1)):
                s = an.run(None, fid=fid, args=[num(cap), None, num(n)], unroll=80)
                got = rd(final(s, THIS, (zf,)), ZERO)
                R.same('constructed from %d bytes (capacity %d): their little endian value' % (n, cap), got, littleendian(lambda i: rd(src, num(i)), min(n, cap)), fid, NOT(isnull(sym('arg1'))))
                R.same('constructed from no bytes: zero', got, ZERO, fid, isnull(sym('arg1')))


def root(s, e, c, own):
    """is the result the new memory whenever the buffer cannot be used?"""
    q = FALSE
    from c_memory import gates
    for g, l in gates(s.rv):
        if l.op in ('ptr', 'optr') and l.a[0] is e.region:
            q = OR(q, g)
    return OR(q, OR(own, NOT(c))) if TRUE is not q else TRUE
