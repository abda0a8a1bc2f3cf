"""Who owns which memory, and when it is released."""
from chk import check
import ir
import an
import chk
import interp
import loops
import proto
import terms
from terms import *

THIS = proto.THISR
OUT = ('local', 'temp', 'exc', 'strlit')


def gates(t, c=TRUE):
    """(condition, leaf) of a decided value"""
    if c is FALSE:
        return
    if t.op == 'I':
        a = atom(t.a[0])
        yield from gates(t.a[1], AND(c, a))
        yield from gates(t.a[2], AND(c, NOT(a)))
    else:
        yield c, t


def root(p):
    """the allocation a pointer points into: a region, or the pointer's symbolic origin"""
    if p is NULL or p.op in ('n', 'null'):
        return None
    if p.op in ('ptr', 'optr'):
        r = p.a[0]
        if r.a[0] == 'deref':
            return r.a[1]
        return r
    if p.op in terms.PTROPS:
        b, _ = psplit(p)
        if b is not p:
            return root(b)
    return p


def isheap(r):
    return r.op == 'region' and r.a[0] == 'heap'


def name(fid):
    return fid.split('(')[0].replace('#ctor', 'constructor').replace('#dtor', 'destructor') + ('' if '#' not in fid else '(' + short(fid) + ')')


def short(fid):
    i = fid.index('(', fid.index('#'))
    return fid[i + 1:-1][:60]


class Fn:
    """one function with its allocations and releases"""

    def __init__(self, fid, s):
        self.fid, self.s = fid, s
        self.f = s.f
        self.allocs = [e for e in s.events if e.kind == 'alloc' and not getattr(e, 'managed', False)]
        # constructors of parts and temporaries are judged as functions of their own
        self.mine = [e for e in self.allocs if not e.inctor]
        self.frees = [e for e in s.events if e.kind == 'free']
        self.un = {root(e.ptr) for e in s.events if e.kind == 'unmanage'}

    def freed(self, r):
        """when the allocation r is released"""
        c = FALSE
        for e in self.frees:
            for g, l in gates(e.ptr):
                if root(l) is r:
                    c = OR(c, AND(e.pc, g))
        return c

    def finals(self):
        """cells that outlive the call, with their final values"""
        for (r, path), v in self.s.S.m.items():
            if r.a[0] in OUT:
                continue
            yield r, path, v


_fns = None


def functions(R):
    global _fns
    if _fns is None:
        P = an.prog()
        _fns, bad = {}, []
        for fid, f in sorted(P.functions.items()):
            if not f.get('file', '').startswith(ir.REPO) or f.get('impl') and not f.get('copy') and '::operator=(' not in fid:
                continue
            if 'murmur' in f['file'] or not an.entry(f):
                continue
            with R.group('summary of ' + fid[:80], 60):
                s = an.run(None, fid=fid, noeffect=() if f.get('cls') == 'SimpleBenchmark' else ('SimpleBenchmark',))
                _fns[fid] = Fn(fid, s)
    R.seen(*sorted({x.s.f['fn'] for x in _fns.values() if 'fn' in x.s.f}))
    R.need(len(_fns) > 100, 'only %d functions' % len(_fns))
    return _fns


def owned(F):
    """field -> release form, for the fields destructors release"""
    out = {}
    for x in F.values():
        if x.f.get('kind') != 'dtor':
            continue
        for e in x.frees:
            for g, l in gates(e.ptr):
                if l.op == 'cell' and l.a[0] is THIS and l.a[1]:
                    out[(x.f['cls'], l.a[1][-1])] = e.arr
    return out


def possible(c):
    """a consistent way for c to hold, or None"""
    if c is FALSE:
        return None
    w = chk.cube(PROVER.simp(c) if c.op == 'I' else c)
    return w and chk.cube(chk.found(c)) if w else w


def blurred(w):
    return any(chk.imprecise(a) or chk.unmodelled(a) for a, _ in w)


def tests(c):
    """what a condition depends on"""
    out, seen = {}, set()

    def go(c):
        if c.op == 'I' and c not in seen:
            seen.add(c)
            out[c.a[0]] = 1
            go(c.a[1])
            go(c.a[2])
    go(c)
    return sorted(out, key=lambda z: z.id)


def settle(c, live):
    """c, when the loops that the function's normal completion depends on run to their ends"""
    for a in tests(live):
        if a.op == 'le0' and any(k < 0 and len(m) == 1 and m[0].op == 'first' for m, k in terms._monos(a.a[0]).items()):
            c = bsubst(c, a, TRUE)
    return c


def bsubst(c, a, v):
    """c with atom a decided"""
    if c.op != 'I':
        return c
    if c.a[0] is a:
        return c.a[1] if v is TRUE else c.a[2]
    return node(c.a[0], bsubst(c.a[1], a, v), bsubst(c.a[2], a, v))


def either(c, known):
    """c, for some outcome of the loops that only it depends on"""
    own = {z for a in tests(known) for z in allsub(a).values() if z.op in chk.FOLDS}
    fs = [(a, {z for z in allsub(a).values() if z.op in chk.FOLDS}) for a in tests(c)]
    fs = [(a, f) for a, f in fs if f and not chk.imprecise(a, False)]
    for i, (a, f) in enumerate(fs):
        if not f & own and not any(f & g for j, (_, g) in enumerate(fs) if j != i):
            c = OR(bsubst(c, a, TRUE), bsubst(c, a, FALSE))
    return c


def never(R, x, nm, c, where, detail):
    return R.never(nm, settle(c, x.s.S.pc), where, detail)


def samearr(R, F):
    """releases in the form of the allocation"""
    own = owned(F)
    forms = {}
    for x in F.values():
        where = x.fid
        for r, path, v in x.finals():
            if path and path[-1] in {k[1] for k in own}:
                for g, l in gates(v):
                    q = root(l)
                    if q is not None and isheap(q):
                        for a in x.allocs:
                            if a.region is q:
                                forms.setdefault(path[-1], set()).add((a.arr, str(a.loc)))
        for e in x.frees:
            for g, l in gates(e.ptr):
                q = root(l)
                if q is None or not isheap(q):
                    continue
                for a in x.allocs:
                    if a.region is q and a.arr != e.arr:
                        never(R, x, 'memory from %s is released in its form' % ('new[]' if a.arr else 'new'), AND(e.pc, g), e.loc, 'allocated at %s' % a.loc)
                R.count('releases of own allocations')
    R.count('owned fields', len(own))
    n = 0
    for x in F.values():
        for e in x.frees:
            for g, l in gates(e.ptr):
                if l.op == 'cell' and l.a[1] and l.a[1][-1] in forms:
                    n += 1
                    for arr, loc in sorted(forms[l.a[1][-1]]):
                        if arr != e.arr:
                            never(R, x, 'member %s is released in the form it is allocated in' % l.a[1][-1], AND(e.pc, g), e.loc, 'allocated at %s' % loc)
    R.ob('members are released in the form they are allocated in', True, '%d releases' % n)
    R.need(n >= 10, 'only %d releases of members' % n)


def once(R, F):
    n = 0
    for x in F.values():
        by = {}
        for e in x.frees:
            for g, l in gates(e.ptr):
                q = root(l)
                if q is None:
                    continue
                c = AND(e.pc, g)
                if q.op != 'region':
                    c = AND(c, NOT(isnull(q)))
                for e2, c2 in by.get(q, ()):
                    if e2 is not e:
                        n += 1
                        never(R, x, '%s: memory is released once' % name(x.fid), AND(c, c2), e.loc, 'also released at %s' % e2.loc)
                by.setdefault(q, []).append((e, c))
                if e.ctx:
                    ks = {k for k, _ in e.ctx}
                    if not any(k in support(q) or k in support(c) for k in ks) and not (isheap(q) and q.a[3:]):
                        R.ob('%s: memory is released once' % name(x.fid), None, e.loc, 'released in a loop')
        # used afterwards?
        pos = {id(e): i for i, e in enumerate(x.s.events)}
        for q, l in by.items():
            for e, c in l:
                for u in x.s.events[pos[id(e)] + 1:]:
                    p = use(u)
                    if p is None:
                        continue
                    for g, z in gates(p):
                        if root(z) is q:
                            n += 1
                            never(R, x, '%s: memory is not used after its release' % name(x.fid), AND(c, AND(u.pc, g)), u.loc, 'released at %s' % e.loc)
    R.ob('no memory is released twice or used after its release', True, '%d pairs of places' % n)


def use(u):
    if u.kind in ('deref', 'use', 'bytes', 'cstr', 'index'):
        return u.ptr
    if u.kind == 'assign':
        a = u.addr
        return a if a.op in ('ptr', 'optr') and isheap(a.a[0]) else None
    return None


def gone(x, r):
    """is the cell's own memory released (at some point)?"""
    if isheap(r):
        return x.freed(r) is not FALSE
    if r.a[0] == 'deref':
        q = root(r.a[1])
        return q is not None and x.freed(q) is not FALSE
    return False


def dangling(R, F):
    n = 0
    for x in F.values():
        s = x.s
        live = s.S.pc
        if live is FALSE:
            continue
        dtor = x.f.get('kind') == 'dtor'
        for r, path, v in x.finals():
            if gone(x, r):
                continue
            if dtor and r is THIS:
                continue
            for g, l in gates(v):
                for z in [l] if l.op in ('ptr', 'optr', 'cell') else ():
                    q = root(z)
                    if q is None:
                        continue
                    c = AND(live, g)
                    if q.op == 'region' and q.a[0] in ('local', 'temp'):
                        n += 1
                        never(R, x, '%s: no address of a local object is kept' % name(x.fid), c, s.f['file'], 'kept in %s' % cellname(r, path))
                    elif q.op == 'cell' and z.op == 'cell' and z is not proto.cell(r, *path):
                        # a copy of another pointer
                        fc = x.freed(q)
                        if fc is not FALSE:
                            n += 1
                            never(R, x, '%s: no address of released memory is kept' % name(x.fid), AND(AND(c, fc), NOT(isnull(q))), s.f['file'], 'kept in %s' % cellname(r, path))
                    elif isheap(q):
                        fc = x.freed(q)
                        if fc is not FALSE:
                            n += 1
                            never(R, x, '%s: no address of released memory is kept' % name(x.fid), AND(c, fc), s.f['file'], 'kept in %s' % cellname(r, path))
        # what was released and not replaced
        for e in x.frees:
            for g, l in gates(e.ptr):
                if l.op != 'cell' or dtor and l.a[0] is THIS:
                    continue
                if taken(x, l):
                    R.count('payloads taken over by the receiver')
                    continue
                v = s.S.m.get((l.a[0], l.a[1]), l)
                keep = loops.condof(v, lambda z: z is l) if v is not l else TRUE
                c = AND(AND(AND(live, AND(e.pc, g)), keep), NOT(isnull(l)))
                n += 1
                never(R, x, '%s: the address of released memory is forgotten' % name(x.fid), c, e.loc, 'kept in %s' % cellname(*l.a))
    R.ob('no address of memory that is gone is kept', True, '%d pointers' % n)
    R.need(n >= 30, 'only %d pointers' % n)


def taken(x, l):
    """does the object take over what l points to: is its address assigned to one of its members?"""
    return l.a[0] is not THIS and any(e.kind == 'assign' and e.addr.op == 'optr' and e.addr.a[0] is THIS and any(z is l for _, z in gates(e.val))
                                      for e in x.s.events)


def cellname(r, path):
    return '.'.join([str(r)] + [str(p) for p in path])


def leaks(R, F):
    own = owned(F)
    ownf = {k[1] for k in own}
    n = 0
    for x in F.values():
        s = x.s
        live = s.S.pc
        if live is FALSE:
            continue
        for a in x.mine:
            if a.region in x.un:
                continue
            n += 1
            gone = x.freed(a.region)
            c = AND(live, AND(a.pc, NOT(gone)))
            if c is FALSE:
                R.ob('%s: scratch memory is released' % name(x.fid), True, a.loc)
                continue
            reach = reachable(x, a.region, ownf)
            never(R, x, '%s: memory is released or stays reachable' % name(x.fid), either(settle(AND(c, NOT(reach)), live), a.pc), a.loc, 'allocated here')
    R.need(n >= 30, 'only %d allocations' % n)


def reachable(x, region, ownf):
    """when the region's address is in a cell that outlives the call, in a member of an object that releases it, handed out or returned"""
    c = FALSE

    def has(v):
        h = FALSE
        for g, l in gates(v):
            if any(z.op in ('ptr', 'optr') and z.a[0] is region for z in allsub(l).values()):
                h = OR(h, g)
        return h
    for (r, path), v in x.s.S.m.items():
        if r is region:
            continue
        if r.a[0] in OUT and not (path and path[-1] in ownf):
            continue
        if isheap(r) and not (path and path[-1] in ownf) and x.freed(r) is not FALSE:
            continue
        c = OR(c, has(v))
    c = OR(c, has(x.s.rv))
    for e in x.s.events:
        if e.kind in ('send', 'vcall', 'call', 'extern', 'push', 'given'):
            for v in vals(e):
                c = OR(c, AND(e.pc, has(v)))
    return c


def vals(e):
    if e.kind == 'send':
        return [v for v in (e.msg if isinstance(e.msg, (list, tuple)) else e.msg.values() if isinstance(e.msg, dict) else [e.msg]) if isinstance(v, T)]
    if e.kind == 'push':
        return [e.val]
    return [v for v in e.args if isinstance(v, T)]


def members(R, F):
    own = owned(F)
    P = an.prog()
    n = 0
    for (cls, fld), arr in sorted(own.items()):
        for x in F.values():
            if x.f.get('cls') != cls:
                continue
            s = x.s
            kind = x.f.get('kind')
            init = proto.cell(THIS, fld)
            v = s.S.m.get((THIS, (fld,)), init)
            where = x.fid
            if kind == 'dtor':
                n += 1
                R.never('%s: releases %s' % (name(x.fid), fld), AND(AND(s.S.pc, NOT(isnull(init))), NOT(x.freed(init))), where)
                continue
            if kind == 'ctor':
                n += 1
                for g, l in gates(v):
                    q = root(l)
                    if q is None:
                        continue
                    if isheap(q):
                        continue
                    if l.op in ('uninit',) or l is init or l.op == 'cell':
                        R.never('%s: %s starts with memory of its own, or none' % (name(x.fid), fld), AND(s.S.pc, g), where, 'starts as %s' % chk.short(l, 80))
                    else:
                        R.ob('%s: %s starts with memory of its own, or none' % (name(x.fid), fld), None, where, chk.short(l, 80))
                R.ob('%s: %s starts with memory of its own, or none' % (name(x.fid), fld), True, where)
                continue
            if v is init:
                continue
            n += 1
            for g, l in gates(v):
                q = root(l)
                if q is None or l is init or isheap(q):
                    continue
                R.never('%s: %s gets memory of its own, or none' % (name(x.fid), fld), AND(s.S.pc, g), where, 'becomes %s' % chk.short(l, 80))
            lost = AND(loops.condof(v, lambda z: z is not init), AND(s.S.pc, NOT(isnull(init))))
            lost = AND(lost, NOT(x.freed(init)))
            if handed(F, cls, fld):
                R.count('replaced members whose memory was given away')
                continue
            R.never('%s: the memory of %s is released when it is replaced' % (name(x.fid), fld), lost, where)
    R.need(n >= 20, 'only %d uses of owned members' % n)


def handed(F, cls, fld):
    """is the member's address given away, in a message or as a result?"""
    c = proto.cell(THIS, fld)
    for x in F.values():
        if x.f.get('cls') != cls:
            continue
        if any(l is c for _, l in gates(x.s.rv)):
            return True
        for e in x.s.events:
            if e.kind == 'send' and any(z is c for v in vals(e) for z in allsub(v).values()):
                return True
    return False


def payloads(R, F):
    """the receiver of a message releases its payload in the form the sender allocated it in"""
    sent = {}
    for x in F.values():
        for e in x.s.events:
            if e.kind != 'send' or e.msg.op != 'objval':
                continue
            d = dict(e.msg.a[1])
            tf, df = proto.field('EOPSIMessage', 'type', getter='EOPSIMessage::getType'), proto.field('EOPSIMessage', 'data', getter='EOPSIMessage::getData')
            for g, l in gates(d[df]):
                q = root(l)
                for k, kl in gates(d[tf]):
                    if q is None or AND(AND(e.pc, g), k) is FALSE:
                        continue
                    if not isheap(q):
                        if q.op == 'region':
                            R.never('%s: the payload of a message is heap memory' % name(x.fid), AND(AND(e.pc, g), k), e.loc, 'payload %s' % chk.short(q, 80))
                        continue
                    for a in x.allocs:
                        if a.region is q:
                            sent.setdefault(kl, set()).add((a.arr, a.et, str(a.loc)))
                            # the receiver owns it from now on
                            for z in x.frees:
                                for g2, l2 in gates(z.ptr):
                                    if root(l2) is q:
                                        R.never('%s: the sender does not release the payload of a message' % name(x.fid), accepted(AND(AND(e.pc, g), AND(z.pc, g2))), z.loc, 'sent at %s' % e.loc)
    R.need(len(sent) >= 3, 'payloads of only %d kinds of messages' % len(sent))
    n = m = 0
    for x in F.values():
        if not x.fid.split('(')[0].endswith('::receive'):
            continue
        M = proto.Msg()
        kept = {}
        for e in x.s.events:
            if e.kind == 'assign' and e.addr.op == 'optr' and e.addr.a[0] is THIS and any(z is M.data for _, z in gates(e.val)):
                kept.setdefault(proto.cell(THIS, *e.addr.a[1]), []).append(e.pc)
        for e in x.frees:
            for g, l in gates(e.ptr):
                c = AND(e.pc, g)
                for k, forms in sorted(sent.items(), key=lambda z: str(z[0])):
                    if l is M.data:
                        w = AND(c, eq(M.type, k))
                    elif l in kept:
                        # kept by an earlier call
                        w = FALSE
                        for p in kept[l]:
                            w = OR(w, AND(p, eq(M.type, k)))
                    else:
                        continue
                    n += 1
                    for arr, et, loc in sorted(forms):
                        nm = '%s: a payload is released in the form its sender allocated it in: message kind %s' % (name(x.fid), k)
                        if arr != e.arr or arr and et != e.dt:
                            R.never(nm, w, e.loc, 'allocated at %s as %s%s' % (loc, et, '[]' if arr else ''))
                        else:
                            R.ob(nm, True, e.loc)
        # every payload that a party of the library sends is released or taken over
        for k in sorted(sent, key=str):
            c = AND(AND(x.s.S.pc, eq(M.type, k)), AND(NOT(isnull(M.data)), NOT(x.freed(M.data))))
            for l in kept.values():
                for p in l:
                    c = AND(c, NOT(p))
            m += 1
            never(R, x, '%s: the payload of a message is released or taken over: message kind %s' % (name(x.fid), k), c, x.fid, 'on a normal path')
    R.need(n >= 3, 'only %d releases of payloads' % n)
    R.count('payloads released or taken over', m)


def accepted(c):
    """c, when no message is refused"""
    for a in tests(c):
        if a.op == 'refuses':
            c = AND(c, NOT(atom(a)))
    return c


def numbers(R, F):
    """the numbers that a class initialises in the C library are the ones it clears"""
    n = 0
    for x in F.values():
        if x.f.get('kind') != 'ctor':
            continue
        ini = [e for e in x.s.events if e.kind == 'mpzinit' and not e.inctor]
        if not ini:
            continue
        d = [y for y in F.values() if y.f.get('kind') == 'dtor' and y.f['cls'] == x.f['cls']]
        R.need(len(d) == 1, 'no destructor of ' + x.f['cls'])
        final = {}
        for (r, path), v in x.s.S.m.items():
            if r is THIS:
                final[proto.cell(THIS, *path)] = v
        K = sym('K')
        mark_nonneg(K)

        def sets(evs, m):
            out = {}
            for e in evs:
                p = subst(e.ptr, m)
                if p.op not in ('ptr', 'optr'):
                    return None
                base, idx, c = p.a[0], p.a[1] + p.a[2], e.pc
                if base.a[0] == 'deref' and base.a[1].op in ('optr', 'ptr'):
                    base = base.a[1].a[0]
                if base is not THIS:
                    if len(idx) != 1 or len(idx[0]) != 2 or [k for k, _ in e.ctx] != [idx[0][1]]:
                        return None
                    c = subst(c, {idx[0][1]: K})
                    idx = ()
                elif e.ctx:
                    return None
                out[(base, idx)] = OR(out.get((base, idx), FALSE), subst(c, m))
            return out
        a = sets(ini, {})
        b = sets([e for e in d[0].s.events if e.kind == 'mpzclear'], final)
        if a is None or b is None:
            R.ob('%s: what is initialised is cleared' % x.f['cls'], None, x.fid, 'places are not simple elements')
            continue
        for k in sorted(set(a) | set(b), key=str):
            n += 1
            R.equiv('%s: what is initialised is cleared: %s' % (x.f['cls'], chk.short(k[0], 40) + ''.join('.' + str(z) for z in k[1])), a.get(k, FALSE), b.get(k, FALSE), x.fid)
    R.need(n >= 3, 'only %d numbers of the C library' % n)


@check('C19', 'Value-flow summary of every function of the library: every allocation and release with its condition; pairs of releases and later uses of the same allocation; pointers in cells that outlive each call; members that destructors release, in every constructor and method.')
def c19(R):
    F = functions(R)
    R.count('functions', len(F))
    R.count('allocations', sum(len(x.allocs) for x in F.values()))
    R.count('releases', sum(len(x.frees) for x in F.values()))
    with R.group('forms'):
        samearr(R, F)
    with R.group('releases'):
        once(R, F)
    with R.group('addresses kept'):
        dangling(R, F)
    with R.group('scratch memory'):
        leaks(R, F)
    with R.group('payloads'):
        payloads(R, F)
    with R.group('numbers'):
        numbers(R, F)
    with R.group('members'):
        members(R, F)
