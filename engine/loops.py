"""Loops summarised by recurrences.

A loop body is abstracted once per refinement round on symbolic entry values
(one symbol per carried cell); the values it leaves in the carried cells give
recurrence equations, which are solved symbolically (invariants, inductions,
last values, pointwise array updates, appends, filters, counts, generic
folds).  The first iteration that does not go on is found from the affine
continuation test, or stays a `first(N, condition)` term.  No path is
enumerated; iterations are peeled only where an analysis asks for constant
propagation through loops whose test is a constant each time (`unroll`).
"""
from terms import *
import terms
import interp

INF = raw('inf')


class Out:
    """outcomes of one abstract iteration (conditions relative to its start)"""
    __slots__ = ('next', 'done', 'breaks', 'rets', 'throws', 'exits')


def peel(it, s, kind, cond, body, inc, limit):
    """iterations whose test is decided by constants, one after the other; True if the loop ended"""
    L = Loop(it, s, kind, cond, body, inc, None, None, it.S, ZERO)
    sb, sc = it.brk, it.cont
    it.brk, it.cont = [], []
    ended = False
    if kind == 'do':
        L.runbody()
    for n in range(limit):
        if it.S.pc is FALSE:
            ended = True
            break
        S = it.S
        it.S = S.fork(S.pc)
        it.mute += 1
        PROVER.push_cond(S.pc)
        try:
            c = it.simp(it.tobool(it.rv(cond))) if cond is not None else TRUE
        finally:
            PROVER.pop()
            it.mute -= 1
            it.S = S
        if c not in (TRUE, FALSE):
            break
        if cond is not None:
            it.rv(cond)
        if c is FALSE:
            ended = True
            break
        L.runbody()
    brks = it.brk
    it.brk, it.cont = sb, sc
    return ended, brks


def run(it, s, kind, cond, body, inc, cv=None, native=None):
    if it.unroll and native is None and cv is None:
        ended, brks = peel(it, s, kind, cond, body, inc, it.unroll)
        if not ended:
            run1(it, s, 'while', cond, body, inc, cv, native)
        if brks:
            st_, _ = it.mergemany(brks + [it.S])
            it.S = st_ if st_ is not None else interp.St(FALSE, it.S.m)
        return
    run1(it, s, kind, cond, body, inc, cv, native)


def run1(it, s, kind, cond, body, inc, cv=None, native=None):
    S0 = it.S
    pc0 = S0.pc
    k = raw('sym', 'k%d.%d' % (it.uid(s), it.F.uid.id))
    NONNEG_T.add(k.id)
    L = Loop(it, s, kind, cond, body, inc, cv, native, S0, k)
    it.pcs.append(pc0)
    PROVER.push_cond(pc0)
    try:
        L.go()
    finally:
        PROVER.pop()
        it.pcs.pop()


class Loop:
    def __init__(self, it, s, kind, cond, body, inc, cv, native, S0, k):
        self.it = it
        self.s = s
        self.kind = kind
        self.cond = cond
        self.body = body
        self.inc = inc
        self.cv = cv
        self.native = native
        self.S0 = S0
        self.k = k
        self.plain = set()
        self.forms = {}       # key -> function of the iteration count
        self.phis = {}
        self.ibase = {}
        self.N = None
        self.rot = set()

    # -------------------------------------------------------- one iteration
    def iterate(self, m, facts=(), final=False):
        it = self.it
        o = Out()
        o.breaks, o.done = [], None
        saved = (it.S, it.brk, it.cont, it.F.rets, it.exits)
        it.S = interp.St(TRUE, dict(m))
        it.brk, it.cont, it.F.rets, it.exits = [], [], [], []
        it.throws.append([])
        it.loops.append((self.k, self.N))
        if not final:
            it.mute += 1
        PROVER.push([neg(self.k)] + list(facts))
        npush = 1
        try:
            k = self.k
            if self.native is not None:
                n, bind = self.native
                c = lt(k, n)
                done = it.S.fork(NOT(c))
                it.S = it.S.fork(c)
                o.done = done if done.pc is not FALSE else None
                PROVER.push_cond(c)
                npush += 1
                bind(k)
                self.runbody()
            elif self.kind == 'while':
                if self.cv:
                    it.stmt(self.cv)
                c = it.simp(it.tobool(it.rv(self.cond))) if self.cond is not None else TRUE
                S = it.S
                if S.pc is not FALSE:
                    done = S.fork(AND(S.pc, NOT(c)))
                    o.done = done if done.pc is not FALSE else None
                    if final:
                        c = self.below(c)
                    it.S = S.fork(AND(S.pc, c))
                    PROVER.push_cond(c)
                    npush += 1
                    self.runbody()
            else:
                self.runbody()
                if it.S.pc is not FALSE:
                    c = it.simp(it.tobool(it.rv(self.cond)))
                    S = it.S
                    done = S.fork(AND(S.pc, NOT(c)))
                    o.done = done if done.pc is not FALSE else None
                    it.S = S.fork(AND(S.pc, c))
            o.next = it.S if it.S.pc is not FALSE else None
            o.breaks = [x for x in it.brk if x.pc is not FALSE]
            o.rets = [x for x in it.F.rets if x[0].pc is not FALSE]
            o.throws = [x for x in it.throws[-1] if x[0].pc is not FALSE]
            o.exits = [x for x in it.exits if x[0].pc is not FALSE]
        finally:
            for _ in range(npush):
                PROVER.pop()
            if not final:
                it.mute -= 1
            it.loops.pop()
            it.throws.pop()
            it.S, it.brk, it.cont, it.F.rets, it.exits = saved
        return o

    def below(self, c):
        """the test of an iteration that is made, where it only asks whether the end is met"""
        k, K = self.k, self.K
        if K is INF or K.op == 'I' or c.op != 'I' or c.a[0].op != 'eq0' or any(x.op == 'first' for x in allsub(K).values()):
            return c
        l = lt(k, K)
        if l is TRUE or l is FALSE:
            return c
        PROVER.push_cond(l)
        try:
            r = PROVER.simp(c)
        finally:
            PROVER.pop()
        return AND(l, r)

    def runbody(self):
        it = self.it
        if it.S.pc is FALSE:
            return
        it.stmt(self.body)
        if it.cont:
            st_, _ = it.mergemany(it.cont + [it.S])
            it.S = st_ if st_ is not None else interp.St(FALSE, it.S.m)
            it.cont = []
        if self.inc is not None and it.S.pc is not FALSE:
            e = self.inc
            if e.get('lv'):
                it.lv(e)
            else:
                it.rv(e)

    def states(self, o):
        out = []
        if o.next is not None:
            out.append(o.next)
        if o.done is not None:
            out.append(o.done)
        out += o.breaks
        out += [x[0] for x in o.rets] + [x[0] for x in o.throws] + [x[0] for x in o.exits]
        return out

    # -------------------------------------------------------- carried cells
    def init(self, key):
        v = self.S0.m.get(key)
        if v is None:
            v = self.it.initial(key[0], key[1], self.it.ctype.get(key))
        return v

    def carried(self, key):
        if key in self.S0.m:
            return True
        kd = key[0].a[0]
        if kd in ('local', 'temp', 'exc', 'strlit'):
            return False
        # a cell reached through a carried pointer is no cell of its own
        sup = support(key[0])
        for P in self.phis.values():
            if support(P) & sup - self.basesup:
                return False
        return True

    def phi(self, key):
        P = self.phis.get(key)
        if P is not None:
            return P
        it = self.it
        init = self.init(key)
        t = it.ctype.get(key)
        name = 'phi%d.%d.%d.%s%s' % (it.uid(self.s), it.F.uid.id, key[0].id, '.'.join(map(str, key[1])), "'" if key in self.plain else '')
        p = raw('sym', name)
        d = it.T.get(t, {}) if t else {}
        if d.get('k') in ('int', 'enum') and not d.get('s') or (key[1] and key[1][-1] == '#n'):
            NONNEG_T.add(p.id)
        P = p
        if key not in self.plain:
            b, o = psplit(init)
            if b.op in ('ptr', 'psym') or (b.op == 'optr' and o is not ZERO):
                P = padd(b, p)
            elif init.op == 'mit':
                P = raw('mit', init.a[0], p, init.a[2])
                NONNEG_T.add(p.id)
            elif init.op in ('mend', 'mfind'):
                P = p
            elif d.get('k') == 'bool' or interp.isbool(init):
                P = atom(p)
            elif init.op == 'I' and d.get('k') == 'ptr' and all(psplit(x)[0].op in ('ptr', 'psym', 'sym', 'cell', 'mget') or x.op == 'optr' for x in leafset(init)):
                # one of several objects, the same one all the way
                B = lift('pbase', lambda z: psplit(z)[0], init)
                self.ibase[key] = B
                P = padd(B, p)
            elif d.get('k') == 'ptr' and b.op in ('sym', 'cell', 'mget'):
                P = padd(b, p)
        self.phis[key] = P
        self.psym = getattr(self, 'psym', {})
        self.psym[key] = p
        return P

    # component of a value to be compared with the symbol of the cell
    def comp(self, key, v):
        P = self.phis[key]
        p = self.psym[key]
        if P is p:
            return v
        init = self.init(key)
        if P.op == 'mit':
            def one(z):
                if z.op == 'mit' and z.a[0] is P.a[0]:
                    return z.a[1]
                return raw('bad')
            r = lift('mitpos%d' % P.id, one, v)
        elif key in self.ibase:
            def two(b, z):
                zb, zo = psplit(z)
                return zo if zb is b else raw('bad')
            r = PROVER.simp(lift('poff2', two, self.ibase[key], v))
        elif P.op == 'I':
            return v if interp.isbool(v) or v.op == 'I' else None
        else:
            b = psplit(init)[0]

            def one(z):
                zb, zo = psplit(z)
                if zb is b:
                    return zo
                return raw('bad')
            r = lift('poff%d' % b.id, one, v)
        if any(x.op == 'bad' for x in leafset(r)):
            return None
        return r

    def wrapc(self, key, c):
        """value of the cell from its solved component"""
        P = self.phis[key]
        p = self.psym[key]
        if P is p:
            return c
        return subst(P, {p: c})

    def initc(self, key):
        return self.comp(key, self.init(key))

    # -------------------------------------------------------- main
    def go(self):
        it = self.it
        k = self.k
        self.basesup = frozenset((k,))
        M = []
        rounds = 0
        while True:
            rounds += 1
            m = dict(self.S0.m)
            for key in M:
                if key in self.forms and key not in self.rot:
                    m[key] = self.forms[key](k)
                else:
                    m[key] = self.phi(key)
            o = self.iterate(m, self.facts())
            # newly modified cells
            new = []
            for S in self.states(o):
                for key, v in S.m.items():
                    if key in M or key in new:
                        continue
                    if key in m:
                        if m[key] is not v and self.carried(key):
                            new.append(key)
                    elif self.carried(key) and v is not self.init(key):
                        new.append(key)
            if new and rounds < 40:
                # only what the next iteration can see is carried
                M += new
                continue
            unsolved = [key for key in M if key not in self.forms]
            # pointers that do not move along one object
            redo = False
            if o.next is not None:
                for key in unsolved:
                    v = o.next.m.get(key, m[key])
                    if self.comp(key, v) is None and key not in self.plain:
                        self.plain.add(key)
                        del self.phis[key]
                        redo = True
            if redo and rounds < 40:
                M = [key for key in M if key in self.forms or key in self.phis or True]
                continue
            if not unsolved or o.next is None:
                break
            progress = self.solve(o, unsolved, m)
            if not progress or rounds >= 60:
                self.foldrest(o, [key for key in M if key not in self.forms], m)
                m = dict(self.S0.m)
                for key in M:
                    m[key] = self.forms[key](k) if key in self.forms and key not in self.rot else self.phi(key)
                o = self.iterate(m, self.facts())
                # cells first touched through a folded pointer
                break
        self.M = M
        self.finish(o, m)

    def facts(self):
        return []

    # -------------------------------------------------------- equations
    def solve(self, o, unsolved, m):
        nx = o.next
        eqs = []
        self.rotate(o, m)
        nx = o.next
        if nx is None:
            return False
        PROVER.push([neg(self.k)])
        PROVER.push_cond(nx.pc)
        try:
            for key in unsolved:
                v = nx.m.get(key, m[key])
                v = interp.restrict(v, nx.pc)
                v = deep(v)
                c = self.comp(key, v)
                if c is None:
                    continue
                eqs.append(Eq(key, self.psym[key], c, self.initc(key)))
            sysm = System(self.k, eqs, [self.psym[key] for key in unsolved])
            n0 = len(sysm.solved)
            sysm.solve()
        finally:
            PROVER.pop()
            PROVER.pop()
        got = False
        for key, f in sysm.solved.items():
            self.forms[key] = (lambda key, f: (lambda kk: self.wrapc(key, f(kk))))(key, f)
            got = True
        return got

    def foldrest(self, o, rest, m):
        if o.next is None:
            return
        PROVER.push([neg(self.k)])
        PROVER.push_cond(o.next.pc)
        eqs = []
        for key in rest:
            v = deep(interp.restrict(o.next.m.get(key, m[key]), o.next.pc))
            c = self.comp(key, v)
            eqs.append(Eq(key, self.psym[key], c if c is not None else raw('unk', 'pointer', self.it.uid(self.s)), self.initc(key) if c is not None else raw('unk', 'pointer0', self.it.uid(self.s))))
        PROVER.pop()
        PROVER.pop()
        self.it.foldcount += 1
        fs = fold(self.k, eqs)
        for e in eqs:
            self.forms[e.key] = (lambda key, f: (lambda kk: self.wrapc(key, f(kk))))(e.key, fs[e.key])

    def rotate(self, o, m):
        for _ in range(4):
            if not self.rotate1(o, m):
                return

    def rotate1(self, o, m):
        """a flag tested by the loop condition and set in the body: the
        iteration that sets it is the last one"""
        nx = o.next
        if nx is None:
            return False
        lits = cond_facts(nx.pc)[1]
        for at, val in lits:
            for key, P in list(self.phis.items()):
                if key in self.forms and key not in self.rot:
                    continue
                p = self.psym[key]
                if p not in support(at) or any(q in support(at) for kk, q in self.psym.items() if kk != key):
                    continue
                if self.k in support(at):
                    continue
                lit = atom(at) if val else NOT(atom(at))
                i0 = self.initc(key)
                if PROVER.simp(subst(lit, {p: i0})) is not TRUE:
                    continue
                # what the literal says about the flag
                if at.op == 'isnull' and at.a[0] is P and val:
                    known = NULL
                elif at is p:
                    known = TRUE if val else FALSE
                elif at.op == 'eq0' and val and len(subterms_monos(at.a[0])) <= 2:
                    c0, c1 = polyk(at.a[0], p) or (None, None)
                    if c1 is None or c1.op != 'n' or abs(c1.a[0]) != 1 or c0.op != 'n':
                        continue
                    known = mul(num(-c1.a[0]), c0)
                else:
                    continue
                v = self.comp(key, nx.m.get(key, P))
                if v is None:
                    continue
                v = interp.restrict(subst(v, {p: known}), subst(nx.pc, {p: known}))
                ok = subst(lit, {p: v})
                if ok is TRUE:
                    continue
                ok = interp.restrict(ok, subst(nx.pc, {p: known}))
                if p in support(ok) or ok is FALSE:
                    continue
                stay = deep(interp.restrict(v, AND(nx.pc, ok)))
                if stay is not known:
                    continue
                sub = {p: known}
                nm = {kk: subst(vv, sub) for kk, vv in nx.m.items()}
                npc = subst(nx.pc, sub)
                stop = interp.St(AND(npc, NOT(ok)), nm)
                nm2 = {kk: interp.restrict(vv, AND(npc, ok)) for kk, vv in nm.items()}
                o.next = interp.St(AND(npc, ok), nm2)
                sb = lambda S: interp.St(subst(S.pc, sub), {kk: subst(vv, sub) for kk, vv in S.m.items()})
                sv = lambda v: subst(v, sub) if isinstance(v, T) else v
                o.breaks = [sb(x) for x in o.breaks]
                o.rets = [(sb(x), sv(v)) for x, v in o.rets]
                o.throws = [(sb(x), sv(v)) for x, v in o.throws]
                o.exits = [(sb(x), sv(v)) for x, v in o.exits]
                if stop.pc is not FALSE:
                    o.breaks.append(stop)
                if o.done is not None:
                    o.done = interp.St(subst(o.done.pc, sub), {kk: subst(vv, sub) for kk, vv in o.done.m.items()})
                    if o.done.pc is FALSE:
                        o.done = None
                self.rot.add(key)
                return True
        return False

    # -------------------------------------------------------- exits
    def finish(self, o, m):
        it = self.it
        k = self.k
        pc0 = self.S0.pc
        if self.rot:
            self.rotate(o, m)
            m = dict(m)
            for key in self.rot:
                if key in self.forms:
                    m[key] = self.forms[key](k)
        # continuation test in terms of k alone
        PROVER.push([neg(k)])
        G = deep(o.next.pc) if o.next is not None else FALSE
        PROVER.pop()
        others = [('break', x, None) for x in o.breaks] + [('ret', x, v) for x, v in o.rets] + [('throw', x, v) for x, v in o.throws] + [('exit', x, v) for x, v in o.exits]
        N0 = trip(G, k)
        E = NOT(G)
        if o.next is None:
            K = ZERO
            N0c = ZERO if not others else INF
            other = FALSE
        else:
            PROVER.push([neg(k)] + ([sub(add(k, ONE), N0)] if N0 is not INF and N0.op != 'I' else []))
            if N0.op == 'I':
                PROVER.push_cond(lt(k, N0))
            other = PROVER.simp(E)
            if N0.op == 'I':
                PROVER.pop()
                if cube(AND(E, lt(k, N0))) is None:
                    other = FALSE
            PROVER.pop()
            if other is FALSE:
                K = N0
            elif k not in support(other):
                K = ite(other, ZERO, N0)
            else:
                K = raw('first', N0, close(k, other))
        self.K = K
        # ---- the recording pass
        self.N = N0 if o.next is not None else ONE
        if self.kind == 'do' and o.next is not None:
            self.N = add(K, ONE) if K is not INF else INF
        if not it.mute:
            facts = []
            if self.N is not INF and self.N.op != 'I' and self.kind == 'do':
                facts = [sub(add(k, ONE), self.N)]
            if self.native is None and self.kind != 'do' and K is not INF and K.op not in ('I',):
                facts = [sub(k, K)]
            self.iterate(m, facts, final=True)
        # ---- the state after the loop
        at = self.at
        outs = []
        if o.next is not None and not others:
            # leaves by its test only
            S = o.done
            if S is None:
                it.S = interp.St(FALSE, self.S0.m)
                return
            same = self.kind == 'do' and all(o.next.m.get(key) is S.m.get(key) for key in set(S.m) | set(o.next.m))
            if same and K is not INF:
                M2 = dict(S.m)
                for key in S.m:
                    M2[key] = at(S.m[key], K)
                for key in self.M:
                    M2[key] = dsimp(self.forms[key](add(K, ONE)))
                outs.append(interp.St(pc0, M2))
            else:
                outs.append(interp.St(pc0, self.atstate(S, K)))
        elif o.next is None:
            # at most one iteration
            if o.done is not None:
                outs.append(interp.St(AND(pc0, at(o.done.pc, ZERO)), self.atstate(o.done, ZERO)))
            for kd, S, v in others:
                St = interp.St(AND(pc0, at(S.pc, ZERO)), self.atstate(S, ZERO))
                self.emit(outs, kd, St, at(v, ZERO) if v is not None else None)
        else:
            if N0 is INF:
                found = TRUE if o.done is None else NOT(at(o.done.pc, K))
            elif o.done is None:
                # no test: the loop is left from its body, always
                found = TRUE
            else:
                found = lt(K, N0)
            # several parts of the test may end the loop
            dpc = at(o.done.pc, K) if o.done is not None else FALSE
            rem = found
            live = []
            if o.done is not None:
                live.append(('break', o.done, None, True))
            for x in others:
                live.append(x + (False,))
            if o.done is not None:
                extra = PROVER.simp(AND(found, interp.restrict(dpc, found)))
                doneother = FALSE
                if N0 is not INF and extra is not FALSE and dpc is not NOT(found):
                    # the test has parts besides the counter
                    doneother = AND(found, at(o.done.pc, K)) if self.testother(o, N0) else FALSE
                pc = OR(NOT(found), doneother)
                rem = AND(found, NOT(doneother))
                outs.append(interp.St(AND(pc0, pc), self.atstate(o.done, K)))
            for i, (kd, S, v) in enumerate(others):
                if i == len(others) - 1:
                    pc = rem
                else:
                    pc = AND(rem, at(S.pc, K))
                    rem = AND(rem, NOT(pc))
                St = interp.St(AND(pc0, pc), self.atstate(S, K))
                self.emit(outs, kd, St, at(v, K) if v is not None else None)
        st_, _ = it.mergemany(outs)
        it.S = st_ if st_ is not None else interp.St(FALSE, self.S0.m)

    def testother(self, o, N0):
        """does the loop test end the loop before the counter does?"""
        k = self.k
        PROVER.push([neg(k)])
        PROVER.push_cond(lt(k, N0))
        r = PROVER.simp(o.done.pc)
        PROVER.pop()
        PROVER.pop()
        return r is not FALSE

    def emit(self, outs, kd, S, v):
        it = self.it
        if S.pc is FALSE:
            return
        if kd == 'break':
            outs.append(S)
        elif kd == 'ret':
            it.F.rets.append((S, v))
        elif kd == 'throw':
            it.throws[-1].append((S, v))
        else:
            it.exits.append((S, v))

    def at(self, t, K):
        """value at iteration K"""
        if t is None or not isinstance(t, T):
            return t
        sub_ = {self.k: K}
        for key in self.M:
            if key not in self.forms:
                p = self.psym.get(key)
                if p is not None and p in support(t):
                    sub_[p] = raw('unk', 'carried', self.it.uid(self.s))
        return dsimp(subst(t, sub_))

    def atstate(self, S, K):
        m = {}
        drop = frozenset((self.k,))
        for key, v in S.m.items():
            if key not in self.S0.m and not self.carried(key):
                continue       # a local of the body
            if drop & support(key[0]):
                continue
            if v is self.S0.m.get(key):
                m[key] = v
            else:
                m[key] = self.at(v, K)
        return m


def leafset(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'I':
            st += [x.a[1], x.a[2]]
        else:
            out.append(x)
    return out


def subterms_monos(p):
    return p.a[0] if p.op == 'P' else ((p, 1),)


def dsimp(t):
    return deep(t)


_DEEP = {'vec', 'rec', 'st', 'setfld', 'objval', 'padd', 'acon', 'P', 'modp', 'rep'}


def deep(t, d=0):
    """settle decisions inside structured values"""
    if t.op == 'I':
        r = PROVER.simp(t)
        if r.op == 'I':
            return leafmap(r, d)
        t = r
    if t.op in _DEEP and d < 6 and hasgate(t):
        if t.op == 'objval':
            return raw('objval', t.a[0], tuple((n, deep(x, d + 1)) for n, x in t.a[1]))
        if t.op == 'rec':
            return rec({n: deep(x, d + 1) for n, x in t.a[0]})
        if t.op == 'P':
            return t
        args = [deep(x, d + 1) if isinstance(x, T) else x for x in t.a]
        f = BUILD.get(t.op)
        return f(*args) if f else raw(t.op, *args)
    return t


def leafmap(t, d):
    if t.op == 'I':
        at, hi, lo = t.a
        if d > 40:
            return t
        PROVER.push(*lit_facts(at, True))
        h = leafmap(hi, d)
        PROVER.pop()
        PROVER.push(*lit_facts(at, False))
        l = leafmap(lo, d)
        PROVER.pop()
        return ite(atom(at), h, l) if (h is not hi or l is not lo) else t
    return deep(t, d + 1) if t.op in _DEEP else t


_hg = {}


def hasgate(t):
    r = _hg.get(t.id)
    if r is None:
        _hg[t.id] = False
        r = t.op == 'I' or (t.op != 'lam' and any(hasgate(x) for x in subterms1(t)))
        _hg[t.id] = r
    return r


# ------------------------------------------------------------------ counting
def polyk(p, k):
    """p = c1*k + c0 with c0, c1 free of k"""
    if k not in support(p):
        return p, ZERO
    if p is k:
        return ZERO, ONE
    if p.op != 'P':
        return None
    c0, c1 = ZERO, ZERO
    for m, c in p.a[0]:
        nk = sum(1 for x in m if x is k)
        rest = ONE if not m else None
        r = num(c)
        for x in m:
            if x is not k:
                if k in support(x):
                    return None
                r = mul(r, x)
        if nk == 0:
            c0 = add(c0, r)
        elif nk == 1:
            c1 = add(c1, r)
        else:
            return None
    return c0, c1


def max0(x):
    if x.op == 'I':
        return lift(('max0', PROVER.ctx()), max0, x)
    if nonneg(x) or PROVER.prove_le0(neg(x)):
        return x
    if PROVER.prove_le0(x):
        return ZERO
    return ite(le0(x), ZERO, x)


def trip(G, k):
    """number of leading iterations the affine parts of the test allow"""
    best = INF
    if G is FALSE:
        return ZERO
    lits = []
    split = None
    c = G
    while c.op == 'I':
        at, hi, lo = c.a
        if lo is FALSE:
            lits.append((at, True))
            c = hi
        elif hi is FALSE:
            lits.append((at, False))
            c = lo
        else:
            # the counter may sit below a decision that both sides share
            p1 = cond_facts(hi)[1]
            p2 = cond_facts(lo)[1]
            lits += [x for x in p1 if x in p2]
            if k not in support(at):
                split = (at, hi, lo)
            break
    for at, val in lits:
        if k not in support(at):
            continue
        n = None
        if at.op == 'le0':
            q = at.a[0] if val else sub(ONE, at.a[0])
            ab = polyk(q, k)
            if ab is None:
                continue
            a, b = ab
            if b.op == 'n' and b.a[0] == 1:
                n = max0(sub(ONE, a))
            elif b.op == 'n' and b.a[0] > 1 or (b.op != 'n' and nonneg(b)):
                if PROVER.prove_le0(a):
                    n = fdiv(sub(b, a), b)
                else:
                    n = ite(le0(a), fdiv(sub(b, a), b), ZERO)
        elif at.op == 'eq0' and not val:
            ab = polyk(at.a[0], k)
            if ab is None:
                continue
            a, b = ab
            if b.op == 'n' and abs(b.a[0]) == 1:
                n = mul(num(-b.a[0]), a)
                n = max0(n) if nonneg(n) or PROVER.prove_le0(neg(n)) else n
        if n is None:
            continue
        if best is INF:
            best = n
        else:
            best = ite(le(n, best), n, best)
    if best is INF and split is not None:
        at, hi, lo = split
        PROVER.push(*lit_facts(at, True))
        h = trip(hi, k)
        PROVER.pop()
        PROVER.push(*lit_facts(at, False))
        l = trip(lo, k)
        PROVER.pop()
        if h is not INF and l is not INF:
            best = ite(atom(at), h, l)
    return best


def first_(n, l):
    """first index below n where the condition holds, else n"""
    if l.op != 'lam':
        return raw('first', n, l)
    v = fresh('n', True)
    E = rd(l, v)
    if E is FALSE:
        return n
    if n is INF:
        N0 = trip(NOT(E), v)
        if N0 is not INF and AND(E, lt(v, N0)) is FALSE:
            return N0
    return raw('first', n, l)


terms.BUILD['first'] = first_


# ------------------------------------------------------------------ equations
class Eq:
    def __init__(self, key, p, v, init):
        self.key = key
        self.p = p
        self.v = v
        self.init = init


class System:
    """x_{k+1} = v(k, x_k): closed forms, cell by cell"""

    def __init__(self, k, eqs, allsyms):
        self.k = k
        self.eqs = eqs
        self.all = set(allsyms)
        self.solved = {}

    def solve(self):
        todo = list(self.eqs)
        while todo:
            hit = None
            for e in todo:
                f = self.one(e)
                if f is not None:
                    hit = (e, f)
                    break
            if hit is None:
                return
            e, f = hit
            todo.remove(e)
            self.solved[e.key] = f
            self.all.discard(e.p)
            c = f(self.k)
            for x in todo:
                if e.p in support(x.v):
                    x.v = deep(subst(x.v, {e.p: c}))

    def foreign(self, t, p):
        s = support(t)
        return any(q in s for q in self.all if q is not p)

    def one(self, e):
        return solve1(self.k, e.p, e.v, e.init, lambda t: self.foreign(t, e.p))


def closeval(f, k):
    """function of the count from a term in k"""
    return lambda kk: f if kk is k else subst(f, {k: kk})


def solve1(k, p, v, init, foreign, depth=0):
    """closed form of p' = v(k,p), p_0 = init, as a function of the count; None if none is found"""
    if depth > 8:
        return None
    if v is p:
        return lambda kk: init
    sv = support(v)
    if p not in sv and not foreign(v):
        # last value
        if v is init:
            return lambda kk: init

        def f(kk):
            return ite(le(kk, ZERO), init, v if k not in sv else subst(v, {k: sub(kk, ONE)}))
        return f
    if foreign(v):
        # still possible: an update of one part independent of the others
        return None
    # boolean flags
    if v.op == 'I' and any(x.a[0] is p for x in allnodes(v)) or isboolterm(v):
        hi, lo = subst(v, {p: TRUE}), subst(v, {p: FALSE})
        if p not in support(hi) and p not in support(lo):
            if hi is TRUE:
                g = lo

                def f(kk):
                    return OR(init, exists(kk, k, g))
                return f
            if lo is FALSE:
                g = NOT(hi)

                def f(kk):
                    return AND(init, NOT(exists(kk, k, g)))
                return f
    L = leafset(v)
    # numbers
    if all(numeric(x, p) for x in L):
        d = sub(v, p)
        if p not in support(d):
            if k not in support(d):
                return lambda kk: add(init, mul(kk, d))
            return lambda kk: add(init, summ(kk, k, d))
        # geometric/saturating forms are left to the fold
    # counters of a narrow type wrap around
    ws = {x.a[0] for x in L if x.op == 'trunc'}
    if len(ws) == 1 and all(x is p or x.op == 'trunc' and x.a[1].op in ('n', 'P', 'I') or x.op == 'n' and x is init for x in L):
        w = next(iter(ws))

        def strip(z):
            return z.a[1] if z.op == 'trunc' else z
        u = leafmap_(v, strip)
        if all(numeric(x, p) for x in leafset(u)):
            d = sub(u, p)
            if p not in support(d):
                tot = (lambda kk: mul(kk, d)) if k not in support(d) else (lambda kk: summ(kk, k, d))
                inr = init.op == 'n' and 0 <= init.a[0] < (1 << (w.a[0] - 1))

                def f(kk):
                    r = interp.models.trunc(add(init, tot(kk)), w.a[0])
                    return r if inr else ite(le(kk, ZERO), init, r)
                return f
    # structures
    kinds = {x.op for x in L if x is not p}
    if kinds <= {'vec'} and kinds:
        return solvevec(k, p, v, init, foreign, depth)
    if kinds <= {'rec', 'setfld'} and kinds:
        return solverec(k, p, v, init, foreign, depth)
    if kinds <= {'st', 'lam', 'acon'} and kinds:
        return solvearr(k, p, v, init, foreign, depth)
    # a value set at most ... a condition that does not change, to a value that does not change
    if v.op == 'I':
        r = solveguard(k, p, v, init)
        if r is not None:
            return r
    return None


def leafmap_(v, g):
    return ite(v.a[0], leafmap_(v.a[1], g), leafmap_(v.a[2], g)) if v.op == 'I' else g(v)


def isboolterm(v):
    return all(x in (TRUE, FALSE) for x in leafset(v))


def numeric(x, p):
    return x.op in ('n', 'P') or x is p


def allnodes(v):
    out, st, seen = [], [v], set()
    while st:
        x = st.pop()
        if x.id in seen or x.op != 'I':
            continue
        seen.add(x.id)
        out.append(x)
        st += [x.a[1], x.a[2]]
    return out


def exists(kk, k, g):
    if g is FALSE:
        return FALSE
    if k not in support(g):
        return AND(g, lt(ZERO, kk))
    if kk is ZERO:
        return FALSE
    return lift('exists%d' % g.id, lambda n: lt(raw('first', n, close(k, g)), n), kk)


def summ(kk, k, d):
    if kk is ZERO:
        return ZERO
    return sum_(kk, close(k, d))


def sum_(kk, l):
    def one(n):
        if n.op == 'n' and n.a[0] <= 4:
            r = ZERO
            for i in range(n.a[0]):
                r = add(r, rd(l, num(i)))
            return r
        return raw('sum', n, l)
    return lift('sum%d' % l.id, one, kk)


terms.BUILD['sum'] = sum_


def solveguard(k, p, v, init):
    """p' = g ? x : p with g free of p"""
    if not all((x is p) or p not in support(x) for x in leafset(v)):
        return None
    # region where it is overwritten
    w = condof(v, lambda x: x is not p)
    if p in support(w):
        return None
    val = interp.restrict(v, w)
    val = deep(val)
    if p in support(val):
        return None
    if k not in support(w):
        if k not in support(val):
            return lambda kk: ite(AND(w, lt(ZERO, kk)), val, init)
        return lambda kk: ite(AND(w, lt(ZERO, kk)), subst(val, {k: sub(kk, ONE)}), init)

    # the last iteration that overwrites it
    def f(kk):
        if kk is ZERO:
            return init
        return lift(('lastset', w.id, val.id, init.id, k.id), lambda n: raw('lastset', n, close(k, w), close(k, val), init), kk)
    return f


def condof(v, test, memo=None):
    if memo is None:
        memo = {}
    if v.op != 'I':
        return TRUE if test(v) else FALSE
    r = memo.get(v.id)
    if r is None:
        r = ite(atom(v.a[0]), condof(v.a[1], test, memo), condof(v.a[2], test, memo))
        memo[v.id] = r
    return r


def solvevec(k, p, v, init, foreign, depth):
    n = vlen(v)
    a = varr(v)
    pl, pa = raw('len', p), raw('elems', p)
    sl, sa = fresh('len', True), fresh('arr')
    m = {pl: sl, pa: sa}
    n2, a2 = subst(n, m), subst(a, m)
    if p in support(n2) or p in support(a2):
        return None
    sy = System(k, [Eq('n', sl, n2, vlen(init)), Eq('a', sa, a2, varr(init))], [sl, sa])
    old = sy.foreign
    sy.foreign = lambda t, q: old(t, q) or foreign(t)
    # filters: appended under a condition
    r = filt(k, sl, sa, n2, a2, init)
    if r is not None:
        return r
    sy.solve()
    if len(sy.solved) < 2:
        return None
    fn, fa = sy.solved['n'], sy.solved['a']
    return lambda kk: vec(fn(kk), fa(kk))


def filt(k, sl, sa, n2, a2, init):
    """elements appended when a condition holds"""
    d = sub(n2, sl)
    if d.op != 'I':
        return None
    if not all(x in (ZERO, ONE) for x in leafset(d)):
        return None
    g = condof(d, lambda x: x is ONE)
    if sl in support(g) or sa in support(g):
        return None
    for x in leafset(a2):
        if x is sa:
            continue
        if x.op == 'st' and x.a[0] is sa and x.a[1] is sl and sl not in support(x.a[2]) and sa not in support(x.a[2]):
            continue
        return None
    w = condof(a2, lambda x: x is not sa)
    if w is not g:
        return None
    val = deep(interp.restrict(rd(a2, sl), g))
    if sl in support(val) or sa in support(val):
        return None
    G, V = close(k, g), close(k, val)

    def f(kk):
        if kk is ZERO:
            return init
        return lift(('filt', G.id, V.id, init.id), lambda n: raw('filt', init, n, G, V) if n is not ZERO else init, kk)
    return f


def solverec(k, p, v, init, foreign, depth):
    fields = {}
    whole = False

    def collect(x):
        if x is p:
            return
        if x.op == 'setfld':
            fields.setdefault(x.a[1], True)
            collect(x.a[0])
        elif x.op == 'rec':
            for n, y in x.a[0]:
                fields.setdefault(n, True)
        elif x.op == 'I':
            collect(x.a[1])
            collect(x.a[2])
        else:
            fields['?'] = True
    collect(v)
    if '?' in fields:
        return None
    syms = {f: fresh('f' + str(f)) for f in fields}
    m = {raw('fld', p, f): s for f, s in syms.items()}
    eqs = []
    for f, s in syms.items():
        x = subst(getf(v, f), m)
        if p in support(x):
            return None
        eqs.append(Eq(f, s, x, getf(init, f)))
    sy = System(k, eqs, list(syms.values()))
    old = sy.foreign
    sy.foreign = lambda t, q: old(t, q) or foreign(t)
    sy.solve()
    if len(sy.solved) < len(eqs):
        return None

    def f(kk):
        r = init
        for n in sorted(fields):
            r = setf(r, n, sy.solved[n](kk))
        return r
    return f


def strip_st(x, p, idxs):
    while x.op == 'st':
        idxs.append(x.a[1])
        x = x.a[0]
        if x.op == 'I':
            return all(strip_st(y, p, idxs) for y in leafset(x))
    return x is p


def solvearr(k, p, v, init, foreign, depth):
    # one cell that is the same in every iteration
    idxs = []
    if all(strip_st(x, p, idxs) for x in leafset(v)):
        s = set(idxs)
        if len(s) == 1:
            e = idxs[0]
            if k not in support(e) and p not in support(e):
                q = fresh('cell')
                x = rd(v, e)
                key = raw('rd', p, e)
                x2 = subst(x, {key: q})
                if p not in support(x2):
                    f = solve1(k, q, x2, rd(init, e), foreign, depth + 1)
                    if f is not None:
                        return lambda kk: st(init, e, f(kk))
                return None
    x = fresh('x', True)
    PROVER.push([neg(k), neg(x)])
    U = deep(rd(v, x))
    PROVER.pop()
    here = raw('rd', p, x)
    old = fresh('old')
    U = subst(U, {here: old})
    w = condof(U, lambda z: z is not old)
    if w is FALSE:
        return lambda kk: init
    if p in support(w):
        return None
    # the same cells in every iteration, with values that do not build on the old ones
    if k not in support(w) and x not in support(init):
        PROVER.push([neg(k), neg(x)])
        V = deep(interp.restrict(U, w))
        PROVER.pop()
        if old not in support(V) and p not in support(V) and not foreign(V):
            def fw(kk):
                if kk is ZERO:
                    return init

                def one(n):
                    if n is ZERO:
                        return init
                    PROVER.push([neg(x)])
                    b = deep(ite(AND(w, lt(ZERO, n)), subst(V, {k: sub(n, ONE)}), rd(init, x)))
                    PROVER.pop()
                    return eta(close(x, b))
                return lift(('win', V.id, init.id, w.id, x.id, PROVER.ctx()), one, kk)
            return fw
    r = flat(k, p, x, old, U, w, init, foreign, depth)
    if r is not None:
        return r
    # pins: candidates for the first index written by iteration k
    cands = []
    for nd in allnodes(w):
        at = nd.a[0]
        if x not in support(at) or at.op not in ('eq0', 'le0'):
            continue
        ab = polyk(at.a[0], x)
        if ab is None:
            continue
        a, b = ab
        if b.op != 'n' or abs(b.a[0]) != 1:
            continue
        # a + b*x (= or <=) 0
        e = mul(num(-b.a[0]), a)      # x = e  at equality
        opts = [e]
        if at.op == 'le0':
            opts.append(add(e, ONE if b.a[0] == 1 else num(-1)))
        for e_ in opts:
            if p in support(e_) or e_.op == 'I':
                continue
            sb = polyk(e_, k)
            if sb is None:
                continue
            if (sb[0], sb[1]) not in cands:
                cands.append(sb)
    for b0, s in cands:
        if s is ZERO:
            continue
        r = pinned(k, p, x, old, U, w, init, b0, s, foreign)
        if r is not None:
            return r
    return None


def exactly(a, d):
    """a / d where every term of a contains d"""
    r = ZERO
    for m, c in terms._monos(a).items():
        if d.op == 'n':
            if c % d.a[0]:
                return None
            x = num(c // d.a[0])
        else:
            if d not in m:
                return None
            m = list(m)
            m.remove(d)
            x = num(c)
        for y in m:
            x = mul(x, y)
        r = add(r, x)
    return r


def flat(k, p, x, old, U, w, init, foreign, depth):
    """a table walked with one counter: the row is the quotient, the column the remainder"""
    for t in allsub(w).values():
        if t.op != 'div' or t.a[0] is not k or t.a[1].op not in ('n', 'cell', 'sym') or k in support(t.a[1]) or p in support(t.a[1]):
            continue
        d = t.a[1]
        PROVER.push([neg(k), neg(x)])
        ok = implied(w, sub(t, x)) and implied(w, sub(x, t))
        PROVER.pop()
        if not ok or x in support(init):
            continue
        i = fresh('i', True)
        m = {t: x, raw('mod', k, d): i}
        PROVER.push([neg(i), sub(add(i, ONE), d), neg(x)])
        try:
            # (the row's number and column give the counter back)
            V = deep(subst(subst(subst(interp.restrict(U, w), m), {raw('rd', p, x): old}), {k: add(mul(x, d), i)}))
            g = deep(subst(subst(w, m), {k: add(mul(x, d), i)}))
            if g is not TRUE:
                V = ite(g, V, old)
            if k in support(V) or p in support(V):
                return None
            f = solve1(i, old, V, rd(init, x), foreign, depth + 1)
        finally:
            PROVER.pop()
        if f is None:
            return None

        def at(kk):
            if kk is ZERO:
                return init

            def one(n):
                A = exactly(n, d)
                q, r = (A, ZERO) if A is not None else (fdiv(n, d), fmod(n, d))
                PROVER.push([neg(x), sub(ONE, d)])
                b = ite(lt(x, q), f(d), rd(init, x) if r is ZERO else ite(eq(x, q), f(r), rd(init, x)))
                b = deep(b)
                PROVER.pop()
                return eta(close(x, b))
            return lift(('flat', V.id, init.id, d.id, x.id, PROVER.ctx()), one, kk)
        return at
    return None


def implied(w, q):
    """does the condition imply q <= 0 (path facts of the diagram)"""
    if w is FALSE:
        return True
    if PROVER.prove_le0(q):
        return True
    if w.op != 'I':
        return False
    at, hi, lo = w.a
    for br, val in ((hi, True), (lo, False)):
        if br is FALSE:
            continue
        PROVER.push(*lit_facts(at, val))
        r = implied(br, q)
        PROVER.pop()
        if not r:
            return False
    return True


def pinned(k, p, x, old, U, w, init, b0, s, foreign):
    down = s.op == 'n' and s.a[0] < 0
    st_ = neg(s) if down else s
    if s.op != 'n' and not nonneg(s):
        return None
    base = add(b0, mul(s, k))
    PROVER.push([neg(k), neg(x)])
    try:
        if st_ is ONE:
            ok = implied(w, sub(base, x)) and implied(w, sub(x, base))
        else:
            ok = implied(w, sub(base, x)) and implied(w, sub(add(x, ONE), add(base, st_)))
    finally:
        PROVER.pop()
    if not ok:
        return None
    if down and st_ is not ONE:
        return None
    if st_ is ONE:
        kap = sub(b0, x) if down else sub(x, b0)
    else:
        kap = fdiv(sub(x, b0), st_)
    # other reads of the array: only what is not written yet
    U2 = U
    if p in support(U2):
        m = {}
        for z in allsub(U2).values():
            if z.op == 'rd' and z.a[0] is p:
                y = z.a[1]
                PROVER.push([neg(k), neg(x)])
                un = (PROVER.prove_le0(sub(base, y)) or PROVER.prove_le0(sub(add(y, ONE), b0))) if not down else (PROVER.prove_le0(sub(y, base)) or PROVER.prove_le0(sub(add(b0, ONE), y)))
                PROVER.pop()
                if not un:
                    return None
                m[z] = rd(init, y)
        U2 = subst(U2, m)
        if p in support(U2):
            return None
    if foreign(U2):
        return None
    W = subst(U2, {k: kap, old: rd(init, x)})
    if x in support(init):
        return None

    def f(kk):
        if kk is ZERO:
            return init

        def one(n):
            if n is ZERO:
                return init
            if down:
                inside = AND(lt(sub(b0, n), x), le(x, b0))
                fs = [sub(add(sub(b0, n), ONE), x), sub(x, b0), neg(x)]
            else:
                inside = AND(le(b0, x), lt(x, add(b0, mul(st_, n))))
                fs = [sub(b0, x), sub(add(x, ONE), add(b0, mul(st_, n))), neg(x)]
            PROVER.push(fs)
            ww = deep(W)
            PROVER.pop()
            PROVER.push([neg(x)])
            ww = deep(ite(inside, ww, rd(init, x)))
            PROVER.pop()
            return eta(close(x, ww))
        return lift(('arr', W.id, init.id, b0.id, st_.id, down, x.id, PROVER.ctx()), one, kk)
    return f


def fold(k, eqs):
    """recurrences left as they are"""
    todo = list(eqs)
    syms = {e.p: e for e in eqs}
    # dependency components
    dep = {e.p: {q for q in syms if q in support(e.v)} for e in eqs}
    comps = scc(list(syms), dep)
    solved = {}
    for comp in comps:
        es = [syms[p] for p in comp]
        for e in es:
            m = {q: solved[q](k) for q in solved if q in support(e.v)}
            if m:
                e.v = deep(subst(e.v, m))
        if len(es) == 1:
            e = es[0]
            f = None
            if e.v.op != 'unk':
                f = solve1(k, e.p, e.v, e.init, lambda t: False)
            if f is None:
                body = close(e.p, close(k, e.v))
                f = (lambda body, init: lambda kk: init if kk is ZERO else lift('fold%d.%d' % (body.id, init.id), lambda n: raw('fold', body, init, n) if n is not ZERO else init, kk))(body, e.init)
            solved[e.p] = f
        else:
            for i, e in enumerate(es):
                bodies = []
                for x in es:
                    b = close(k, x.v)
                    for y in es:
                        b = close(y.p, b)
                    bodies.append(b)
                solved[e.p] = (lambda i, bodies, inits: lambda kk: inits[i] if kk is ZERO else raw('foldn', num(i), bodies, inits, kk))(i, tuple(bodies), tuple(x.init for x in es))
    return {e.key: solved[e.p] for e in eqs}


def scc(nodes, dep):
    index, low, stack, on, out = {}, {}, [], set(), []
    cnt = [0]

    def visit(v):
        index[v] = low[v] = cnt[0]
        cnt[0] += 1
        stack.append(v)
        on.add(v)
        for w in sorted(dep[v], key=lambda t: t.id):
            if w not in index:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w is v:
                    break
            out.append(sorted(c, key=lambda t: t.id))
    for v in nodes:
        if v not in index:
            visit(v)
    return out
