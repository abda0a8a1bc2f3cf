"""Obligations, verdicts, evidence."""
import contextlib
import json
import os
import sys
import time
import traceback
import ir
import terms
import loops
import interp
import an
import randi
from terms import *

OPAQUE = {'unk', 'dead', 'badread', 'bad', 'clobber'}
FOLDS = {'fold', 'foldn'}


def imprecise(t, folds=True):
    """why a term does not determine a value, or None"""
    for x in allsub(t).values():
        if x.op in OPAQUE:
            return x.op
        if folds and x.op in FOLDS:
            return x.op
    return None


UNMODELLED = ('x:', 's:', 'ctor:')
UNMODELLED_OPS = {'resized', 'rangevec', 'memchr', 'mkstr', 'mkvec'}


def unmodelled(t):
    """results of library calls nothing is known about"""
    return {x for x in allsub(t).values() if x.op in UNMODELLED_OPS or x.op.startswith(UNMODELLED)}


def found(c):
    """a condition, with what is known of the elements searched for in it"""
    r = c
    for x in list(allsub(c).values()):
        if x.op == 'first' and x.a[0].op != 'inf' and x.a[1].op == 'lam':
            r = AND(r, OR(le(x.a[0], x), beta(x.a[1], x)))
    return PROVER.simp(r) if r is not c and r.op == 'I' else r


def showlit(at, v):
    s = str(at)
    return s if v else 'not ' + s


def short(x, n=300):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'


def norm(t, depth=0):
    """settle the decisions inside elements, with the index in range"""
    memo = {}

    def go(t, d):
        if d > 60:
            return t
        key = (t.id, PROVER.keys[-1] if PROVER.keys else None, sum(len(x) for x in PROVER.lits))
        r = memo.get(key)
        if r is not None and r[0] is t:
            return r[1]
        r = go1(t, d)
        memo[key] = (t, r)
        return r

    def go1(t, d):
        if t.op == 'I':
            r = PROVER.simp(t)
            if r.op != 'I':
                return go(r, d)
            at, hi, lo = r.a
            PROVER.push(*lit_facts(at, True))
            h = go(hi, d + 1)
            PROVER.pop()
            PROVER.push(*lit_facts(at, False))
            l = go(lo, d + 1)
            PROVER.pop()
            return ite(atom(goatom(at, d)) if at.op not in ('le0', 'eq0', 'eq', 'isnull', 'mhas') else rebuilt(at, d), h, l)
        if t.op == 'vec':
            n = go(t.a[0], d + 1)
            if n is ZERO:
                return raw('vec', ZERO, raw('uninit'))
            if n.op == 'I':
                split = lambda m: ite(atom(m.a[0]), split(m.a[1]), split(m.a[2])) if m.op == 'I' else go(raw('vec', m, t.a[1]), d + 1)
                return split(n)
            return raw('vec', n, arr(t.a[1], n, d))
        if t.op == 'lam':
            return lamf(t, None, d)
        if not t.a or t.op in ('n', 'sym', 'bv', 'region', 'sconst'):
            return t
        if not hasinner(t):
            return t
        return rebuild(t, lambda x: go(x, d + 1))

    def rebuilt(at, d):
        return rebuild(at, lambda x: go(x, d + 1)) if hasinner(at) else atom(at)

    def goatom(at, d):
        return rebuild(at, lambda x: go(x, d + 1)) if hasinner(at) else at

    def arr(a, n, d):
        if a.op in ('rd', 'elems', 'uninit') or (n.op == 'n' and n.a[0] == 0):
            return a
        return lamf(a, n, d)

    def lamf(a, n, d):
        v = fresh('n', True)
        PROVER.push([neg(v)] + ([sub(add(v, ONE), n)] if n is not None else []))
        try:
            b = go(rd(a, v), d + 1)
        finally:
            PROVER.pop()
        return eta(close(v, b))
    return go(t, 0)


_inner = {}


def hasinner(t):
    r = _inner.get(t.id)
    if r is None:
        _inner[t.id] = False
        r = t.op in ('I', 'vec', 'lam') or any(hasinner(x) for x in subterms1(t))
        _inner[t.id] = r
    return r


def prune(t, care):
    """drop the branches of t that care rules out"""
    memo = {}

    def go(t, c):
        if t.op != 'I':
            return t
        k = (t.id, c.id)
        r = memo.get(k)
        if r is None:
            at, hi, lo = t.a
            a = atom(at)
            ch, cl = AND(c, a), AND(c, NOT(a))
            if ch is FALSE or cube(ch) is None:
                r = go(lo, cl)
            elif cl is FALSE or cube(cl) is None:
                r = go(hi, ch)
            else:
                r = ite(a, go(hi, ch), go(lo, cl))
            memo[k] = r
        return r
    return go(t, care)


def strings(lits, *ts, equal=True):
    """ts with what the literals say of strings: a search for the terminator that ended early found
    it; the bytes before it are the string; strings known equal are one"""
    lits = list(lits)
    def fact(ls):
        r = TRUE
        for at, v in ls:
            r = AND(r, atom(at) if v else NOT(atom(at)))
        return r
    def scan(c):
        r = dict(allsub(c))
        for t in ts:
            r.update(allsub(t))
        return r.values()
    c = fact(lits)
    for _ in range(12):
        m = {}
        us = list(scan(c))
        sn = [x for x in us if x.op == 'strnlen']
        if sn:
            PROVER.push_cond(c)
            try:
                for x in sn:
                    if PROVER.prove_le0(sub(add(x, ONE), x.a[2])):
                        m[x] = strlen(x.a[0], x.a[1])
                        break
            finally:
                PROVER.pop()
        if not m:
            for x in us:
                if x.op == 'bytestr' and x.a[1].op == 'strlen':
                    a, o = x.a[1].a
                    i = fresh('ci', True)
                    if close(i, rd(a, add(o, i))) is x.a[0]:
                        m[x] = cstr(a, o)
        if not m and equal:
            for at, v in literals(c):
                if v and at.op == 'eq' and len(at.a) == 2:
                    for x, y in (at.a, at.a[::-1]):
                        if x.op == 'cstr' and y.op != 'cstr' and x not in allsub(y):
                            m[x] = y
                            m[raw('strlen', x.a[0], x.a[1])] = vlen(y)
                            break
                if m:
                    break
        if not m:
            break
        ts = tuple(subst(t, m) for t in ts)
        c = subst(c, m)
        if c is TRUE or c is FALSE:
            break
    return (c,) + ts


def literals(c):
    """the literals every way of making c true has in common, read off its top"""
    r = []
    while c.op == 'I':
        at, hi, lo = c.a
        if hi is FALSE:
            r.append((at, False))
            c = lo
        elif lo is FALSE:
            r.append((at, True))
            c = hi
        else:
            break
    return r


def pinned(ts):
    """numbers in ts the facts in force leave one small value for"""
    m = {}
    for t in ts:
        for a in list(allsub(t).values()):
            if a in m or a.op in ('n', 'P', 'I', 'bv') or not (nonneg_atom(a) or a.op in ('cell', 'sym')) or support(a) and any(z.op == 'bv' for z in support(a)):
                continue
            for c in (0, 1, 2):
                if PROVER.simp(le(a, num(c))) is TRUE:
                    if PROVER.simp(le(num(c), a)) is TRUE:
                        m[a] = num(c)
                    break
    return m


def minmax(t):
    """the lesser and the greater of two, however they are compared (ties do not matter)"""
    memo = {}

    def go(t):
        if t.id not in memo:
            if not t.a or t.op in ('n', 'sym', 'bv', 'region', 'sconst', 'cell', 'null'):
                r = t
            elif t.op == 'I' and t.a[0].op == 'le0' and not {t.a[1].op, t.a[2].op} & {'I', 'vec', 'rec', 'lam', 'n'} | {x.op for x in t.a[1:]} & {'sconst'}:
                q, x, y = go(t.a[0].a[0]), go(t.a[1]), go(t.a[2])
                r = None
                for d in (sub(x, y), sub(y, x)):
                    e = sub(q, d)
                    if e is ZERO or e is ONE:
                        r = ite(le0(add(d, ONE)), x, y)
                        break
                if r is None:
                    r = ite(le0(q), x, y)
            else:
                r = rebuild(t, go)
            memo[t.id] = r
        return memo[t.id]
    return go(t)


def agree(x, y, budget=None, diseq=()):
    """x and y have the same value in every consistent combination of their decisions"""
    budget = [400] if budget is None else budget
    if x is y:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        return False
    if x.op == 'I' or y.op == 'I':
        at = (x if x.op == 'I' else y).a[0]
        d = PROVER.decide(at)
        for v in (True, False):
            if d is not None and d != v:
                continue
            f = lit_facts(at, v)
            PROVER.push(*f)
            try:
                c = atom(at) if v else NOT(atom(at))
                if not agree(interp.restrict(x, c), interp.restrict(y, c), budget, diseq + (at.a[0],) if not v and at.op == 'eq0' else diseq):
                    return False
            finally:
                PROVER.pop()
        return True
    fs = list({p.id: p for p in PROVER.facts()}.values())
    for p in fs[-8:]:
        if terms.fm_unsat([z for z in fs if z is not p] + [p]):
            return True
    for p in diseq:
        # neither above nor below what it may not be
        if terms.fm_unsat(fs + [add(p, ONE)]) and terms.fm_unsat(fs + [sub(ONE, p)]):
            return True
    m = pinned((x, y))
    if m:
        x, y = norm(subst(x, m)), norm(subst(y, m))
    if x is y:
        return True
    for p in fs:
        # squeezed from both sides: one number in terms of the others
        if neg(p) in fs:
            d = terms._monos(p)
            for k, c in sorted(d.items(), key=lambda z: -max([w.id for w in z[0]] or [0])):
                if len(k) == 1 and abs(c) == 1:
                    v = mul(num(-c), terms._frommonos({z: w for z, w in d.items() if z != k}))
                    if k[0] not in allsub(v).values() and (k[0] in allsub(x).values() or k[0] in allsub(y).values()):
                        x, y = norm(subst(x, {k[0]: v})), norm(subst(y, {k[0]: v}))
                        break
            if x is y:
                return True
    z = PROVER.simp(eq(x, y)) if x.op in NUMERIC and y.op in NUMERIC else None
    return z is TRUE


NUMERIC = ('P', 'n', 'sym', 'cell')


class Report:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obs = []
        self.known = load_known(pid)
        self.analysed = set()
        self.counts = {}
        self.notes = []
        self.t0 = time.time()
        self.t0m = time.monotonic()

    # ----------------------------------------------------------- recording
    def ob(self, name, verdict, where='', detail=''):
        self.obs.append((name, verdict, str(where), str(detail)))
        return verdict

    def seen(self, *fns):
        self.analysed.update(fns)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def need(self, cond, what):
        if not cond:
            raise ir.Missing(what)

    @contextlib.contextmanager
    def group(self, name, seconds=150):
        """obligations that are lost, as undecided, when the engine gives up on them"""
        n = (len(PROVER.stack), len(PROVER.lits), len(PROVER.keys))
        outer = LIMIT[0]
        LIMIT[0] = time.process_time() + seconds
        LIMIT[1] = self.t0m + 650
        try:
            yield
        except (Exception, OutOfTime) as x:
            if isinstance(x, ir.AnalysisBroken) and not isinstance(x, ir.Missing):
                raise
            del PROVER.stack[n[0]:], PROVER.lits[n[1]:], PROVER.keys[n[2]:]
            tb = traceback.extract_tb(x.__traceback__)
            w = tb[-1]
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            if isinstance(x, ir.Missing):
                self.ob(name + ': all it speaks of is found', None, '', str(x)[:300])
            else:
                self.ob(name + ': analysis finished', None, '', 'engine gave up: %s %s (%s:%d)' % (type(x).__name__, str(x)[:200], os.path.basename(w.filename), w.lineno))
        finally:
            LIMIT[0] = outer

    # ----------------------------------------------------------- comparisons
    def same(self, name, a, b, where='', assume=TRUE, detail=None, mach=False):
        """a and b denote the same value (where `assume` holds); mach: as 64-bit machine words"""
        if assume is FALSE:
            return self.ob(name, True, where)
        PROVER.push_cond(assume)
        try:
            if assume is not TRUE:
                a, b = prune(interp.restrict(a, assume), assume), prune(interp.restrict(b, assume), assume)
            if a is b:
                return self.ob(name, True, where)
            x, y = norm(a), norm(b)
            if assume is not TRUE:
                x, y = prune(x, assume), prune(y, assume)
        finally:
            PROVER.pop()
        if x is y or minmax(x) is minmax(y):
            return self.ob(name, True, where)
        if assume is not TRUE and any(z.op in ('cstr', 'strnlen', 'bytestr') for t in (x, y) for z in allsub(t).values()):
            c2, x2, y2 = strings(literals(assume), x, y)
            if x2 is not x or y2 is not y:
                import proto
                x2, y2 = norm(proto.canon(x2)), norm(proto.canon(y2))
                if x2 is y2:
                    return self.ob(name, True, where)
        why = imprecise(x, False) or imprecise(y, False)
        if why:
            return self.ob(name, None, where, 'value not determined (%s)' % why)
        un = unmodelled(x) - unmodelled(y)
        if un:
            return self.ob(name, None, where, 'value depends on a call that is not modelled (%s)' % short(min(un, key=lambda z: z.id), 120))
        PROVER.push_cond(assume)
        try:
            if agree(x, y):
                return self.ob(name, True, where)
        finally:
            PROVER.pop()
        s = randi.differ(x, y, assume=assume, mach=mach)
        if s is None:
            return self.ob(name, None, where, 'normal forms differ, no assignment tells them apart: %s / %s' % (short(x, 3000), short(y, 3000)))
        return self.ob(name, False, where, (detail + ': ' if detail else '') + 'computed %s, required %s' % (short(x, 700), short(y, 700)))

    def implies(self, name, c, g, where='', detail=None):
        """whenever c, also g"""
        bad = AND(c, NOT(g))
        bad = PROVER.simp(bad) if bad.op == 'I' else bad
        if bad is FALSE:
            return self.ob(name, True, where)
        w = cube(bad)
        if w is not None:
            bad = found(bad)
            w = cube(bad)
        for _ in range(24):
            # what the case says of strings may exclude it
            if w is None:
                break
            L = [(at, v) for at, v in w if any(x.op in ('strnlen', 'cstr', 'strlen', 'bytestr') for x in allsub(at).values())]
            if not L:
                break
            l = TRUE
            for at, v in L:
                l = AND(l, atom(at) if v else NOT(atom(at)))
            r = interp.restrict(bad, l)
            c2, r2 = strings(L, r)
            if r2 is r and c2 is l:
                break
            import proto
            if cube(AND(c2, proto.canon(r2))) is not None:
                break
            bad = AND(bad, NOT(l))
            w = cube(bad)
        if w is None:
            return self.ob(name, True, where)
        for at, v in w:
            why = imprecise(at)
            if why:
                return self.ob(name, None, where, 'condition not determined (%s)' % why)
            un = unmodelled(at) - unmodelled(g)
            if un:
                return self.ob(name, None, where, 'condition depends on a call that is not modelled (%s)' % short(min(un, key=lambda z: z.id), 120))
        return self.ob(name, False, where, (detail + ': ' if detail else '') + 'possible when ' + ' and '.join(short(showlit(a, v), 160) for a, v in w))

    def never(self, name, c, where='', detail=None):
        return self.implies(name, c, FALSE, where, detail)

    def equiv(self, name, c, g, where='', detail=None):
        r1 = self.implies(name + ' (only if)', c, g, where, detail)
        r2 = self.implies(name + ' (if)', g, c, where, detail)
        return r1 and r2

    # ----------------------------------------------------------- results
    def finish(self):
        viol, und, ok, known = [], [], 0, []
        for o in self.obs:
            if o[1] is True:
                ok += 1
            elif o[1] is None:
                und.append(o)
            else:
                k = [f for f in self.known if f['match'] in o[0] + ' ' + o[2]]
                (known if k else viol).append(o)
        for f in self.known:
            if any(f['match'] in o[0] + ' ' + o[2] for o in known):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, f['what']))
        verif = ir.VERIF
        os.makedirs(os.path.join(verif, 'evidence'), exist_ok=True)
        os.makedirs(os.path.join(verif, 'out'), exist_ok=True)
        rep = os.path.join('out', '%s.txt' % self.pid)
        with open(os.path.join(verif, rep), 'w') as f:
            for tag, l in (('VIOLATED', viol), ('KNOWN', known), ('UNDECIDED', und)):
                for n, _, w, d in l:
                    f.write('%s %s\n  at %s\n  %s\n' % (tag, n, w, d))
            for o in self.obs:
                if o[1] is True:
                    f.write('HOLDS %s%s\n' % (o[0], '  at ' + o[2] if o[2] else ''))
        cov = {
            'explanation': self.explain,
            'obligations': len(self.obs), 'discharged': ok,
            'undecided': [{'obligation': o[0], 'where': o[2], 'why': o[3][:300]} for o in und],
            'functions_analysed': sorted(self.analysed),
            'counts': self.counts,
            'samples': [o[0] + (' @ ' + o[2] if o[2] else '') for o in self.obs if o[1] is True][:12],
        }
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(viol),
              'reported': [{'obligation': o[0], 'where': o[2], 'detail': o[3][:1500]} for o in viol]}
        tmp = os.path.join(verif, 'evidence', '.%s.%d' % (self.pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(verif, 'evidence', self.pid + '.json'))
        print('%s: %d obligations, %d hold, %d violated, %d undecided (%.1f s)' % (self.pid, len(self.obs), ok, len(viol), len(und), time.time() - self.t0))
        for n, _, w, d in und:
            print('UNDECIDED %s @ %s: %s' % (n, w, d[:8000]))
        if viol:
            for n, _, w, d in viol[:20]:
                print('  violated: %s\n    at %s\n    %s' % (n, w, d[:1500]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rep))
            return 1
        if ok == 0 and not und:
            raise ir.AnalysisBroken('nothing was decided')
        return 0


def load_known(pid):
    p = os.path.join(ir.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == pid]


CHECKS = {}


def check(pid, explain):
    def deco(f):
        CHECKS[pid] = (f, explain)
        return f
    return deco


def main(argv):
    import glob
    import importlib
    pids = argv[1:]
    here = os.path.join(ir.VERIF, 'checks')
    sys.path.insert(0, here)
    for p in sorted(glob.glob(here + '/*.py')):
        importlib.import_module(os.path.basename(p)[:-3])
    rc = 0
    for pid in pids or sorted(CHECKS):
        if pid not in CHECKS:
            print('unknown check', pid)
            return 2
        f, explain = CHECKS[pid]
        R = Report(pid, os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick', int(os.environ.get('VERIF_SEED', '1') or 1))
        R.explain = explain
        broken = None
        try:
            with R.group(pid, 600):
                f(R)
        except ir.AnalysisBroken as x:
            broken = x
        try:
            r = R.finish()
            if broken is not None and r == 0:
                raise broken
        except ir.AnalysisBroken as x:
            print('%s: analysis broken: %s' % (pid, broken or x))
            r = 2
        rc = max(rc, r) if rc != 1 else 1
    return rc
