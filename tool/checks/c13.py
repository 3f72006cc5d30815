"""C13: new step sizes respect the limits of the controllers"""
from attempts import *
from implicit import mk, cfgname, scenario
from explicit import mk4
from ranges import Ranges, imul, hull, isect, INF
from engine_check import Obs, run_configs
from c10 import splitall, factor, decided, timeset, nonneg, Bound
import os
DEBUG = os.environ.get('C13DEBUG')
from c12 import Provenance
from c18 import getter

TECH = ('abstract interpretation for all histories; interval analysis of the quotient of the step sizes before and after every accepted and every failed attempt, under the comparisons decided on its path')
EXPL = ('Every path from a loop head back to it that makes an attempt gives a formula for the next step size in terms of the last. Its quotient is bounded by interval arithmetic over the formula and the comparisons '
        'decided on the path: within the limits of the controller, below one after a failed attempt, not above one when the attempt followed a failed one; only a step set to the distance left to the end is exempt. '
        'The growth is traced to the error value compared with one: a fourth root of it over the safety factor.')
LIMITS = {'rodas': (0.2, 6.0), 'radau': (0.2, 8.0), 'rock4': (0.1, 5.0)}


def inner(v, limit=6):
    """ite conditions inside minima, maxima and absolute values of v"""
    out = []

    def walk(p, d):
        if type(p) is not Poly or d < 0 or out:
            return
        for m, c in p.terms:
            for a, e in m:
                at = TM.atoms[a]
                if at.op == 'ite':
                    out.append(at.args[0])
                    return
                if at.op in ('min', 'max', 'abs'):
                    for x in at.args:
                        walk(x, d - 1)
    walk(v, limit)
    return out


def cases(pc, vals, limit=256):
    for p, vs in splitall(pc, vals, limit):
        c = []
        for v in vs:
            c = c or inner(v)
        if c and limit > 1:
            for q in (b_and(p, c[0]), b_and(p, b_not(c[0]))):
                if q != 0 and feasible(q):
                    yield from cases(q, vs, limit // 2)
        else:
            yield p, vs


class Quot:
    def __init__(self, given, sg):
        self.R = Ranges(given)
        self.sg = sg
        self.cap = None

    def bounds(self, v, H, pc, depth=6):
        """interval of v/H, where sg*H > 0; a cap independent of H (the length of the whole interval) is no lower limit"""
        if self.cap is not None and (vkey(v) == vkey(self.cap) or vkey(neg(v)) == vkey(self.cap)):
            if depth < 3:
                return INF, INF
            return INF, self.lits(v, H, pc, depth, (0.0, INF))[1]
        if vkey(v) == vkey(H):
            return 1.0, 1.0
        r = (-INF, INF)
        v = self.unabs(v, pc)
        k = factor(v, H)
        if k is not None:
            r = self.R.rng(k, pc)
            if r[0] > 0 and r[1] < INF:
                return self.lits(v, H, pc, depth, r) if depth == 6 else r
        s = self.R.rng(mul(self.sg, v), pc)
        if s[0] >= 0:
            r = isect(r, (0.0, INF))
        if type(v) is not Poly or depth == 0:
            return r
        if len(v.terms) == 1:
            m, c = v.terms[0]
            for a, e in m:
                at = TM.atoms[a]
                if e != 1 or at.op not in ('abs', 'min', 'max', 'ite'):
                    continue
                rest = TM._mk({tuple(x for x in m if x[0] != a): c}) if len(m) > 1 else c
                if at.op == 'ite':
                    t = None
                    for cnd, x in ((at.args[0], at.args[1]), (b_not(at.args[0]), at.args[2])):
                        p = b_and(pc, cnd)
                        if p != 0 and feasible(p):
                            b = self.bounds(mul(rest, x), H, p, depth - 1)
                            t = b if t is None else hull(t, b)
                    if t is not None:
                        r = isect(r, t)
                elif at.op == 'abs':
                    if not isnum(rest):
                        continue
                    # |u| * c
                    b = self.bounds(at.args[0], H, pc, depth - 1)
                    lo = 0.0 if b[0] <= 0 <= b[1] else min(abs(b[0]), abs(b[1]))
                    r = isect(r, imul((lo, max(abs(b[0]), abs(b[1]))), (float(rest) * self.sg,) * 2))
                else:
                    q = self.R.rng(rest, pc)
                    sgn = 1 if q[0] >= 0 else -1 if q[1] <= 0 else 0
                    if not sgn:
                        continue
                    bs = [self.bounds(mul(rest, x), H, pc, depth - 1) for x in at.args]
                    # multiplied by H of sign sg
                    f = min if (at.op == 'min') == (sgn * self.sg > 0) else max
                    r = isect(r, (f(b[0] for b in bs), f(b[1] for b in bs)))
        return self.lits(v, H, pc, depth, r)

    def unabs(self, v, pc):
        if type(v) is not Poly:
            return v
        for m, c in v.terms:
            for a, e in m:
                at = TM.atoms[a]
                if at.op != 'abs' or self.cap is not None and vkey(at.pol) == vkey(self.cap):
                    continue
                q = self.R.rng(at.args[0], pc)
                if q[0] >= 0 or q[1] <= 0:
                    u = at.args[0] if q[0] >= 0 else neg(at.args[0])
                    x = 1
                    for _ in range(abs(e)):
                        x = mul(x, u if e > 0 else TM.inv(u))
                    rest = TM._mk({tuple(y for y in m if y[0] != a): c}) if len(m) > 1 else c
                    return self.unabs(add(sub(v, TM._mk({m: c})), mul(rest, x)), pc)
        return v

    def lits(self, v, H, pc, depth, r):
        """comparisons with something bounded"""
        if depth < 3:
            return r
        G = mul(self.sg, v)
        if G.terms[0][0] == ():
            return r
        for p in decided(pc):
            p = self.unabs(p, pc)
            if type(p) is not Poly:
                continue
            cp = dict(p.terms)
            m, c = next(((m, c) for m, c in G.terms if m != ()), (None, None))
            if m is None or m not in cp:
                continue
            lam = float(c) / float(cp[m])
            # G - lam p: p <= 0
            u = mul(self.sg, sub(G, mul(lam, p)))
            if type(u) is Poly and len(u.terms) > 4 or vkey(u) == vkey(v):
                continue
            b = self.bounds(u, H, pc, depth - 2)
            if lam > 0:
                r = isect(r, (-INF, b[1]))
            else:
                r = isect(r, (b[0], INF))
        return r


def phiranges(a):
    """ranges of loop-head values that take constants only"""
    vals = {}
    for cid, gs in a.r.I.phiinc.items():
        for q in gs.values():
            for pid, vs in q['phi'].items():
                vals.setdefault(pid, []).extend(vs)
    out = {}

    def leaf(v, depth=0):
        """set of numbers and phis, None"""
        if isnum(v):
            return {float(v)}
        at = single(v) if type(v) is Poly else None
        if at is None or depth > 5:
            return None
        if at.op == 'phi':
            return {at.id}
        if at.op == 'ite':
            x, y = leaf(at.args[1], depth + 1), leaf(at.args[2], depth + 1)
            return None if x is None or y is None else x | y
        return None
    L = {p: [leaf(v) if v is not None else None for v in vs] for p, vs in vals.items()}
    L = {p: set().union(*l) for p, l in L.items() if l and all(x is not None for x in l)}
    for p in L:
        seen, todo, nums, ok = {p}, [p], set(), True
        while todo:
            for x in L[todo.pop()]:
                if type(x) is float:
                    nums.add(x)
                elif x in seen:
                    pass
                elif x in L:
                    seen.add(x)
                    todo.append(x)
                else:
                    ok = False
        if ok and nums:
            out[p] = (min(nums), max(nums))
    return out


class Came(Provenance):
    """how the attempt came about whose step size a loop head holds: entered, or after a failed or an accepted attempt"""

    def __init__(self, H, kinds):
        self.H = H
        self.kinds = kinds

    def of(self, h, pc):
        at = single(h) if type(h) is Poly else None
        out = set()
        if at is None or at.op != 'phi':
            return {'other'}
        self.walk(at, pc, out, set())
        return out

    def walk(self, at, pc, out, seen):
        if at.id in seen:
            return
        seen.add(at.id)
        for s, v, entry in self.groups(at, pc):
            k = self.kinds.get(id(s))
            if k:
                out.add(k)
                continue
            q = single(v) if type(v) is Poly else None
            if q is not None and q.op == 'phi':
                self.walk(q, s.pc, out, seen)
            else:
                out.add('other')


def powers(v, e=1.0):
    """v = c * product of bases to real exponents: (c, {key: (base, exponent)}); bases are atoms or normalised sums"""
    if isnum(v):
        return float(v) ** e, {}
    out = {}

    def put(k, b, x):
        out[k] = (b, out[k][1] + x if k in out else x)
    if len(v.terms) > 1:
        ms = [dict(m) for m, c in v.terms]
        g = {a: (min if ms[0][a] > 0 else max)(x.get(a, 0) for x in ms) for a in ms[0] if all(x.get(a, 0) * ms[0][a] > 0 for x in ms)}
        if g:
            gm = TM._mk({tuple(sorted(g.items())): 1})
            c1, o1 = powers(gm, e)
            c2, o2 = powers(TM._mk({tuple(sorted((a, k - g.get(a, 0)) for a, k in m if k != g.get(a, 0))): c for m, c in v.terms}), e)
            for q, (b, x) in o1.items():
                o2[q] = (b, x + (o2[q][1] if q in o2 else 0))
            return c1 * c2, {q: t for q, t in o2.items() if abs(t[1]) > 1e-12}
        l = float(v.terms[0][1])
        b = mul(1 / l, v)
        put(tuple(sorted((m, round(float(c), 10)) for m, c in b.terms)), b, e)
        return abs(l) ** e, out
    m, c = v.terms[0]
    c = abs(float(c)) ** e
    for a, k in m:
        at = TM.atoms[a]
        if at.op in ('sqrt', 'den'):
            c2, o2 = powers(at.args[0], e * k * (0.5 if at.op == 'sqrt' else 1))
        elif at.op == 'pow' and isnum(at.args[1]):
            c2, o2 = powers(at.args[0], e * k * float(at.args[1]))
        else:
            c2, o2 = 1.0, {('a', a): (at.pol, e * k)}
        c *= c2
        for q, (b, x) in o2.items():
            put(q, b, x)
    return c, {q: t for q, t in out.items() if abs(t[1]) > 1e-12}


def leaves(k, want, Q, p, up=()):
    """[(leaf, operations above it)] of a quotient built from minima, maxima and choices"""
    k = Q.unabs(k, p)
    if type(k) is Poly and len(k.terms) == 1:
        m, c = k.terms[0]
        big = [(a, e) for a, e in m if TM.atoms[a].op in ('min', 'max') and abs(e) == 1 and holds(TM.atoms[a].pol, want)]
        if len(big) == 1:
            a, e = big[0]
            rest = TM._mk({tuple(y for y in m if y[0] != a): c}) if len(m) > 1 else c
            op = TM.atoms[a].op
            if e == -1:
                op = 'min' if op == 'max' else 'max'
            if op == 'max' and sum(1 for x in TM.atoms[a].args if type(x) is Poly and holds(x, want)) < 2:
                op = 'limit'
            for x in TM.atoms[a].args:
                yield from leaves(mul(rest, x if e == 1 else TM.inv(x)), want, Q, p, up + (op,))
            return
    yield k, up


def formula(o, key, want, k, p, Q, where, safe):
    """the quotient k is, up to constant limits and further reductions, safe * err^(-1/4)"""
    if isnum(k) or not holds(k, want):
        return
    norms = {}
    for q in decided(p):
        if type(q) is not Poly or not holds(q, want):
            continue
        q = TM.simp(q, p)
        if type(q) is not Poly:
            continue
        b = [float(c) for m, c in q.terms if m == ()]
        rest = TM._mk({m: c for m, c in q.terms if m != ()})
        if len(b) != 1 or isnum(rest):
            continue
        c, pw = powers(rest)
        if len(pw) != 1:
            continue
        (bk, (base, e)), = pw.items()
        # a sum of squares enters the norm by its root; anything else compared with one is the norm itself
        if bk[0] != 'a' and e in (0.5, 1.0):
            norms.setdefault(bk, []).append(((c / abs(b[0])) ** (0.5 / e), 0.5))
        elif e == 1.0 and bk[0] == 'a' and abs(abs(b[0]) / c - 1) < 1e-9:
            norms.setdefault(bk, []).append((c / abs(b[0]), 1.0))
    ls = list(leaves(k, want, Q, p))
    got, gus, bad = 0, 0, None
    for l, up in ls:
        if isnum(l) or not holds(l, want):
            continue
        c, pw = powers(l)
        hit = [q for q in pw if q in norms]
        if len(hit) != 1:
            if 'max' in up:
                bad = bad or 'holds something else than the error: %s' % show(l, 3)[:100]
            continue            # a further reduction
        q = hit[0]
        pe = pw[q][1] / norms[q][0][1]
        if abs(pe + 0.25) < 1e-9:
            rest = 1
            for q2, (b, e) in pw.items():
                if q2 != q:
                    if abs(e - round(e)) > 1e-9:
                        bad = bad or 'holds an unexpected power'
                        continue
                    for _ in range(abs(round(e))):
                        rest = mul(rest, b if e > 0 else TM.inv(b))
            # c * base^-1/8 * rest against safe * (norms*base^1/2)^-1/4
            f = Q.R.rng(rest, p)
            ws = [(c / x ** -0.25 * f[0], c / x ** -0.25 * f[1]) for x, e in norms[q]]
            w = ws[0]
            if not any(w[1] <= safe * (1 + 1e-9) and w[0] >= 0 and not (isnum(rest) and abs(w[0] / safe - 1) > 1e-9) for w in ws):
                bad = bad or 'the factor before the fourth root of the error is %g to %g, not the safety factor %g' % (w + (safe,))
            got += 1
            if 'max' in up:
                bad = bad or 'the larger of two predictions is taken'
        elif abs(pe + 0.5) < 1e-9:
            gus += 1            # the predictive controller; the error's own prediction then is at its limit
        else:
            bad = bad or 'the error enters with the power %g' % pe
    o.ob('the next step follows the error to the power -1/4', bad is None and got + gus > 0, key + '/formula', 'the step is multiplied by %s: %s' % (show(k, 3)[:120], bad), where)


def steps_of(H):
    """[(pc, base time, step used or candidates for it, next step, attempts, kind, where, attempts at heads)]"""
    a = H.a
    steps = {}
    for d in H.tr.out:
        if d['kind'] == 'step' and d['at'] != 'return' and d['x1'] is not None:
            steps.setdefault(id(d['state']), []).append(d)
    H0, n0 = [], set()
    for cid, h in a.r.I.heads.items():
        for _, s in h['H']:
            if 'self' in s.mem:
                H0.append((s.pc, TM.simp(getter(a, s, 'h_last'), s.pc)))
                n0.add(vkey(TM.simp(getter(a, s, 'h_nstep'), s.pc)))
    for cid, h in a.r.I.heads.items():
        for s in h['backs']:
            if 'self' not in s.mem:
                continue
            v, k = getter(a, s, 'h_last'), getter(a, s, 'h_nstep')
            for d in steps.get(id(s), ()):
                yield b_and(s.pc, d['pc']), d['base'][0], sub(d['x1'], d['base'][0]), v, k, 'step', 'back edge ' + h['loc'], n0, s
            if id(s) not in steps:
                yield s.pc, a.xy(s)[0], H0, v, k, 'fail', 'back edge ' + h['loc'], n0, s


def implicit_run(o, c):
    H = Hist(c)
    a = H.a
    key = c['which']
    xend = sym('xend')
    lo, hi = LIMITS[key]
    back = TM.lt0(sub(xend, a.x0), False)
    given = {p: (0.0, INF) for p in nonneg(a)}
    given.update(phiranges(a))
    count = {'step': 0, 'fail': 0}
    after = set()
    all_ = list(steps_of(H))
    kinds = {}
    for pc, base, H0, v, k, kind, where, n0, s in all_:
        if kind == 'fail':
            vs = [(vkey(w), vkey(kk)) for p, (w, kk) in cases(pc, [v, k])]
            hs = {vkey(x) for q, x in H0}
            if all(kk in n0 and w in hs for w, kk in vs):
                continue
        kinds[id(s)] = kind
    prov = Came(H, kinds)
    for sg, cond in ((1, b_not(back)), (-1, back)):
        Q = Quot(dict(given), sg)
        for pc, base, H0, v, k, kind, where, n0, s in all_:
            pc = b_and(pc, cond)
            if pc == 0 or not feasible(pc):
                continue
            if kind == 'step':
                for p, (w, b, hh) in cases(pc, [v, base, H0]):
                    done(o, Q, key, xend, a, p, w, b, hh, lo, hi, where, prov, count, after, sg)
            else:
                for p, (w, b, kk) in cases(pc, [v, base, k]):
                    cand = [TM.simp(x, b_and(p, q)) for q, x in H0 if feasible(b_and(p, q))]
                    if vkey(kk) in n0 and any(vkey(w) == vkey(x) for x in cand):
                        continue        # no attempt was completed
                    count['fail'] += 1
                    best = None
                    for x in cand:
                        for x2 in {vkey(y): y for _, (y,) in cases(p, [x], 16)}.values():
                            if factor(w, x2) is None:
                                continue
                            g = dict(given)
                            at = single(x2) if type(x2) is Poly else None
                            if at is not None and at.op == 'phi':
                                g[at.id] = (0.0, INF) if sg > 0 else (-INF, 0.0)
                            r = Quot(g, sg).bounds(w, x2, p)
                            if best is None or r[1] < best[1]:
                                best, bk = r, (factor(w, x2), g)
                    if best is not None and not best[1] < 1 and Bound(sg, given).absurd(p):
                        continue
                    if best is None:
                        o.ob('a failed attempt is followed by a smaller step', False, key + '/failed', 'after a failed attempt the step becomes %s, which is no multiple of the step that failed' % show(w, 3)[:120], where)
                        continue
                    if DEBUG and not best[1] < 1:
                        print('FAIL', best, show(w, 5)[:300], '| DEC', [show(x, 4)[:200] for x in decided(p)])
                    if key == 'rodas' or H.verdict(H.tests_of(p), 'err') is False:
                        formula(o, key, issolve, bk[0], p, Quot(bk[1], sg), where, 0.9)
                    o.ob('a failed attempt is followed by a smaller step', best[1] < 1 and best[0] >= 0, key + '/failed',
                         'after a failed attempt the step can become %s to %s times the one that failed' % best, where)
    if not count['step'] or not count['fail']:
        o.skip('%d accepted and %d failed attempts found' % (count['step'], count['fail']))
    if 'fail' not in after:
        o.skip('no step following a rejection found')
    return o


def cap(a):
    return atom('abs', (sub(sym('xend'), a.x0),)).pol


def done(o, Q, key, xend, a, p, w, b, hh, lo, hi, where, prov, count, after, sg):
    count['step'] += 1
    if vkey(w) == vkey(sub(xend, add(b, hh))):
        o.ob('the step left to the end is exempt')
        return
    at = single(hh) if type(hh) is Poly else None
    g = {}
    if at is not None and at.op == 'phi':
        Q = Quot({**Q.R.given, at.id: (0.0, INF) if sg > 0 else (-INF, 0.0)}, sg)
    Q.cap = cap(a)
    r = Q.bounds(w, hh, p)
    if not (r[0] >= lo * (1 - 1e-9) and r[1] <= hi * (1 + 1e-9)) and Bound(sg, Q.R.given).absurd(p):
        return
    if DEBUG and not (r[0] >= lo * (1 - 1e-9) and r[1] <= hi * (1 + 1e-9)):
        print('LIM', r, show(w, 5)[:300], '| OLD', show(hh, 4)[:100], '| DEC', [show(x, 3)[:200] for x in decided(p)])
    o.ob('an accepted step grows and shrinks within the limits', r[0] >= lo * (1 - 1e-9) and r[1] <= hi * (1 + 1e-9), key + '/limits', 'after an accepted step the next one can be %g to %g times as long, the limits being %g and %g' % (r + (lo, hi)), where)
    k = factor(Q.unabs(w, p), hh)
    if k is not None:
        formula(o, key, issolve, k, p, Q, where, 0.9)
    pr = prov.of(hh, p)
    if DEBUG:
        print('PROV', sorted(pr), show(hh, 2)[:50], r)
    if 'fail' in pr and 'step' not in pr:
        after.add('fail')
        o.ob('a step following a rejection does not grow', r[1] <= 1 + 1e-9, key + '/after rejection', 'the step following a rejected attempt can be %g times as long as the one accepted' % r[1], where)


def analyse(c):
    o = Obs()
    return rock4(o, c) if 'deg' in c else implicit_run(o, c)


def rock4(o, c):
    """the step size is the loop value that accepted steps multiply the right-hand side with"""
    H = Hist(c)
    a = H.a
    key = 'rock4'
    tend = sym('tend')
    fwd = TM.lt0(sub(sym('t0'), tend), False)
    T = timeset(a, sym('t0'))
    lo, hi = LIMITS[key]
    given = {p: (0.0, INF) for p in nonneg(a)}
    given.update(phiranges(a))
    acc = {}
    for d in H.tr.out:
        if d['kind'] == 'step' and d['at'] != 'return':
            hs = 0
            for m, k in d['y1'][0].terms:
                fs = [x for x in m if TM.atoms[x[0]].op == 'el']
                if len(fs) == 1:
                    rest = tuple(x for x in m if x != fs[0])
                    hs = add(hs, TM._mk({rest: k}) if rest else k)
            acc.setdefault(id(d['state']), []).append((d['pc'], hs))
    # the step: a loop value the accepted steps are equal to
    step, used = {}, {}
    for l in acc.values():
        for pc, hs in l:
            for p, (h,) in splitall(pc, [hs]):
                h = trim(h)
                if not isnum(h):
                    used[vkey(h)] = h
                at = single(h) if type(h) is Poly else None
                if at is not None and at.op == 'phi':
                    step[at.id] = at.args[0]
    if not step:
        o.skip('the step size was not found among the loop values')
        return o
    times = [sym('t0')] + list(T.values())
    rows = []
    for cid in set(step.values()):
        for g, q in a.r.I.phiinc.get(cid, {}).items():
            ids = [i for i in q['phi'] if step.get(i) == cid]
            for i in ids:
                for k, (s, e) in enumerate(q['sts']):
                    if not e:
                        rows.append((cid, i, q, k, s))
    kinds = {id(s): 'step' if id(s) in acc else 'fail' for cid, i, q, k, s in rows}
    prov = Came(H, kinds)
    n = {'step': 0, 'fail': 0}
    after = set()
    for cid, i, q, k, s in rows:
        loc = 'back edge ' + a.r.I.heads[cid]['loc'] if cid in a.r.I.heads else '?'
        v = q['phi'][i][k]
        tn = [q['phi'][t][k] for t in T if t in q['phi']]
        for pc0, hs in acc.get(id(s), [(1, None)]):
            pc = b_and(b_and(s.pc, pc0), fwd)
            if pc == 0 or not feasible(pc):
                continue
            for p, vs in cases(pc, [v, 0 if hs is None else hs] + tn):
                w, hh = vs[0], trim(vs[1])
                steps = [TM.atoms[x].pol for x in step]
                g = {**given, **{x: (0.0, INF) for x in step}}
                Q = Quot(g, 1)
                if hs is not None:
                    if any(vkey(w) == vkey(x) for t in vs[2:] + times for u in (sub(tend, t), sub(t, tend)) for x in (u, atom('abs', (u,)).pol)):
                        o.ob('the step left to the end is exempt')
                        continue
                    n['step'] += 1
                    r = Q.bounds(w, hh, p)
                    if r[0] > r[1] or not (r[0] >= lo * (1 - 1e-9) and r[1] <= hi * (1 + 1e-9)) and Bound(1, g).absurd(p):
                        continue        # no values satisfy the conditions of the path
                    if DEBUG:
                        print('R4', r, show(w, 5)[:200], '| OLD', show(hh, 3)[:60])
                    o.ob('an accepted step grows and shrinks within the limits', r[0] >= lo * (1 - 1e-9) and r[1] <= hi * (1 + 1e-9), key + '/limits',
                         'after an accepted step the next one can be %g to %g times as long, the limits being %g and %g' % (r + (lo, hi)), loc)
                    for x in steps:
                        pr = prov.of(x, p)
                        if 'fail' in pr and 'step' not in pr:
                            after.add('fail')
                            o.ob('a step following a rejection does not grow', r[1] <= 1 + 1e-9, key + '/after rejection', 'the step following a rejected attempt can be %g times as long as the one accepted' % r[1], loc)
                else:
                    if any(vkey(w) == vkey(x) for x in steps):
                        continue
                    n['fail'] += 1
                    best = None
                    left = [x for t in times for x in (sub(tend, t), atom('abs', (sub(tend, t),)).pol, atom('abs', (sub(t, tend),)).pol)]
                    for x in steps + list(used.values()) + left:
                        r = Q.bounds(w, x, p)
                        if best is None or r[1] < best[1]:
                            best = r
                    if not best[1] < 1 and Bound(1, g).absurd(p):
                        continue
                    if DEBUG:
                        print('R4F', best, show(w, 5)[:200], [show(x, 6)[:300] for x in decided(p)])
                    o.ob('a failed attempt is followed by a smaller step', best[1] < 1 and best[0] >= 0, key + '/failed', 'after a failed attempt the step can become %g to %g times the one that failed' % best, loc)
    if not n['step'] or not n['fail']:
        o.skip('%d accepted and %d failed attempts found' % (n['step'], n['fail']))
    if 'fail' not in after:
        o.skip('no step following a rejection found')
    return o


def trim(h):
    """without the rounding of the coefficients"""
    if type(h) is not Poly:
        return h
    d = {m: (round(float(c)) if abs(float(c) - round(float(c))) < 1e-8 else c) for m, c in h.terms}
    d = {m: c for m, c in d.items() if c}
    return TM._mk(d) if d else 0


def configs(tier):
    out = [mk(), mk(method=2, aut=False), mk(n=4, sub=1, sup=2, method=3), mk(which='radau', nit=2), mk(which='radau', nit=3), mk(which='radau', n=3, hess=True, stub=True, nit=2), mk4(deg=5), mk4(deg=3)]
    if tier == 'thorough':
        out += [mk(which='radau', n=4, sub=1, sup=2, nit=2), mk(method=3, aut=False, dft=True), mk(n=3, hess=True, stub=True)]
    return out


def name(c):
    return 'Rock4 %d stages' % c['deg'] if 'deg' in c else cfgname(c)


def run(tier):
    return run_configs('C13', tier, TECH, EXPL, analyse, configs(tier), name, 800 if tier == 'thorough' else 300)
