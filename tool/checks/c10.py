"""C10: no step goes beyond the requested end; integration ends exactly there"""
from attempts import *
from implicit import mk, cfgname
from explicit import mk4, mkl
from ranges import Ranges
from engine_check import Obs, run_configs

TECH = ('abstract interpretation for all histories; inductive argument over the values step size and time can take at loop heads: every step size is exactly the remaining distance, or bounded by it through '
        'comparisons decided on the path, or a reduction of such a step from the same point')
EXPL = ('The adaptive integrators are interpreted abstractly from construction to return with symbolic start, end, initial step, problem and history, for both directions of time where these are supported. '
        'Every step size used at an accepted point is traced through the values flowing into the loop heads; each must equal the distance to the end, be bounded by it by comparisons decided on its path, '
        'or be obtained by shrinking a step bounded before from the same point. Returned times must be the end or the end up to a rounding of the last addition.')


import os
DEBUG = os.environ.get('C10DEBUG')


DEC = {}


def decided(pc):
    """[p] with p <= 0 implied by pc"""
    if pc in DEC:
        return DEC[pc]
    DEC[pc] = out = []
    for x in b_support(pc):
        kind, p = TM.bvars[x]
        if kind not in ('L', 'G', 'ilt') or type(p) is not Poly:
            continue
        t = b_and(pc, TM.bdd_node(x, 0, 1))
        f = b_and(pc, TM.bdd_node(x, 1, 0))
        tp, fp = t != 0 and feasible(t), f != 0 and feasible(f)
        if tp == fp:
            continue
        low = tp if kind in ('L', 'ilt') else fp
        q = TM.simp(p, pc)
        if type(q) is not Poly:
            continue
        out.append(q if low else neg(q))
        if q is not p:
            out.append(p if low else neg(p))
    return out


class Bound:
    """bounds of step sizes for one direction of time"""

    def __init__(self, sg, given=None):
        self.sg = sg
        self.R = Ranges(given or {})

    def pos(self, v, pc):
        return self.R.rng(v, pc)[0] >= 0

    def points(self, v, dist, pc, b, S):
        if self.pos(mul(self.sg, v), pc):
            return True
        for h in [dist] + [h for bb, h in S.done.values()]:
            k = factor(v, h)
            if k is not None and self.pos(k, pc) and self.pos(mul(self.sg, h), pc):
                return True
        return False

    def raw(self, v, pc):
        """range of v from the ranges of its atoms only"""
        from ranges import imul, ipow
        lo = hi = 0.0
        for m, c in v.terms:
            iv = (1.0, 1.0)
            for a, e in m:
                at = self.R.atom(a, pc, 10)
                if at[0] > at[1] * (1 + 1e-9) + 1e-12:
                    return float('inf'), float('inf')       # no value at all satisfies the conditions
                iv = imul(iv, ipow(at, e))
            iv = imul(iv, (float(c), float(c)))
            lo, hi = lo + iv[0], hi + iv[1]
        return lo, hi

    def absurd(self, pc):
        """does a comparison decided in pc contradict the ranges of what is compared"""
        for p in decided(pc):
            r = self.raw(p, pc)
            if r[0] > 1e-9:
                return True
        return False

    def nonpos(self, v, pc):
        return self.R.rng(v, pc)[1] <= 0

    def beyond(self, dist, H, pc, prev):
        """can the step H (towards the end when sg*H>0) exceed dist?  False: no"""
        G = mul(self.sg, sub(H, dist))
        if isnum(G):
            return G > 0
        for u in self.uppers(G, pc):
            if isnum(u) and u <= 0 or not isnum(u) and self.nonpos(u, pc):
                return False
        lits = decided(pc)
        anch = [m for m, c in (dist.terms if type(dist) is Poly else ()) if m != ()]
        if not anch:
            return True
        for p in lits:
            cg = dict(G.terms)
            cp = dict(p.terms)
            # the multiple of p that removes the end time
            m = next((m for m in anch if m in cp and m in cg), None)
            if m is None:
                continue
            lam = float(cg[m]) / float(cp[m])
            if lam <= 0:
                continue
            r = clean(sub(G, mul(lam, p)))
            if isnum(r):
                if r <= 0:
                    return False
                continue
            if self.nonpos(r, pc):
                return False
            if isnum(r):
                if r <= 0:
                    return False
                continue
            # products of comparisons of ratios with a positive step
            for h in prev:
                hp = mul(self.sg, h)
                if not self.pos(hp, pc):
                    continue
                for q in lits:
                    w = clean(sub(r, mul(lam, mul(q, hp))))
                    if isnum(w) and w <= 0 or not isnum(w) and self.nonpos(w, pc):
                        return False
        return True

    def uppers(self, G, pc, depth=3):
        """upper bounds of G: minima and absolute values replaced by what bounds them"""
        yield G
        if type(G) is not Poly or depth == 0:
            return
        for m, c in G.terms:
            for a, e in m:
                at = TM.atoms[a]
                if e != 1 or at.op not in ('min', 'max', 'abs'):
                    continue
                rest = TM._mk({tuple(x for x in m if x[0] != a): c}) if len(m) > 1 else c
                r = self.R.rng(rest, pc)
                if at.op == 'abs':
                    q = self.R.rng(at.args[0], pc)
                    alts = [at.args[0]] if q[0] >= 0 else [neg(at.args[0])] if q[1] <= 0 else []
                elif at.op == 'min' and r[0] >= 0 or at.op == 'max' and r[1] <= 0:
                    alts = at.args
                else:
                    alts = []
                for b in alts:
                    g = add(sub(G, TM._mk({m: c})), mul(rest, b))
                    for u in self.uppers(g, pc, depth - 1):
                        yield u
                if alts:
                    return

    def bounded(self, H, b, dist, pc, others, facts):
        if vkey(H) == vkey(dist):
            return True
        p = b_and(pc, facts)
        return not self.beyond(dist, H, p, others)

    def shrunk(self, H, b, dist, prev, pc, others, facts, ih):
        """is |H| at most the one of a previous step that is bounded itself"""
        pc0 = pc
        pc = b_and(pc, facts)
        for h in prev:
            if vkey(h) == vkey(H) or not (ih(b, h) or self.bounded(h, b, dist, pc0, others, facts)):
                continue
            d = mul(self.sg, sub(H, h))
            if isnum(d) and d <= 0 or not isnum(d) and self.nonpos(d, pc):
                return True
            k = factor(H, h)
            if k is not None:
                lo, hi = self.R.rng(k, pc)
                if lo >= 0 and hi <= 1:
                    return True
        return False


def factor(v, base):
    """k with v == k*base, or None"""
    if isnum(base) or type(v) is not Poly:
        return None
    m0 = base.terms[0][0]
    for m, c in v.terms:
        k = TM._mk({m: c})
        d = dict(m)
        ok = True
        for a, e in m0:
            d[a] = d.get(a, 0) - e
            if not d[a]:
                del d[a]
        q = TM._mk({tuple(sorted(d.items())): c / base.terms[0][1]}) if d else c / base.terms[0][1]
        if True:
            w = sub(v, mul(q, base))
            if isnum(w) and w == 0 or type(w) is Poly and all(abs(float(c2)) < 1e-12 for mm, c2 in w.terms):
                return q
    return None


def clean(p):
    if type(p) is not Poly:
        return p
    big = max(abs(float(c)) for m, c in p.terms)
    d = {m: c for m, c in p.terms if abs(float(c)) > 1e-12 * max(big, 1.0)}
    return TM._mk(d) if d else 0


def nonneg(a):
    """loop-head values that are zero or positive: sums of such with constants that are not negative"""
    vals = {}
    for cid, gs in a.r.I.phiinc.items():
        for q in gs.values():
            for pid, vs in q['phi'].items():
                vals.setdefault(pid, []).extend(vs)
    def fine(v, cand, depth=0):
        if isnum(v):
            return v >= 0
        if type(v) is not Poly or depth > 4:
            return False
        for m, c in v.terms:
            if m == ():
                if c < 0:
                    return False
                continue
            if len(m) != 1 or m[0][1] != 1 or c < 0:
                return False
            at = TM.atoms[m[0][0]]
            if at.op == 'phi' and at.id in cand:
                continue
            if at.op == 'ite' and all(fine(x, cand, depth + 1) for x in at.args[1:]):
                continue
            return False
        return True
    cand = set(vals)
    while True:
        bad = {p for p in cand if not all(fine(v, cand) for v in vals[p])}
        if not bad:
            return cand
        cand -= bad


def conds(v):
    return topites(v, []) if type(v) is Poly else []


def splitall(pc, vals, limit=64):
    vals = [TM.simp(x, pc) for x in vals]
    for x in vals:
        c = conds(x)
        if c and limit > 1:
            out = []
            for q in (b_and(pc, c[0]), b_and(pc, b_not(c[0]))):
                if q != 0 and feasible(q):
                    out += splitall(q, vals, limit // 2)
            return out
    return [(pc, vals)]


def entered(a):
    """what is known of the groups of head states that are entered only, never returned to"""
    F = 1
    for cid, gs in a.r.I.phiinc.items():
        for g, q in gs.items():
            if q['sel'] != 1 and all(e for s, e in q['sts']):
                pc = 0
                for s, e in q['sts']:
                    pc = b_or(pc, s.pc)
                F = b_and(F, b_or(b_not(q['sel']), pc))
    return F


class Steps:
    """the step sizes of a run, with the values they can have at loop heads"""

    def __init__(self, H, o, key):
        self.H, self.o, self.key = H, o, key
        self.a = H.a
        self.todo, self.done, self.pcs = [], {}, {}

    def add(self, base, h, pc, at):
        k = (vkey(base), vkey(h))
        old = self.pcs.get(k, 0)
        new = b_or(old, pc)
        if new != old:
            self.done[k] = (base, h)
            self.pcs[k] = new
            self.todo.append((base, h, new, at))

    def incoming(self, base, h, pc):
        """[(pc, base value, step value, where, base kept)] for a step that is a loop-head value; None when it is none"""
        ph = single(h)
        if ph is None or ph.op != 'phi':
            return None
        cid = ph.args[0]
        out = []
        loc = self.a.r.I.heads[cid]['loc'] if cid in self.a.r.I.heads else '?'
        for g, q in self.a.r.I.phiinc.get(cid, {}).items():
            if ph.id not in q['phi'] or not feasible(b_and(pc, q['sel'])):
                continue
            for k, (s, e) in enumerate(q['sts']):
                v = q['phi'][ph.id][k]
                b = self.a.xy(s)[0]
                if v is None or b is None:
                    self.o.skip('a value of the step is missing at a loop head')
                    continue
                out.append((s, v, b, ('entry ' if e else 'back edge ') + loc, e))
        return out


def check(o, H, key, sg, cond, xend, used):
    """used: [(pc, base time, step, where)] the steps attempted or taken"""
    S = Steps(H, o, key)
    word = 'forward' if sg > 0 else 'backward'
    for pc, b, h, at in used:
        S.add(b, h, pc, at)
    given = {}
    n = 0
    # signs of loop-head steps are the induction hypothesis
    def given_of():
        g = {p: (0.0, float('inf')) for p in nonneg(H.a)}
        for b, h in S.done.values():
            p = single(h) if type(h) is Poly else None
            if p is not None and p.op == 'phi':
                g[p.id] = (0.0, float('inf')) if sg > 0 else (-float('inf'), 0.0)
        return g
    seen, known = [], set()
    while S.todo:
        b, h, pc, at = S.todo.pop()
        inc = S.incoming(b, h, pc)
        if inc is None:
            inc = [(None, h, b, at, True)]
        for s, v, bb, where, e in inc:
            p0 = b_and(s.pc if s is not None else pc, cond)
            if p0 == 0 or not feasible(p0):
                continue
            for p, (v1, b1) in splitall(p0, [v, bb]):
                at1 = single(v1) if type(v1) is Poly else None
                if at1 is not None and at1.op == 'phi' and isbase([b1]):
                    S.add(b1, v1, p, where)
                k = (p, vkey(v1), vkey(b1), where, s is None)
                if k not in known:
                    known.add(k)
                    seen.append((p, v1, b1, where, s is None))
    B = Bound(sg, given_of())

    def before(t):
        return b_not(TM.lt0(mul(sg, sub(xend, t)), False))

    def ih(b, h):
        p = single(h) if type(h) is Poly else None
        return p is not None and p.op == 'phi' and (vkey(b), vkey(h)) in S.done
    # what holds at loop heads: no base point lies beyond the end, nor does a step kept from there
    hyp = entered(H.a)
    for b, h in S.done.values():
        hyp = b_and(hyp, before(b))
        if ih(b, h):
            hyp = b_and(hyp, before(add(b, h)))
    for p, v, b, where, direct in seen:
        n += 1
        facts = hyp
        if not isbase([b]):
            facts = b_and(facts, before(b))     # reached by a step that is an obligation of its own
        dist = sub(xend, b)
        q = b_and(p, facts)
        if q == 0 or not feasible(q):
            continue
        o.ob('steps point to the end', B.points(v, dist, q, b, S) or B.absurd(q), key + '/direction', 'integrating %s, a step can be %s, which is not shown to point to the end' % (word, show(v, 3)[:120]), where)
        prev = [TM.simp(h, q) for bb, h in S.done.values() if vkey(bb) == vkey(b)]
        others = [TM.simp(h, q) for bb, h in S.done.values()]
        if ih(b, v) and not direct and isbase([b]):
            o.ob('a step does not go beyond the end')
            continue
        if direct and ih(b, v):
            continue
        ok = B.bounded(v, b, dist, p, others, facts) or B.shrunk(v, b, dist, prev, p, others, facts, ih) or B.absurd(q)
        if not ok:
            if DEBUG:
                print(show(v, 6)[:300], [show(x, 4)[:300] for x in decided(q) if 'xend' in show(x, 5)])
        o.ob('a step does not go beyond the end', ok, key + '/beyond', 'integrating %s from %s, a step %s can be taken that no decision on its path keeps from going beyond the end' % (word, show(b, 1)[:40], show(v, 3)[:100]), where)
    return n, S


def tiny(p):
    """a*|xend-x| - b*|x| with b/a below 1e-13"""
    if type(p) is not Poly or len(p.terms) != 2:
        return False
    cs = sorted(((float(c), m) for m, c in p.terms), key=lambda t: -t[0])
    (a, ma), (b, mb) = cs
    if not (a > 0 > b and all(len(m) == 1 and m[0][1] == 1 and TM.atoms[m[0][0]].op == 'abs' for m in (ma, mb))):
        return False
    return -b / a < 1e-13


def implicit_run(o, c):
    H = Hist(c)
    a = H.a
    key = c['which']
    xend = sym('xend')
    used = []
    for e in a.events:
        if e['kind'] != 'rhs':
            continue
    for d in H.tr.out:
        if d['kind'] == 'step' and d['x1'] is not None:
            used.append((d['pc'], d['base'][0], sub(d['x1'], d['base'][0]), d['at']))
        elif d['kind'] == 'step':
            o.skip('time of a step unknown')
    if not used:
        o.skip('no step found')
    back = TM.lt0(sub(xend, a.x0), False)
    phis = []
    for sg, cond in ((1, b_not(back)), (-1, back)):
        if c.get('sg', sg) != sg:
            continue
        n, S = check(o, H, key, sg, cond, xend, used)
        S.sg = sg
        phis.append(S)
        if n < 3:
            o.skip('only %d step values found' % n)
    # what is returned
    nr = 0
    for d in H.tr.out:
        if d['at'] != 'return':
            continue
        if phis[0].sg != 1:
            break
        for p, (x1, b) in splitall(d['pc'], [d['x1'], d['base'][0] if d['base'] else d['x1']]):
            nr += 1
            if vkey(x1) == vkey(xend):
                o.ob('the returned time is the end time')
                continue
            # unless the rest is a rounding error
            rest = p
            for z in b_support(p):
                kind, pz = TM.bvars[z]
                if kind not in ('L', 'G') or type(pz) is not Poly:
                    continue
                pq = TM.simp(pz, p)
                for w, low in ((pq, TM.bdd_node(z, 0, 1)), (neg(pq), TM.bdd_node(z, 1, 0))):
                    if type(w) is Poly and tiny(w) and any(covers(w, xend, x1)):
                        rest = b_and(rest, b_not(low if kind == 'L' else TM.bdd_node(z, 1, 0) if low == TM.bdd_node(z, 0, 1) else TM.bdd_node(z, 0, 1)))
            p = rest
            ok = p == 0 or not feasible(p)
            if not ok and d['kind'] == 'step':
                # the step is one that was set to the remaining distance
                ok = exact(S, b, sub(x1, b), b_and(p, entered(a)), xend)
            o.ob('the returned time is the end time', ok, key + '/return', 'the time returned is %s, which is not the end time' % show(x1, 2)[:80], 'return')
    if not nr and phis[0].sg == 1:
        o.skip('no return')
    return o


def covers(q, xend, x1):
    (a, ma), (b, mb) = sorted(((float(c), m) for m, c in q.terms), key=lambda t: -t[0])
    u, w = TM.atoms[ma[0][0]].args[0], TM.atoms[mb[0][0]].args[0]
    d = sub(xend, x1)
    yield (vkey(u) == vkey(d) or vkey(u) == vkey(neg(d))) and (vkey(w) == vkey(x1) or vkey(w) == vkey(neg(x1)))


def exact(S, b, h, pc, xend, depth=0):
    if vkey(h) == vkey(sub(xend, b)):
        return True
    inc = S.incoming(b, h, pc)
    if inc is None or depth > 6:
        return False
    got = False
    for s, v, bb, where, e in inc:
        for p, (v1, b1) in splitall(s.pc, [v, bb]):
            if vkey(v1) == vkey(h) and vkey(b1) == vkey(b):
                continue
            if not exact(S, b1, v1, p, xend, depth + 1):
                return False
            got = True
    return got


def timeset(a, t0):
    """loop-head values that carry the current time: those the start time flows into"""
    T = {}
    while True:
        new = {}
        for cid, gs in a.r.I.phiinc.items():
            for q in gs.values():
                for pid, vs in q['phi'].items():
                    if pid in T:
                        continue
                    for (s, e), v in zip(q['sts'], vs):
                        if type(v) is not Poly:
                            continue
                        for p, (w,) in splitall(s.pc, [v], 8):
                            if type(w) is Poly and any(len(m) == 1 and m[0][1] == 1 and float(c) == 1 and (TM.atoms[m[0][0]].pol is t0 or m[0][0] in T) for m, c in w.terms):
                                new[pid] = TM.atoms[pid].pol
        if not new:
            return T
        T.update(new)


def rock4(o, c):
    H = Hist(c)
    a = H.a
    n = H.n
    t0, tend = sym('t0'), sym('tend')
    T = timeset(a, t0)
    if not T:
        o.skip('the current time was not found among the loop values')
        return o
    cur = [t0] + list(T.values())
    ns = 0
    fwd = TM.lt0(sub(t0, tend), False)
    seen = set()
    for d in H.tr.out:
        if d['kind'] != 'step' or d['at'] == 'return':
            continue
        s = d['state']
        if id(s) in seen:
            continue
        for cid, gs in a.r.I.phiinc.items():
            for q in gs.values():
                for k, (s2, e) in enumerate(q['sts']):
                    if s2 is not s:
                        continue
                    ts = [q['phi'][t][k] for t in T if t in q['phi']]
                    for p, vs in splitall(b_and(d['pc'], fwd), ts + list(d['y1'])):
                        got = [one(o, d, p, v, vs[len(ts):], cur, tend) for v in vs[:len(ts)]]
                        bad = [g for g in got if type(g) is tuple]
                        if True in got:
                            ns += 1
                            o.ob('the time advances by the step')
                        elif ts:
                            ns += 1
                            o.ob('the time advances by the step', False, 'rock4/advance', 'the time becomes %s while the step taken is %s' % (bad[0] if bad else ('what it was', 'taken')), d['at'])
    if not ns:
        o.skip('no accepted step found')
    for s in a.rets:
        end = 0
        for t in cur:
            end = b_or(end, b_not(TM.lt0(sub(t, tend), False)))
        o.ob('integration ends at the end time', implies(s.pc, end), 'rock4/return', 'Rock4 can return without its time having been compared with the end time', 'return')
    return o


def one(o, d, p, v, y1, cur, tend):
    key = 'rock4'
    hs = 0
    for m, c in y1[0].terms:
        fs = [x for x in m if TM.atoms[x[0]].op == 'el']
        if len(fs) == 1:
            rest = tuple(x for x in m if x != fs[0])
            hs = add(hs, TM._mk({rest: c}) if rest else c)
    where = d['at']
    if isnum(v) or any(vkey(v) == vkey(t) for t in cur):
        return None
    if vkey(v) == vkey(tend):
        for t in cur:
            if eqp(hs, sub(tend, t), 1e-8):
                return True
        return (show(v, 2)[:100], show(hs, 2)[:100])
    for t in cur:
        h = sub(v, t)
        if eqp(hs, h, 1e-8):
            B = Bound(1)
            q = b_and(p, TM.lt0(sub(t, tend), False))
            hh = TM.simp(h, q)
            ok = not B.beyond(sub(tend, t), hh, q, [])
            o.ob('a step does not go beyond the end', ok, key + '/beyond', 'a step %s can be taken that no decision on its path keeps from going beyond the end' % show(hh, 3)[:100], where)
            o.ob('steps point to the end', B.pos(hh, q), key + '/direction', 'a step can be %s, which is not shown to be positive' % show(hh, 2)[:100], where)
            return True
    return (show(v, 2)[:100], show(hs, 2)[:100])


def analyse(c):
    o = Obs()
    if c['which'] in ('rodas', 'radau'):
        return implicit_run(o, c)
    return rock4(o, c)


def both(c):
    return [dict(c, sg=1), dict(c, sg=-1)]


def configs(tier):
    out = both(mk(which='radau', nit=3)) + both(mk(which='radau', nit=2)) + [mk(), mk(method=2, aut=False), mk(n=3, hess=True, stub=True), mk4(deg=5), mk4(deg=10)]
    if tier == 'thorough':
        out += both(mk(which='radau')) + both(mk(which='radau', n=3, hess=True, stub=True, nit=2)) + [mk(method=3, aut=False, dft=True), mk(n=4, sub=1, sup=2)]
    return out


def name(c):
    return 'Rock4 %d stages' % c['deg'] if 'deg' in c else cfgname(c) + {1: ' forward', -1: ' backward'}.get(c.get('sg'), '')


def run(tier):
    return run_configs('C10', tier, TECH, EXPL, analyse, configs(tier), name, 800 if tier == 'thorough' else 300)
