"""Transitions of an integrator between base points.

A base point is a pair (time, state vector) from which the stages of a step are formed: the initial data, or the values
these variables have at a loop head.  The values flowing into the loop heads, and those returned, are related to the base
points: entered, kept (a discarded attempt), or stepped (an accepted one)."""
from scheme import *


class Undecided(Exception):
    pass


def isbase(vs):
    for v in vs:
        at = single(v) if type(v) is Poly else None
        if at is None or at.op not in ('phi', 'sym'):
            return False
    return True


def keyof(vs):
    return tuple(vkey(v) for v in vs)


def atomset(vs):
    out = set()
    for v in vs:
        if type(v) is Poly:
            out |= set(TM.all_atoms(v))
    return out


def isatom(ids):
    return lambda at: at.id in ids


class Transitions:
    def __init__(self, a, want=issolve, limit=256, timed=True, held=False):
        self.a = a
        self.want = want
        self.limit = limit
        self.timed = timed
        tm = lambda t: [t] if timed else []
        self.bases = {}
        self.bpc = {}          # under which condition a base point is used
        self.late = []
        self.out = []          # dict(kind, base, state, pc, x1, y1, at)
        n = a.n
        init = tm(getattr(a, 'x0', None)) + a.y0
        self.add(init, 1)
        for e in a.events:
            if e['kind'] == 'rhs' and not held:
                vs = tm(e['t']) + list(e['y'])
                if isbase(vs) and len(vs) == n + len(tm(0)):
                    self.add(vs, e['pc'])
            if held and e.get('snap') and e['snap']['y'] is not None:
                # the point the caller's variables hold at a call
                vs = tm(e['snap']['x']) + e['snap']['y']
                if isbase(vs):
                    self.add(vs, e['pc'])
        done = set()
        for s in a.rets:
            x1, y1 = a.xy(s)
            self.classify(s, s.pc, tm(x1) + y1, 'return')
        if held or not timed:
            for s in getattr(a, 'throws', None) or ():
                if 'y' in s.mem or 'py' in s.mem:
                    x1, y1 = a.xy(s)
                    self.late.append((s, tm(x1) + y1))
        if held:
            for cid, h in a.r.I.heads.items():
                for _, s in h['H']:
                    if 'y' not in s.mem:
                        continue
                    x1, y1 = a.xy(s)
                    if isbase(tm(x1) + y1):
                        self.add(tm(x1) + y1, s.pc)
            for cid, h in a.r.I.heads.items():
                for what in ('entries', 'backs'):
                    for s in h[what]:
                        if 'y' not in s.mem:
                            continue
                        x1, y1 = a.xy(s)
                        self.classify(s, s.pc, tm(x1) + y1, ('entry ' if what == 'entries' else 'back edge ') + h['loc'])
        while not held:
            todo = [k for k in self.bases if k not in done]
            if not todo:
                break
            for k in todo:
                done.add(k)
                self.flows(self.bases[k])

        for s, vs in self.late:
            self.classify(s, s.pc, vs, 'exception')

    def add(self, vs, pc):
        k = keyof(vs)
        self.bases.setdefault(k, vs)
        self.bpc[k] = b_or(self.bpc.get(k, 0), pc)

    def incoming(self, vs):
        """values flowing into loop-head values of one head"""
        phis = [single(v) for v in vs]
        if len({p.args[0] for p in phis}) != 1:
            return
        for g, q in self.a.r.I.phiinc.get(phis[0].args[0], {}).items():
            if all(p.id in q['phi'] for p in phis):
                for k in range(len(q['sts'])):
                    got = [q['phi'][p.id][k] for p in phis]
                    if all(w is not None for w in got):
                        yield got

    def flows(self, vs):
        """values flowing into a base point that consists of loop-head values"""
        a = self.a
        phis = [single(v) for v in vs]
        cids = {p.args[0] for p in phis if p.op == 'phi'}
        if not cids:
            return
        if len(cids) > 1:
            # the innermost head decides; the others are unchanged there
            cids = {max(cids)}
        cid = cids.pop()
        pc = self.bpc[keyof(vs)]
        mine = [p.op == 'phi' and p.args[0] == cid for p in phis]
        ref = []
        for g, q in a.r.I.phiinc.get(cid, {}).items():
            if all(p.id in q['phi'] for p, m in zip(phis, mine) if m) and feasible(b_and(pc, q['sel'])):
                for k, (s, e) in enumerate(q['sts']):
                    ref.append((s, [q['phi'][p.id][k] if m else None for p, m in zip(phis, mine)], e))
        loc = a.r.I.heads[cid]['loc'] if cid in a.r.I.heads else '?'
        for s, got, entry in ref:
            vals = [v if m else vs[j] for j, (v, m) in enumerate(zip(got, mine))]
            if self.timed and not mine[0]:
                # the time is no value of this head: what the caller's variable holds, if it is in use
                xv = a.xy(s)[0]
                if vkey(xv) != vkey(a.x0):
                    vals[0] = xv
            if any(v is None for v in vals):
                raise Undecided('a component is missing at the loop head %s' % loc)
            self.classify(s, s.pc, vals, ('entry ' if entry else 'back edge ') + loc, vs)

    def classify(self, s, pc, vals, at, into=None):
        for pc1, v1 in opencases(pc, vals, self.want, self.limit):
            for pc2, v in cases(pc1, v1, self.limit):
                self.one(s, pc2, v, at, into)

    def one(self, s, pc, v, at, into):
        k0 = 1 if self.timed else 0
        d = dict(state=s, pc=pc, x1=v[0] if k0 else None, y1=v[k0:], at=at, into=into)
        k = keyof(v)
        if isbase(v):
            self.add(v, pc)
            d.update(kind='same' if into is not None and keyof(into) == k else 'copy', base=v)
            self.out.append(d)
            return
        if self.timed and isbase(v[1:]) and not isbase(v):
            # the time is a choice between loop-head values
            cnd = topites(v[0], [])
            if cnd:
                for q in (b_and(pc, cnd[0]), b_and(pc, b_not(cnd[0]))):
                    if q != 0 and feasible(q):
                        self.one(s, q, [TM.simp(w, q) for w in v], at, into)
                return
        # the base point a step starts from: the one whose components occur with coefficient one
        cand = []
        for b in self.bases.values():
            ok = True
            for i, w in enumerate(v[k0:]):
                at_b = single(b[k0 + i]).id
                if type(w) is not Poly or not any(m == ((at_b, 1),) and abs(float(c) - 1) < 1e-12 for m, c in w.terms):
                    ok = False
                    break
            if ok:
                cand.append(b)
        if not cand and not self.timed:
            # a base point no right-hand side was evaluated at: the loop-head values the new state starts from
            b = []
            for w in v:
                ms = [m for m, c in w.terms if abs(float(c) - 1) < 1e-12 and len(m) == 1 and m[0][1] == 1 and TM.atoms[m[0][0]].op in ('phi', 'sym')] if type(w) is Poly else []
                if len(ms) != 1:
                    break
                b.append(TM.atoms[ms[0][0][0]].pol)
            if len(b) == len(v):
                self.add(b, pc)
                cand = [b]
        if not cand and self.timed and type(v[0]) is Poly:
            # likewise with a time: the loop-head values that stem from a known base point
            b = []
            for w in v[1:]:
                ms = [m for m, c in w.terms if abs(float(c) - 1) < 1e-12 and len(m) == 1 and m[0][1] == 1 and TM.atoms[m[0][0]].op == 'phi'] if type(w) is Poly else []
                if len(ms) != 1:
                    break
                b.append(TM.atoms[ms[0][0][0]].pol)
            if len(b) == len(v) - 1:
                for m, c in v[0].terms:
                    if abs(float(c) - 1) < 1e-12 and len(m) == 1 and m[0][1] == 1 and TM.atoms[m[0][0]].op == 'phi':
                        bb = [TM.atoms[m[0][0]].pol] + b
                        if any(keyof(g) in self.bases for g in self.incoming(bb)):
                            cand.append(bb)
                if len(cand) == 1:
                    self.add(cand[0], pc)
        if len(cand) > 1 and self.timed:
            # a step advances the time
            cand = [b for b in cand if vkey(b[0]) != vkey(v[0])] or cand
        if len(cand) > 1 and self.timed and type(v[0]) is Poly:
            top = {m[0][0] for m, c in v[0].terms if len(m) == 1 and m[0][1] == 1 and abs(float(c) - 1) < 1e-12}
            cand = [b for b in cand if single(b[0]) is not None and single(b[0]).id in top] or cand
        d['cand'] = cand
        if len(cand) == 1:
            d.update(kind='step', base=cand[0])
        else:
            d.update(kind='other', base=None)
        self.out.append(d)


def norm_literals(pc, want):
    """[(variable, rejected?)]: decided comparisons in pc of a quadratic form in wanted atoms over squared scales"""
    out = []
    for x in sorted(b_support(pc)):
        kind, p = TM.bvars[x]
        if kind not in ('L', 'G') or type(p) is not Poly:
            continue
        if not holds(p, want):
            continue
        pos = feasible(b_and(pc, TM.bdd_node(x, 0, 1)))
        neg_ = feasible(b_and(pc, TM.bdd_node(x, 1, 0)))
        if pos and neg_:
            continue
        out.append((x, kind, p, pos))
    return out


def norm_form(p, n):
    """p = k*(sum_i e_i^2/den_i^2 /n - 1): [(den argument, {(vector id, index): weight up to sign})], sign of k; or None"""
    const = 0
    groups = {}
    for m, c in p.terms:
        if m == ():
            const = float(c)
            continue
        den = [(a, e) for a, e in m if TM.atoms[a].op == 'den']
        oth = tuple((a, e) for a, e in m if TM.atoms[a].op != 'den')
        if len(den) == 1 and den[0][1] == -2:
            groups.setdefault(den[0][0], []).append((oth, float(c)))
        else:
            return None
    if const == 0 or not groups:
        return None
    out = []
    for d, ts in groups.items():
        q = [(m, c * n / -const) for m, c in ts]
        out.append((d, q))
    return out, (1 if const < 0 else -1)


def rank1(q):
    """weights w with (sum w_a a)^2 == q, up to a common sign; None if there are none"""
    w = {}
    for m, c in q:
        if len(m) == 1 and m[0][1] == 2:
            if c < 0:
                return None
            w[m[0][0]] = c ** 0.5
    sg = {}
    first = max(w, key=lambda a: w[a], default=None)
    if first is None:
        return None
    sg[first] = 1
    cross = {}
    for m, c in q:
        if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
            cross[frozenset((m[0][0], m[1][0]))] = c
        elif not (len(m) == 1 and m[0][1] == 2):
            return None
    for a in w:
        if a != first:
            sg[a] = 1 if cross.get(frozenset((a, first)), 0) >= 0 else -1
    w = {a: w[a] * sg[a] for a in w}
    for a in w:
        for b in w:
            if a < b and abs(cross.pop(frozenset((a, b)), 0) - 2 * w[a] * w[b]) > 1e-9 * (1 + abs(w[a] * w[b])):
                return None
    if cross:
        return None
    return w
