"""Interval evaluation of symbolic values under a path condition.

facts: every comparison decided by the path condition bounds the linear part of its polynomial."""
import math
from alg import *

INF = math.inf


def _f(c):
    try:
        return float(c)
    except OverflowError:
        return INF if c > 0 else -INF


def imul(a, b):
    c = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                c.append(0.0)
            else:
                c.append(x * y)
    return min(c), max(c)


def ipow(a, e):
    if e == 1:
        return a
    if e < 0:
        b = ipow(a, -e)
        if b[0] > 0 or b[1] < 0:
            return (1 / b[1] if b[1] != 0 else INF, 1 / b[0] if b[0] != 0 else INF)
        if b[0] == 0 and b[1] > 0:
            return (1 / b[1] if b[1] != INF else 0.0, INF)
        if b[1] == 0 and b[0] < 0:
            return (-INF, 1 / b[0] if b[0] != -INF else 0.0)
        return (-INF, INF)
    try:
        if e % 2 == 0:
            lo, hi = abs(a[0]), abs(a[1])
            m = 0.0 if a[0] <= 0 <= a[1] else min(lo, hi)
            return m ** e, max(lo, hi) ** e
        return a[0] ** e, a[1] ** e
    except OverflowError:
        return (-INF, INF)


def isect(a, b):
    return max(a[0], b[0]), min(a[1], b[1])


def hull(a, b):
    return min(a[0], b[0]), max(a[1], b[1])


class Ranges:
    def __init__(self, given=None):
        self.given = given or {}       # atom id -> interval assumed
        self.fmemo = {}
        self.memo = {}
        self.keep = []

    # ------------------------------------------------------------ facts
    def facts(self, pc):
        if pc in (0, 1):
            return {}
        r = self.fmemo.get(pc)
        if r is not None:
            return r
        r = {}
        for x in b_support(pc):
            kind, p = TM.bvars[x]
            if kind not in ('L', 'G', 'ilt') or type(p) is not Poly:
                continue
            t = b_and(pc, TM.bdd_node(x, 0, 1))
            f = b_and(pc, TM.bdd_node(x, 1, 0))
            tp, fp = t != 0 and feasible(t), f != 0 and feasible(f)
            if tp == fp:
                continue
            # bound on p
            if kind == 'L':
                b = (-INF, 0.0) if tp else (0.0, INF)
            elif kind == 'G':
                b = (0.0, INF) if tp else (-INF, 0.0)
            else:
                b = (-INF, -1.0) if tp else (0.0, INF)
            self.learn(r, p, b)
            q = simp(p, pc)
            if type(q) is Poly and q is not p:
                self.learn(r, q, b)
        self.fmemo[pc] = r
        return r

    def norm(self, p):
        const = 0.0
        for m, c in p.terms:
            if m == ():
                const = _f(c)
        l = None
        for m, c in p.terms:
            if m != ():
                l = _f(c)
                break
        if l is None:
            return None
        key = tuple(sorted((m, round(_f(c) / l, 12)) for m, c in p.terms if m != ()))
        return key, l, const

    def learn(self, r, p, b):
        n = self.norm(p)
        if n is None:
            return
        key, l, const = n
        lo, hi = (b[0] - const) / l, (b[1] - const) / l
        if lo > hi:
            lo, hi = hi, lo
        r[key] = isect(r.get(key, (-INF, INF)), (lo, hi))

    # ------------------------------------------------------------ values
    def rng(self, v, pc=1, depth=12):
        if isnum(v):
            return _f(v), _f(v)
        if type(v) is not Poly or depth < 0:
            return -INF, INF
        k = (vkey(v), pc)
        if k in self.memo:
            return self.memo[k]
        self.keep.append(v)
        fc = self.facts(pc)
        tot = (0.0, 0.0)
        for m, c in v.terms:
            t = (_f(c), _f(c))
            mk_ = None
            if m != ():
                mk_ = fc.get(((m, 1.0),))
                iv = (1.0, 1.0)
                for a, e in m:
                    iv = imul(iv, ipow(self.atom(a, pc, depth - 1), e))
                if mk_ is not None:
                    iv = isect(iv, mk_)
                t = imul(t, iv)
            tot = (tot[0] + t[0], tot[1] + t[1])
        if any(x != x for x in tot):
            tot = (-INF, INF)
        n = self.norm(v)
        if n is not None and n[0] in fc:
            lo, hi = fc[n[0]]
            lo, hi = lo * n[1] + n[2], hi * n[1] + n[2]
            tot = isect(tot, (min(lo, hi), max(lo, hi)))
        # a single ite at top: the branches apart, each under its condition
        self.memo[k] = tot
        return tot

    def atom(self, a, pc, depth):
        at = TM.atoms[a]
        op = at.op
        r = (-INF, INF)
        g = self.given.get(a)
        if g is not None:
            r = g
        fc = self.facts(pc)
        f = fc.get(((((a, 1),), 1.0),))
        if f is not None:
            r = isect(r, f)
        if op == 'sym':
            if isinstance(at.args[0], str) and at.args[0].startswith('+'):
                r = isect(r, (0.0, INF))
        elif op == 'abs':
            q = self.rng(at.args[0], pc, depth)
            r = isect(r, (0.0 if q[0] <= 0 <= q[1] else min(abs(q[0]), abs(q[1])), max(abs(q[0]), abs(q[1]))))
        elif op == 'sqrt':
            q = self.rng(at.args[0], pc, depth)
            r = isect(r, (math.sqrt(max(q[0], 0.0)), math.sqrt(q[1]) if q[1] >= 0 else INF))
        elif op in ('frz', 'den'):
            r = isect(r, self.rng(at.args[0], pc, depth))
        elif op in ('max', 'min'):
            qs = [self.rng(x, pc, depth) for x in at.args]
            s = max if op == 'max' else min
            r = isect(r, (s(q[0] for q in qs), s(q[1] for q in qs)))
        elif op == 'ite':
            out = None
            for c, x in ((at.args[0], at.args[1]), (b_not(at.args[0]), at.args[2])):
                p = b_and(pc, c)
                if p == 0 or not feasible(p):
                    continue
                q = self.rng(x, p, depth)
                out = q if out is None else hull(out, q)
            if out is not None:
                r = isect(r, out)
        elif op == 'pow' and len(at.args) == 2:
            q = self.rng(at.args[0], pc, depth)
            e = at.args[1]
            if isnum(e) and q[0] >= 0:
                e = float(e)
                try:
                    v = [(x ** e if x != 0 or e > 0 else INF) if x != INF else (INF if e > 0 else 0.0) for x in q]
                    r = isect(r, (min(v), max(v)))
                except OverflowError:
                    r = isect(r, (0.0, INF))
            elif q[0] >= 0:
                r = isect(r, (0.0, INF))
                er = self.rng(e, pc, depth)
                if q[0] >= 1 and er[1] <= 0 or q[1] <= 1 and er[0] >= 0:
                    r = isect(r, (0.0, 1.0))
                elif q[0] >= 1 and er[0] >= 0 or q[1] <= 1 and er[1] <= 0:
                    r = isect(r, (1.0, INF))
        elif op == 'exp':
            r = isect(r, (0.0, INF))
        return r


def isplit(R, v, pc, want=None, limit=64):
    """[(pc, value)] with the ite atoms of v opened"""
    v = simp(v, pc) if type(v) is Poly else v
    if type(v) is Poly and limit > 1:
        for m, c in v.terms:
            for a, e in m:
                at = TM.atoms[a]
                if at.op == 'ite':
                    out = []
                    for cnd in (at.args[0], b_not(at.args[0])):
                        p = b_and(pc, cnd)
                        if p != 0 and feasible(p):
                            out += isplit(R, v, p, want, limit // 2)
                    return out
    return [(pc, v)]
