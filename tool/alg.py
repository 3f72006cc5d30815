"""Small algebra on symbolic values: linear decomposition, numeric ratios, case splits."""
from terms import *
import terms as TM


def mono(m, c=1):
    return TM._mk({m: c})


def lin(p, want):
    """p = sum coef[a]*a + rest over the atoms a (ids) accepted by want; None when not linear in them"""
    coef, rest = {}, 0
    if isnum(p):
        return {}, p
    for m, c in p.terms:
        hit = [(a, e) for a, e in m if want(TM.atoms[a])]
        if not hit:
            rest = add(rest, mono(m, c))
            continue
        if len(hit) > 1 or hit[0][1] != 1:
            return None
        a = hit[0][0]
        r = mono(tuple(x for x in m if x[0] != a), c) if len(m) > 1 else c
        coef[a] = add(coef.get(a, 0), r)
    return coef, rest


def ratio(c, base):
    """number k with c == k*base, or None"""
    if isnum(c) and c == 0:
        return 0.0
    if isnum(base):
        return float(c) / float(base) if isnum(c) and base != 0 else None
    if isnum(c):
        return None
    d = {m: k for m, k in base.terms}
    if len(c.terms) != len(base.terms):
        return None
    r = None
    for m, k in c.terms:
        if m not in d:
            return None
        q = float(k) / float(d[m])
        if r is None:
            r = q
        elif abs(q - r) > 1e-13 * (1 + abs(r)):
            return None
    return r


def eqp(a, b, tol=0.0):
    """are two values equal as polynomials, coefficients up to tol relative"""
    if vkey(a) == vkey(b):
        return True
    d = sub(a, b)
    if isnum(d):
        return abs(float(d)) <= tol * max(1.0, abs(float(a)) if isnum(a) else 1.0)
    if tol == 0:
        return False
    ref = {}
    for p in (a, b):
        if not isnum(p):
            for m, k in p.terms:
                ref[m] = max(ref.get(m, 0), abs(float(k)))
        else:
            ref[()] = max(ref.get((), 0), abs(float(p)))
    return all(abs(float(k)) <= tol * ref.get(m, 0) for m, k in d.terms)


def selectors(v, acc=None, kinds=('part', 'join'), seen=None):
    """BDD variables of the given kinds on which a value depends"""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if type(v) is Poly:
        for m, c in v.terms:
            for a, e in m:
                if a in seen:
                    continue
                seen.add(a)
                at = TM.atoms[a]
                if at.op == 'ite':
                    for x in TM.b_support(at.args[0]):
                        if kinds is None or TM.bvars[x][0] in kinds:
                            acc.add(x)
                    for x in at.args[1:]:
                        selectors(x, acc, kinds, seen)
                else:
                    for x in at.args:
                        selectors(x, acc, kinds, seen)
    elif type(v) is tuple:
        for x in v:
            selectors(x, acc, kinds, seen)
    return acc


def cases(pc, vals, limit=64, kinds=('part', 'join')):
    """split pc on the selectors of the values: [(pc, values)]"""
    vals = [simp(v, pc) if isinstance(v, (Poly, tuple)) else v for v in vals]
    sel = set()
    for v in vals:
        selectors(v, sel, kinds)
    if not sel or limit <= 1:
        return [(pc, vals)]
    x = min(sel)
    lit = TM.bdd_node(x, 0, 1)
    out = []
    for l in (lit, b_not(lit)):
        p = b_and(pc, l)
        if p != 0 and feasible(p):
            out += cases(p, vals, limit // 2, kinds)
    return out


def topites(v, acc):
    """conditions of the ite atoms that occur linearly in a value"""
    if type(v) is Poly:
        for m, c in v.terms:
            for a, e in m:
                at = TM.atoms[a]
                if at.op == 'ite':
                    acc.append(at.args[0])
    return acc


def opencases(pc, vals, want, limit=256):
    """split on the conditions of those ite atoms of the values whose branches hold atoms accepted by want"""
    vals = [simp(v, pc) if isinstance(v, (Poly, tuple)) else v for v in vals]
    for v in vals:
        if type(v) is not Poly:
            continue
        for m, c in v.terms:
            for a, e in m:
                at = TM.atoms[a]
                if at.op == 'ite' and any(holds(x, want) for x in at.args[1:]):
                    out = []
                    for cnd in (at.args[0], b_not(at.args[0])):
                        p = b_and(pc, cnd)
                        if p != 0 and feasible(p):
                            if limit <= 1:
                                raise TM.TooMany('too many cases') if hasattr(TM, 'TooMany') else ValueError('too many cases')
                            out += opencases(p, vals, want, limit // 2)
                    return out
    return [(pc, vals)]


def holds(v, want, seen=None):
    seen = set() if seen is None else seen
    if type(v) is Poly:
        for m, c in v.terms:
            for a, e in m:
                if a in seen:
                    continue
                seen.add(a)
                at = TM.atoms[a]
                if want(at):
                    return True
                if any(holds(x, want, seen) for x in at.args):
                    return True
    elif type(v) is tuple:
        return any(holds(x, want, seen) for x in v)
    return False


def isel(at):
    return at.op in ('el', 'elr', 'eli')


def el_of(op):
    """want: components of vectors produced by this kind of operation"""
    def w(at):
        if at.op not in ('el', 'elr', 'eli'):
            return False
        s = TM.single(at.args[0])
        return s is not None and s.op in ((op,) if isinstance(op, str) else op)
    return w


issolve = el_of('solve')
isF = el_of('F')
isFT = el_of('FT')


def implies(pc, cond):
    return b_and(pc, b_not(cond)) == 0 or not feasible(b_and(pc, b_not(cond)))
