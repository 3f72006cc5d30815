"""C17: numerical Jacobians are one-sided difference quotients and leave the state as it was"""
from implicit import *
from steps import *
from scheme import rosenbrock, Bad
from engine_check import Obs, run_configs
from ranges import Ranges
import models

TECH = ('abstract interpretation for all histories: the matrices factorised when the Jacobian is computed numerically are resolved, entry by entry, into differences of right-hand '
        'side values; a second interpretation keeps floating-point operations in program order to see the state restored exactly')
EXPL = ('Rodas and Radau instantiations with a numerical Jacobian are interpreted abstractly from construction to return. Every matrix given to a factorisation (or to the Hessenberg reduction) is '
        'taken apart: entry (i,j) must be the difference of component i of the right-hand side at a state with only component j moved and at the unmoved state, at the same time, divided by that same '
        'displacement, which must not be zero; entries outside the band must be zero and entries inside must be set. Rodas steps with a numerical time derivative must hold the same kind of difference in time. '
        'With operations kept in program order, an argument of the right-hand side that equals a component of the state over the reals must be that component exactly.')


def isrhs(at):
    return at.op == 'el' and single(at.args[0]) is not None and single(at.args[0]).op == 'F'


def quotient(v, n, i, j, pc, R):
    """v = (el(F(t,y+d e_j),i) - el(F(t,y),i))/d -> (base args, d) or a message; None when v holds no right-hand side value"""
    co, rest = lin(v, isrhs)
    if not co:
        return None
    ats = [(TM.atoms[a.id] if hasattr(a, 'id') else TM.atoms[a], c) for a, c in co.items()]
    if any(at.args[1] != i for at, c in ats):
        return 'uses another component of the right-hand side than %d' % (i + 1)
    if len(ats) != 2 or not (isnum(rest) and rest == 0):
        return 'is not a difference of two right-hand side values'
    for (p, cp), (q, cq) in (ats, ats[::-1]):
        P, Q = single(p.args[0]).args, single(q.args[0]).args
        if not eqp(sub(P[1 + j], Q[1 + j]), 0, 0) or True:
            dl = sub(P[1 + j], Q[1 + j])
            if isnum(dl) and dl == 0:
                return 'does not move component %d' % (j + 1)
            if eqp(mul(dl, cp), 1, 1e-12) and eqp(mul(dl, cq), -1, 1e-12):
                # the base is the state without the displacement: the other call
                for k in range(n + 1):
                    if k != 1 + j and vkey(P[k]) != vkey(Q[k]):
                        return 'moves %s, too' % ('the time' if k == 0 else 'component %d' % k)
                lo, hi = R.rng(dl, pc)
                if lo <= 0 <= hi:
                    return 'may divide by a zero displacement %s' % show(dl, 2)[:80]
                return Q, P, dl
    return 'is not divided by the displacement of component %d' % (j + 1)


def matrix(at, n):
    """the entries of -J plus a shift held by a factorisation or a reduction"""
    if at.op == 'HES':
        fl = at.args[1]
        return 1, [[fl[i * n + j] for j in range(n)] for i in range(n)]
    kind, z, nn, kl, ku, fl = at.args
    if kind == 'hes':
        return None
    k = 2 if z == 'z' else 1
    return -1, [[fl[k * (i * n + j)] for j in range(n)] for i in range(n)]


def analyse(c):
    if c.get('strictfp'):
        return strict(c)
    o = Obs()
    n = c['n']
    key = c['which']
    if not c['numj']:
        a = scenario(c)
        tr = Transitions(a)
        for d in tr.out:
            if d['kind'] != 'step':
                continue
            try:
                rosenbrock(n, d['base'][0], d['base'][1:], d['x1'], d['y1'])
                o.ob('the time derivative is a difference quotient in time')
            except Bad as e:
                o.ob('the time derivative is a difference quotient in time', 'derivative' not in str(e), key + '/time', str(e), d['at'])
        return o
    a = scenario(c, cfg=dict(rhstimes=True))
    inband = lambda i, j: i - j <= c['sub'] and j - i <= c['sup']
    R = Ranges()
    seen = set()
    decided = set()
    for e in a.r.I.events:
        if e['kind'] != 'solve':
            continue
        at = single(e['tok']) if e['tok'] is not None else None
        if at is None or at.op != 'LU':
            continue
        mats = [at]
        if at.args[0] == 'hes':
            mats = [TM.atoms[x] if not hasattr(x, 'op') else x for x in TM.all_atoms(at.pol)]
            mats = [x for x in mats if x.op == 'HES']
        for m in mats:
            if (m.id, e['pc']) in seen:
                continue
            seen.add((m.id, e['pc']))
            sg, M = matrix(m, n)
            base = None
            dj = {}
            for i in range(n):
                for j in range(n):
                    v = TM.simp(mul(M[i][j], sg), e['pc']) if not isnum(M[i][j]) else mul(M[i][j], sg)
                    where = e['loc']
                    nm = 'entry (%d,%d) of the Jacobian ' % (i + 1, j + 1)
                    if not inband(i, j):
                        o.ob('entries outside the band are zero', isnum(v) and v == 0, key + '/outside', nm + 'is %s outside the declared band' % show(v, 2)[:80], where)
                        continue
                    for q, (w,) in opencases(e['pc'], [v], isrhs, 16):
                        w = TM.simp(w, q)
                        if i == j:
                            # the diagonal holds the shift, too
                            w = TM._mk({mm: cc for mm, cc in w.terms if any(isrhs(TM.atoms[b]) for b, ee in mm)}) if type(w) is Poly else w
                        if isnum(w):
                            if i != j:
                                o.ob('every entry of the band is set', False, key + '/set', nm + 'is the constant %s' % w, where)
                            continue
                        r = quotient(w, n, i, j, q, R)
                        if r is None:
                            continue            # kept from an earlier point; decided where it was computed
                        o.ob('an entry is the difference quotient of its column and row', not isinstance(r, str), key + '/quotient', nm + str(r), where)
                        if isinstance(r, str):
                            continue
                        decided.add((i, j))
                        kb = {tuple(map(vkey, B)) for B in r[:2]}      # which one is moved is told by the other columns
                        dl = r[2]
                        base = kb if base is None else base & kb
                        o.ob('all entries belong to one point', bool(base), key + '/one point', nm + 'is taken at another point than other entries', where)
                        dj.setdefault(j, {vkey(dl), vkey(neg(dl))})
                        o.ob('one displacement per column', vkey(dl) in dj[j], key + '/displacement', nm + 'uses another displacement than its column', where)
    want = {(i, j) for i in range(n) for j in range(n) if inband(i, j)}
    o.ob('every entry of the band is computed', decided >= want, key + '/missing', 'no difference quotient was found for the entries %s' % sorted((i + 1, j + 1) for i, j in want - decided)[:6], 'Jacobian')
    return o


def unstrict(v, memo):
    if type(v) is not Poly:
        return v
    k = vkey(v)
    if k in memo:
        return memo[k]
    r = 0
    for m, c in v.terms:
        t = c
        for a, e in m:
            at = TM.atoms[a]
            if at.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                x, y = unstrict(at.args[0], memo), unstrict(at.args[1], memo)
                w = add(x, y) if at.op == 'fadd' else sub(x, y) if at.op == 'fsub' else mul(x, y) if at.op == 'fmul' else mul(x, TM.inv(y))
            else:
                w = at.pol
            for _ in range(abs(e)):
                t = mul(t, w if e > 0 else TM.inv(w))
        r = add(r, t)
    memo[k] = r
    return r


def strict(c):
    o = Obs()
    n = c['n']
    key = c['which']
    a = Imp(c, cfg=dict(rhstimes=True))
    a.r.I.strict = True
    a.configure()
    a.run()
    memo = {}
    k = 0
    for e in a.r.I.events:
        if e['kind'] != 'rhs':
            continue
        for i, v in enumerate(e['y']):
            w = unstrict(v, memo)
            b = single(w) if type(w) is Poly else None
            if b is None or b.op not in ('sym', 'phi'):
                continue
            k += 1
            o.ob('an unmoved component is passed as it is', vkey(v) == vkey(w), key + '/restore', 'component %d of the state is passed as %s, which equals it only up to rounding' % (i + 1, show(v, 3)[:100]), e['loc'])
    if not k:
        o.skip('no right-hand side call seen')
    return o


def configs(tier):
    out = []
    for w in ('rodas', 'radau'):
        k = dict(nit=2) if w == 'radau' else {}
        out += [mk(which=w, numj=True, **k), mk(which=w, numj=True, n=4, sub=1, sup=2, **k), mk(which=w, numj=True, n=3, hess=True, stub=True, **k), dict(mk(which=w, numj=True, n=3, one=True, **k), strictfp=True)]
    out += [mk(method=2, aut=False), mk(method=3, aut=False, n=3)]
    return out


def run(tier):
    return run_configs('C17', tier, TECH, EXPL, analyse, configs(tier), lambda c: cfgname(c) + (' operations in order' if c.get('strictfp') else ''), 600 if tier == 'thorough' else 200)
