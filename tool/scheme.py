"""Runge-Kutta type schemes read off from symbolic values, and their order conditions."""
import numpy as np
from alg import *


class Bad(Exception):
    pass


def solvecomp(a):
    return single(TM.atoms[a].args[0]), TM.atoms[a].args[1], TM.atoms[a].op


def vector_lin(vals, want, what):
    """components v_i = sum_j c_j * (S_j)_i + rest_i with the same coefficients in every component"""
    out, rests = None, []
    for i, v in enumerate(vals):
        r = lin(v, want)
        if r is None:
            raise Bad('%s is not linear in the increments' % what)
        d = {}
        for a, c in r[0].items():
            at = TM.atoms[a]
            if at.args[1] != i:
                raise Bad('component %d of %s uses component %s of an increment' % (i, what, at.args[1]))
            d[(at.args[0].id, at.op)] = (c, at)
        if out is None:
            out = d
        elif set(d) != set(out) or any(not eqp(d[k][0], out[k][0], 1e-13) for k in d):
            raise Bad('components of %s are formed differently' % what)
        rests.append(r[1])
    return {k: (c, single(TM.atoms[at.id].args[0]), at.op) for k, (c, at) in out.items()}, rests


def rosenbrock(n, x, y, x1, y1, lastjac=None):
    """The Rosenbrock scheme leading from (x,y) to (x1,y1)"""
    h = sub(x1, x)
    if isnum(h) and h == 0:
        raise Bad('the time does not advance')
    ih = TM.inv(h)
    order, info = [], {}

    def visit(S):
        if S.id in info:
            return
        info[S.id] = None
        tok = single(S.args[0])
        if tok is None or tok.op != 'LU':
            raise Bad('a stage is not the solution of one factorised system')
        if tok.args[1] != 'd':
            raise Bad('complex system')
        cf, rest = vector_lin(S.args[1:], issolve, 'the right-hand side of a stage system')
        for k, (c, T, op) in cf.items():
            visit(T)
        ff, rest = vector_lin(rest, isF, 'the right-hand side of a stage system')
        dt = {}
        ftd = {}
        if any(not (isnum(v) and v == 0) for v in rest):
            ftd, rest = vector_lin(rest, isFT, 'the right-hand side of a stage system')
        if any(not (isnum(v) and v == 0) for v in rest):
            raise Bad('the right-hand side of a stage system has the extra term %s' % show(rest[0], 2)[:120])
        info[S.id] = dict(tok=tok, cf=cf, ff=ff, ft=ftd)
        order.append(S)
    ms, rest = vector_lin(y1, issolve, 'the new solution')
    for i in range(n):
        if not eqp(rest[i], y[i]):
            raise Bad('the new solution is not the old one plus increments')
    for k, (c, S, op) in ms.items():
        visit(S)
    s = len(order)
    pos = {S.id: i for i, S in enumerate(order)}
    C = np.zeros((s, s))
    A = np.zeros((s, s))
    al = np.zeros(s)
    d = np.zeros(s)
    m = np.zeros(s)
    for k, (c, S, op) in ms.items():
        if not isnum(c):
            raise Bad('weight of an increment depends on the step')
        m[pos[S.id]] = float(c)
    tok0 = info[order[0].id]['tok']
    base = ('F', vkey(x), tuple(vkey(v) for v in y))
    for i, S in enumerate(order):
        q = info[S.id]
        if q['tok'] is not tok0:
            raise Bad('the stages use different factorised matrices')
        for k, (c, T, op) in q['cf'].items():
            r = ratio(c, ih)
            if r is None:
                raise Bad('coupling of stage %d is not a number over the step: %s' % (i + 1, show(c, 2)[:100]))
            C[i, pos[T.id]] = r
        # right-hand side values: one with weight one; numerical time derivatives add differences
        main = None
        fts = []
        for k, (c, F, op) in q['ff'].items():
            fts.append((c, F))
        t_arg = None
        w1 = [(c, F) for c, F in fts if isnum(c) and abs(float(c) - 1) < 1e-14]
        others = [(c, F) for c, F in fts if not (isnum(c) and abs(float(c) - 1) < 1e-14)]
        dcoef = 0.0
        baseF = [(c, F) for c, F in fts if vkey(F.args[0]) == vkey(x) and all(vkey(a) == vkey(b) for a, b in zip(F.args[1:], y))]
        if len(others) == 0 and len(w1) == 1:
            main = w1[0][1]
        else:
            # F(stage) + h*d*(F(x+del,y)-F(x,y))/del : collect the perturbed evaluations at y
            pert = [(c, F) for c, F in fts if all(vkey(a) == vkey(b) for a, b in zip(F.args[1:], y)) and vkey(F.args[0]) != vkey(x)]
            rest2 = [(c, F) for c, F in fts if F not in [p[1] for p in pert]]
            if len(pert) == 1:
                c, F = pert[0]
                delta = sub(F.args[0], x)
                r = ratio(c, mul(h, TM.inv(delta))) if not isnum(c) else None
                if r is None:
                    raise Bad('time derivative of stage %d is not a difference quotient' % (i + 1))
                dcoef = r
                mains = []
                for c2, F2 in rest2:
                    isb = vkey(F2.args[0]) == vkey(x) and all(vkey(a) == vkey(b) for a, b in zip(F2.args[1:], y))
                    c3 = add(c2, c) if isb else c2
                    if isnum(c3) and abs(float(c3)) < 1e-14:
                        continue
                    if isnum(c3) and abs(float(c3) - 1) < 1e-14:
                        mains.append(F2)
                    else:
                        raise Bad('right-hand side weights of stage %d do not fit a difference quotient' % (i + 1))
                if len(mains) != 1:
                    raise Bad('stage %d combines %d right-hand sides' % (i + 1, len(mains)))
                main = mains[0]
            else:
                raise Bad('stage %d combines right-hand sides with unexpected weights' % (i + 1))
        if q['ft']:
            if len(q['ft']) != 1:
                raise Bad('several time derivatives in stage %d' % (i + 1))
            (c, D, op), = q['ft'].values()
            if vkey(D.args[0]) != vkey(x) or any(vkey(a) != vkey(b) for a, b in zip(D.args[1:], y)):
                raise Bad('time derivative of stage %d is not taken at the start of the step' % (i + 1))
            r = ratio(c, h)
            if r is None:
                raise Bad('weight of the time derivative of stage %d is not a number times the step' % (i + 1))
            dcoef += r
        d[i] = dcoef
        ta = sub(main.args[0], x)
        r = ratio(ta, h) if not (isnum(ta) and ta == 0) else 0.0
        if r is None:
            # x + alpha*(xend-x) appears expanded
            raise Bad('time of stage %d is not the step start plus a multiple of the step: %s' % (i + 1, show(main.args[0], 2)[:100]))
        al[i] = r
        acf, rest = vector_lin(main.args[1:], issolve, 'the argument of stage %d' % (i + 1))
        for kk in range(n):
            if not eqp(rest[kk], y[kk]):
                raise Bad('the argument of stage %d does not start from the current solution' % (i + 1))
        for k, (c, T, op) in acf.items():
            if T.id not in pos:
                raise Bad('stage %d uses an increment of another step' % (i + 1))
            if not isnum(c):
                raise Bad('a stage coefficient depends on the step')
            A[i, pos[T.id]] = float(c)
    # the matrix
    kind, z, nn, kl, ku, fl = tok0.args
    g = None
    J = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            e = fl[i * n + j]
            J[i][j] = neg(e)
    # shift = g/h on the diagonal, found as the part that is a multiple of 1/h
    for i in range(n):
        e = fl[i * n + i]
        part, oth = 0, 0
        ihm = {mm for mm, kk in ih.terms}
        for mm, kk in (e.terms if type(e) is Poly else [((), e)]):
            if mm in ihm:
                part = add(part, mono(mm, kk))
            else:
                oth = add(oth, mono(mm, kk))
        r = ratio(part, ih)
        if r is None or r == 0:
            raise Bad('the diagonal of the stage matrix is not shifted by a number over the current step: %s' % show(e, 2)[:160])
        if g is None:
            g = r
        elif abs(g - r) > 1e-13 * abs(g):
            raise Bad('diagonal entries of the stage matrix are shifted differently')
        J[i][i] = neg(oth)
    return dict(s=s, A=A, C=C, alpha=al, d=d, m=m, g=g, J=J, order=order, h=h, tok=tok0)


def row_form(t):
    """classical Rosenbrock coefficients of the transformed ones"""
    s = t['s']
    gam = 1.0 / t['g']
    Ginv = np.eye(s) / gam - t['C']
    G = np.linalg.inv(Ginv)
    al = t['A'] @ G
    b = t['m'] @ G
    return gam, G, al, b


def row_conditions(al, G, b, anode, gnode, order, nonaut):
    """[(name, residual)] of the order conditions of a Rosenbrock method"""
    s = len(b)
    beta = al + G
    B = beta.sum(axis=1)
    a = al.sum(axis=1)
    out = [('sum b', b.sum() - 1)]
    if order >= 2:
        out += [('b.beta', b @ B - 0.5)]
    if order >= 3:
        out += [('b.alpha^2', b @ a**2 - 1 / 3), ('b.beta.beta', b @ beta @ B - 1 / 6)]
    if order >= 4:
        out += [('b.alpha^3', b @ a**3 - 0.25), ('b.alpha.A.beta', b @ (a * (al @ B)) - 1 / 8), ('b.beta.alpha^2', b @ beta @ a**2 - 1 / 12),
                ('b.beta.beta.beta', b @ beta @ beta @ B - 1 / 24)]
    # time nodes and time-derivative weights of the non-autonomous form
    for i in range(s):
        out.append(('node %d' % (i + 1), anode[i] - a[i]))
        if nonaut:
            out.append(('time weight %d' % (i + 1), gnode[i] - G[i].sum()))
    return out


def explicit_rk(n, y, y1, h):
    """the explicit Runge-Kutta scheme leading from y to y1 with step h: dict(A, b, order)"""
    ih = TM.inv(h)
    order, rows = [], {}

    def number(c, what):
        r = ratio(c, h) if not isnum(c) else (0.0 if c == 0 else None)
        if r is None:
            r = mul(c, ih)
            r = float(r) if isnum(r) else None
        if r is None:
            raise Bad('%s is not a number times the step: %s' % (what, show(c, 2)[:120]))
        return r

    def expand(vals, what):
        cf, rest = vector_lin(vals, isF, what)
        for i in range(n):
            if not eqp(rest[i], y[i], 1e-11):
                raise Bad('%s does not start from the current solution: %s' % (what, show(sub(rest[i], y[i]), 2)[:120]))
        return [(number(c, 'a coefficient of ' + what), F) for c, F, op in cf.values()]

    def visit(F):
        if F.id in rows:
            return
        rows[F.id] = None
        r = expand(F.args, 'a stage')
        for c, G in r:
            visit(G)
        rows[F.id] = r
        order.append(F)
    b = expand(y1, 'the new solution')
    for c, F in b:
        visit(F)
    pos = {F.id: i for i, F in enumerate(order)}
    s = len(order)
    A = np.zeros((s, s))
    bb = np.zeros(s)
    for i, F in enumerate(order):
        for c, G in rows[F.id]:
            A[i, pos[G.id]] += c
    for c, F in b:
        bb[pos[F.id]] += c
    return dict(s=s, A=A, b=bb, order=order, pos=pos)


def rk_conditions(A, b, order):
    """[(name, residual)]"""
    c = A.sum(axis=1)
    out = [('sum b', b.sum() - 1)]
    if order >= 2:
        out.append(('b.c', b @ c - 0.5))
    if order >= 3:
        out += [('b.c^2', b @ c**2 - 1 / 3), ('b.A.c', b @ (A @ c) - 1 / 6)]
    if order >= 4:
        out += [('b.c^3', b @ c**3 - 0.25), ('b.c.A.c', b @ (c * (A @ c)) - 1 / 8), ('b.A.c^2', b @ (A @ c**2) - 1 / 12), ('b.A.A.c', b @ (A @ (A @ c)) - 1 / 24)]
    return out


def stability(A, b, zs, raw=False):
    """R(z) of an explicit scheme (rows in order of evaluation)"""
    cx = np.iscomplexobj(zs)
    L = np.clongdouble if cx else np.longdouble
    A, b = A.astype(L), b.astype(L)
    s = len(b)
    zs = np.array(zs, dtype=L)
    g = np.zeros((s, len(zs)), dtype=L)
    for i in range(s):
        g[i] = 1 + zs * (A[i, :i] @ g[:i] if i else 0)
    return (1 + zs * (b @ g)).astype(complex if cx else float) if not raw else 1 + zs * (b @ g)
