"""C12: steps are accepted by the weighted error norm only"""
from attempts import *
from implicit import mk, cfgname
from explicit import mk4
from engine_check import Obs, run_configs
import numpy as np

TECH = ('abstract interpretation for all histories; the comparison deciding each accepted or discarded attempt is read off as a weighted sum of squares and compared, '
        'component by component, with the prescribed error norm')
EXPL = ('For every way an adaptive integrator can leave or repeat an attempt (all histories, by loop-head fixpoints) the conditions of the path are searched for comparisons of norms. '
        'An accepted step needs its error norm decided below one: the mean over all components of squared error components over squared scales, each scale being the absolute tolerance '
        'plus the relative tolerance times the size of the same component (transformed as published for Radau); the error must be the embedded difference (Rodas) or the filtered Radau estimate, '
        'recomputed at most on first and previously rejected steps; a Radau step also needs the Newton test passed for its own increments. '
        'A repeated attempt needs one of these decided the other way.')

S6 = 6 ** .5
DD = (-(13 + 7 * S6) / 3, (-13 + 7 * S6) / 3, -1 / 3)
RA = np.array([[(88 - 7 * S6) / 360, (296 - 169 * S6) / 1800, (-2 + 3 * S6) / 225],
               [(296 + 169 * S6) / 1800, (88 + 7 * S6) / 360, (-2 - 3 * S6) / 225],
               [(16 - S6) / 36, (16 + S6) / 36, 1 / 9]])
EV, VEC = np.linalg.eig(np.linalg.inv(RA))
VR = next(VEC[:, k].real / VEC[2, k].real for k in range(3) if abs(EV[k].imag) < 1e-9)
VC = next(VEC[:, k] / VEC[2, k] for k in range(3) if EV[k].imag > 1e-9)


def scale_of(p, which):
    """p = f*(t*atol_i + t'*size) -> (i, f, t, size/f) or a message"""
    A = [(m, c) for m, c in p.terms if any(TM.atoms[a].op == 'sym' and 'atol' in str(TM.atoms[a].args[0]) for a, e in m)]
    if len(A) != 1:
        return 'the scale %s does not hold one absolute tolerance' % show(p, 2)[:100]
    m, f = A[0]
    f = float(f)
    at = next((a, e) for a, e in m if 'atol' in str(TM.atoms[a].args[0]) and TM.atoms[a].op == 'sym')
    name = str(TM.atoms[at[0]].args[0])
    idx = name[name.index('atol') + 4:]
    if at[1] != 1:
        return 'the scale is not linear in the absolute tolerance'
    rest = TM._mk({mm: c for mm, c in p.terms if mm != m})
    rsym = sym(name.replace('atol', 'rtol'))
    if which == 'radau':
        P = single_pow(m, rsym)
        if P is None:
            return 'the tolerances of component %s are not transformed by the power 2/3 of its own relative tolerance: %s' % (idx, show(p, 2)[:100])
        t = mul(P, TM.inv(rsym))
        tr_ = P
    else:
        if len(m) != 1:
            return 'the absolute tolerance is scaled by %s' % show(TM._mk({m: 1.0}), 2)[:80]
        t, tr_ = 1, rsym
    if vkey(TM._mk({m: 1.0})) != vkey(mul(t, sym(name))):
        return 'the absolute tolerance is scaled by %s' % show(TM._mk({m: 1.0}), 2)[:80]
    # rest = tr_ * size
    q = mul(rest, TM.inv(tr_))
    if type(q) is not Poly:
        return 'the scale does not depend on the size of the component'
    return idx, f, q


def single_pow(m, rsym):
    for a, e in m:
        at = TM.atoms[a]
        if at.op == 'pow' and e == 1 and vkey(at.args[0]) == vkey(rsym) and isnum(at.args[1]) and abs(float(at.args[1]) - 2 / 3) < 1e-14:
            return at.pol
    return None


def size_ok(q, f, i, y, y1):
    """q = f * (size of component i)"""
    if len(q.terms) != 1:
        return False
    (m, c), = q.terms
    if len(m) != 1 or m[0][1] != 1:
        return False
    at = TM.atoms[m[0][0]]

    def ab(v, k):
        u = single(v) if type(v) is Poly else None
        if u is None or u.op != 'abs':
            return False
        for w in (y[i], y1[i] if y1 is not None else None):
            if w is None:
                continue
            for sg in (1, -1):
                if eqp(mul(u.args[0], k), mul(w, sg * f), 1e-10):
                    return True
        return False
    if at.op == 'abs':
        return ab(at.pol, float(c))
    if at.op == 'max' and abs(float(c) / f - 1) < 1e-12:
        return all(ab(x, f) for x in at.args)
    return False


def weights(f, n, which, y, y1):
    """(error components {index: [(monomial, weight of its square)]} normalised so that their sum of squares is compared with one) or message"""
    c0 = f['c0']
    if not isnum(c0):
        return 'the error norm is compared with %s' % show(c0, 2)[:80]
    k = f['k']
    if not isnum(k):
        return 'the error norm is multiplied by %s' % show(k, 2)[:80]
    W = (float(k) / float(c0)) ** 2 if f['root'] else float(k) / -float(c0)
    out = {}
    for d, ts in f['Q'].items():
        sc = scale_of(TM.atoms[d].args[0], which)
        if isinstance(sc, str):
            return sc
        idx, g, q = sc
        comps = {TM.atoms[a].args[1] for m, c in ts for a, e in m if TM.atoms[a].op in ('el', 'elr', 'eli')}
        if len(comps) != 1:
            return 'one scale is used for several components of the error'
        i = comps.pop()
        if idx != '' and int(idx) != i:
            return 'component %d of the error is scaled with the tolerances of component %d' % (i + 1, int(idx) + 1)
        if i in out:
            return 'component %d of the error is counted twice' % (i + 1)
        if not size_ok(q, g, i, y, y1):
            return 'the relative tolerance of component %d multiplies %s' % (i + 1, show(q, 2)[:100])
        out[i] = [(m, c * W / g / g) for m, c in ts]
    if sorted(out) != list(range(n)):
        return 'the error norm has the components %s of 1 to %d' % ([i + 1 for i in sorted(out)], n)
    return out


def analyse(c):
    o = Obs()
    H = Hist(c)
    n = H.n
    key = H.which
    nst = 0
    R4 = []
    kinds = {}
    if H.which == 'radau':
        rej = Provenance(H)
    for d in H.tr.out:
        if d['kind'] != 'step':
            continue
        nst += 1
        where = d['at']
        base = d['base'][1 if H.which != 'rock4' else 0:]
        tests = [(t, cs) for t, cs, k in d['tests'] if k == 'err']
        o.ob('an accepted step has passed one error test', len(tests) == 1 and H.verdict(d['tests'], 'err') is True, key + '/test', '%d error tests decide the step reaching %s' % (len(tests), where), where)
        if H.which == 'radau':
            radau_newton(o, H, d, base, key)
        for t, cs in tests:
            for q, f in cs:
                if f is None:
                    o.ob('the error norm is a weighted sum of squares', False, key + '/form', 'the comparison deciding a step is not one of a weighted norm: %s' % show(t['p'], 2)[:150], where)
                    continue
                if f['Q'] is None:
                    continue            # bounded below by a tiny constant
                w = weights(f, n, H.which, base, d['y1'])
                o.ob('the error norm is the mean of squared errors over the scales of their components', not isinstance(w, str), key + '/norm', str(w), where)
                if isinstance(w, str):
                    continue
                if H.which == 'rodas':
                    rodas_error(o, d, w, n, key, where)
                elif H.which == 'radau':
                    radau_error(o, H, d, base, q, f, w, n, key, where, rej, kinds)
                else:
                    R4.append(w)
    for s, loc, ts, known in H.discards():
        kk = {k for t, cs, k in ts}
        ve, vn = H.verdict(ts, 'err'), H.verdict(ts, 'newton')
        step = any(d['state'] is s and d['kind'] == 'step' for d in H.tr.out)
        if step or ('err' not in kk):
            continue
        o.ob('a step found accurate enough is not discarded', ve is False or vn is False, key + '/discard', 'at the end of an attempt that is repeated the error norm was found below one', 'back edge ' + loc)
    for k, v in sorted(kinds.items()):
        o.ob('the estimate is recomputed on first and previously rejected steps', 'second' in v, key + '/not recomputed', 'the error estimate is never recomputed on %s steps' % k, 'acceptance')
    if not nst:
        o.skip('no accepted step found')
    return o


def rodas_error(o, d, w, n, key, where):
    bad = None
    for i, ts in w.items():
        r = rank1(ts)
        if r is None:
            bad = 'component %d is not the square of a combination of stages' % (i + 1)
            break
        e = 0
        for a, v in r.items():
            e = add(e, mul(TM.atoms[a].pol, v * n ** .5))
        # the embedded solution is the argument of a stage
        ok = False
        for at in TM.all_atoms(d['y1'][i]):
            A = TM.atoms[at] if not hasattr(at, 'op') else at
            if A.op == 'F' and len(A.args) == n + 1:
                for sg in (1, -1):
                    if eqp(sub(d['y1'][i], mul(e, sg)), A.args[1 + i], 1e-11):
                        ok = True
        if not ok:
            bad = 'the error component %d is %s, not the difference of the solution and the embedded one' % (i + 1, show(e, 2)[:100])
    o.ob('the error is the difference of the two solutions', not bad, key + '/error', str(bad), where)


def stages(d, n, base):
    """increments of the collocation values as polynomials: (F1, F2, F3) vectors and the solves they end with"""
    y1 = d['y1']
    sol = {}
    for i in range(n):
        inc = sub(y1[i], base[i])
        for m, c in inc.terms:
            if len(m) == 1 and m[0][1] == 1 and TM.atoms[m[0][0]].op in ('el', 'elr', 'eli') and issolve(TM.atoms[m[0][0]]):
                a = TM.atoms[m[0][0]]
                sol.setdefault((a.op, a.args[1]), []).append((a, float(c)))
    return sol


def radau_newton(o, H, d, base, key):
    n = H.n
    ts = [(t, cs) for t, cs, k in d['tests'] if k == 'newton']
    v = H.verdict(d['tests'], 'newton')
    o.ob('a step is accepted only after the Newton iteration converged', v is True, key + '/newton', 'a step is accepted on a path on which the Newton iteration %s' % ('failed' if v is False else 'was not tested'), d['at'])
    if v is not True:
        return
    sol = stages(d, n, base)
    used = {single(a.args[0]) for l in sol.values() for a, c in l}
    good = False
    msg = ''
    for t, cs in ts:
        for q, f in cs:
            if f['Q'] is None:
                continue
            comps = {}
            for dd, tt in f['Q'].items():
                for m, c in tt:
                    for a, e in m:
                        A = TM.atoms[a]
                        if issolve(A):
                            comps.setdefault(A.op, {}).setdefault(single(A.args[0]), set()).add(A.args[1])
            ok = set(comps) == {'el', 'elr', 'eli'} and all(len(v) == 1 and set().union(*v.values()) == set(range(n)) for v in comps.values())
            if not ok:
                msg = 'the Newton test does not measure all components of the last increments'
                continue
            if not used <= {s for v in comps.values() for s in v}:
                msg = 'the Newton test measures other increments than those the step consists of'
                continue
            good = True
    o.ob('the Newton test measures the last increments', good, key + '/newton test', msg, d['at'])


def radau_error(o, H, d, base, pc, f, w, n, key, where, rej, kinds):
    """el(S,i): S solves with right-hand side F + (DD.Z)/h"""
    bad = None
    Ss = set()
    for i, ts in w.items():
        if len(ts) != 1 or len(ts[0][0]) != 1 or ts[0][0][0][1] != 2 or TM.atoms[ts[0][0][0][0]].op != 'el':
            bad = 'component %d is no squared component of a real solve' % (i + 1)
            continue
        if abs(ts[0][1] * n / 100 - 1) > 1e-10:
            bad = 'the squares are weighted by %g instead of the mean with tolerances transformed by 0.1*rtol^(2/3)' % (ts[0][1] / 100)
        Ss.add(single(TM.atoms[ts[0][0][0][0]].args[0]))
    if not bad and len(Ss) != 1:
        bad = 'components of several solves are mixed'
    o.ob('the error is a solve with the real matrix', not bad, key + '/error', 'the error estimate: %s' % bad, where)
    if bad:
        return
    S = Ss.pop()
    x = d['base'][0]
    h = TM.simp(sub(d['x1'], x), d['pc'])
    sol = stages(d, n, base)
    real = [(a, c) for (op, i), l in sol.items() if op == 'el' for a, c in l]
    toks = {single(a.args[0]).args[0] for a, c in real}
    o.ob('the estimate is solved with the matrix of the step', len(toks) == 1 and vkey(next(iter(toks))) == vkey(S.args[0]), key + '/estimate matrix',
         'the error estimate is solved with other factors than the increments', where)
    F0 = atom('F', (x,) + tuple(base)).pol
    kind = None
    bad = None
    for i in range(n):
        r = S.args[1 + i]
        Fs = [TM.atoms[m[0][0]] for m, c in r.terms if len(m) == 1 and m[0][1] == 1 and isF(TM.atoms[m[0][0]]) and abs(float(c) - 1) < 1e-12]
        Fs = [a for a in Fs if a.args[1] == i and (vkey(a.args[0]) == vkey(F0) or vkey(single(a.args[0]).args[0]) == vkey(x))]
        if len(Fs) != 1:
            bad = 'the right-hand side of the estimate does not hold the right-hand side value of the step start'
            break
        FF = single(Fs[0].args[0])
        if vkey(FF.pol) == vkey(F0):
            kk = ('first', None)
        else:
            inc = [sub(FF.args[1 + j], base[j]) for j in range(n)]
            at = [single(v) if type(v) is Poly else None for v in inc]
            if any(a is None or a.op != 'el' or not issolve(a) or a.args[1] != j for j, a in enumerate(at)) or len({a.args[0] for a in at}) != 1:
                bad = 'the estimate is recomputed at a point that is not the solution plus the first estimate'
                break
            kk = ('second', single(at[0].args[0]))
        if kind is not None and kind != kk:
            bad = 'different components use different right-hand side values'
            break
        kind = kk
        bad = bad or combo_ok(sub(r, Fs[0].pol), TM.inv(h), i, d, base, n, sol)
    o.ob('the estimate is the filtered Radau one', not bad, key + '/estimate', str(bad), where)
    if bad:
        return
    # recomputed when the first value is at least one and the step is the first or follows a rejection
    pr = rej.of(h, d['pc'], d['base'])
    hat = single(h) if type(h) is Poly else None
    if hat is None or hat.op != 'phi':
        kinds.setdefault('first', set()).add(kind[0])
    elif vkey(x) != vkey(H.a.x0) and 'reject' in pr and 'step' not in pr:
        kinds.setdefault('previously rejected', set()).add(kind[0])
    if kind[0] == 'second':
        o.ob('the estimate is recomputed only on first or previously rejected steps', 'step' not in pr, key + '/recomputed', 'the estimate is recomputed for a step following an accepted one', where)


def combo_ok(v, ih, i, d, base, n, sol):
    """v = ih * sum_k DD_k Z_k,i where the step is Z_3"""
    want = {}
    inc = sub(d['y1'][i], base[i])
    A = [(a, c) for a, c in sol.get(('el', i), [])]
    B = [(a, c) for a, c in sol.get(('elr', i), [])]
    if len(A) != 1 or len(B) != 1:
        return 'the last stage increment does not consist of one real and one complex correction'
    r = sum(DD[k] * VR[k] for k in range(3)) * A[0][1]
    S = single(B[0][0].args[0])
    # Z_k = Re(VC_k (g2 + i g3)) with Z_3 = b2 g2 : here the real part of the complex solve has weight b2 and the imaginary part none
    z = sum(DD[k] * VC[k] for k in range(3)) * B[0][1]
    got = {}
    if type(v) is not Poly:
        return 'the right-hand side of the estimate has no increments'
    for at, c in lin(v, issolve)[0].items():
        k = ratio(c, ih)
        if k is not None:
            got[at.id if hasattr(at, 'id') else at] = k
    gr = got.get(single(A[0][0].pol).id, 0.0)
    g2 = got.get(single(B[0][0].pol).id, 0.0)
    ei = single(app('eli', S.pol, i))
    g3 = got.get(ei.id, 0.0) if ei is not None else 0.0
    tol = 1e-9 * (abs(r) + abs(z))
    if abs(gr - r) > tol:
        return 'the real increment enters the estimate with the factor %.10g instead of %.10g' % (gr, r)
    if abs(g2 - z.real) > tol or abs(abs(g3) - abs(z.imag)) > tol:
        return 'the complex increment enters the estimate with the factors %.10g, %.10g instead of %.10g, %.10g' % (g2, g3, z.real, abs(z.imag))
    return None


class Provenance:
    """how the step size of an attempt came about: first, after an accepted step, after a rejection"""

    def __init__(self, H):
        self.H = H
        self.memo = {}

    def of(self, h, pc, base):
        at = single(h) if type(h) is Poly else None
        if at is None or at.op != 'phi':
            return {'first'} if vkey(base[0]) == vkey(self.H.a.x0) else {'unknown'}
        out = set()
        self.walk(at, pc, out, set())
        return out

    def groups(self, at, pc):
        # the condition may choose among the groups of histories a loop head keeps apart; they exclude each other
        allq = list(self.H.a.r.I.phiinc.get(at.args[0], {}).values())
        for q in allq:
            if at.id not in q['phi']:
                continue
            me = q['sel']
            for r in allq:
                if r is not q and r['sel'] != q['sel']:
                    me = b_and(me, b_not(r['sel']))
            if feasible(b_and(pc, me)) and self.reach(at.args[0], me, pc):
                for (s, e), v in zip(q['sts'], q['phi'][at.id]):
                    yield s, v, e

    def reach(self, cid, me, pc):
        """can a group of an outer loop head lead into the groups of inner ones that pc has chosen"""
        for c2, gs in self.H.a.r.I.phiinc.items():
            if c2 == cid:
                continue
            ch = [q for q in gs.values() if q['sel'] != 1 and implies(pc, q['sel'])]
            if ch and not any(feasible(b_and(s.pc, me)) for q in ch for s, e in q['sts']):
                return False
        return True

    def walk(self, at, pc, out, seen):
        if at.id in seen:
            return
        seen.add(at.id)
        for s, v, entry in self.groups(at, pc):
            ts = self.H.tests_of(s.pc)
            e, nw = self.H.verdict(ts, 'err'), self.H.verdict(ts, 'newton')
            if e is False or nw is False:
                out.add('reject')
            elif e is True:
                out.add('step')
            else:
                q = single(v) if type(v) is Poly else None
                if q is not None and q.op == 'phi':
                    self.walk(q, s.pc, out, seen)
                else:
                    out.add('first?')


def configs(tier):
    out = [mk(), mk(method=2, aut=False), mk(n=4, sub=1, sup=2, method=3), mk(n=3, hess=True, stub=True),
           mk(which='radau', nit=2), mk(which='radau', n=4, sub=1, sup=2, nit=2), mk(which='radau', n=3, hess=True, stub=True, nit=2), mk4(deg=3), mk4(deg=10), mk4(deg=153)]
    if tier == 'thorough':
        out += [mk(which='radau'), mk(which='radau', n=3, nit=2), mk(n=3), mk(method=3, aut=False, dft=True), mk4(deg=60)]
    return out


def name(c):
    return 'Rock4 %d stages' % c['deg'] if 'deg' in c else cfgname(c)


def run(tier):
    return run_configs('C12', tier, TECH, EXPL, analyse, configs(tier), name, 600 if tier == 'thorough' else 200)

