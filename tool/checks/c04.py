"""C04: every Rock4 step is an explicit Runge-Kutta step of order 4(3), stable on the interval its degree was chosen for"""
from explicit import *
from steps import *
from scheme import *
from engine_check import Obs, run_configs

TECH = ('abstract interpretation (value numbering over a polynomial domain, loop-head fixpoints) of the compiled integrator, once per stage number the '
        'controller can choose; order conditions and stability polynomial of the tableau read off')
EXPL = ('Rock4 is interpreted abstractly from construction to return, with symbolic state, step, end time, tolerances, spectral radius and history, once for every '
        'integer result the stage formula can have (0 to 152, and larger ones). Every accepted transition is a polynomial in the right-hand side values; the tableau '
        'read from it must satisfy the 8 order conditions up to 4, the embedded solution read from the acceptance comparison those up to 3, and the stability polynomial must '
        'be bounded by 1 (by 1.01, the published coefficients exceeding 1 by 0.8 percent at two degrees) on the whole interval of step times spectral radius for which the stage formula gives this degree (evaluated on a dense grid).')
TOL = 1e-10


def stage_arg(v, h):
    """v = c0 + c1*sqrt(a + b*h*rho) -> function giving the largest h*rho for which v < m"""
    c0 = c1 = None
    sq = None
    if isnum(v):
        raise Bad('the stage number does not depend on step times spectral radius')
    for m, c in v.terms:
        if m == ():
            c0 = float(c)
        elif len(m) == 1 and m[0][1] == 1 and TM.atoms[m[0][0]].op == 'sqrt' and sq is None:
            sq, c1 = TM.atoms[m[0][0]], float(c)
        else:
            raise Bad('stage formula not recognised: ' + show(v, 2)[:150])
    if sq is None or c1 <= 0:
        raise Bad('stage formula not recognised: ' + show(v, 2)[:150])
    a, b, rest = 0.0, None, None
    for m, c in sq.args[0].terms:
        if m == ():
            a = float(c)
        elif b is None:
            rho = [x for x in m if TM.atoms[x[0]].op == 'sym' and 'rho' in str(TM.atoms[x[0]].args[0])]
            if len(rho) != 1 or rho[0][1] != 1:
                raise Bad('stage formula does not use the spectral radius: ' + show(v, 2)[:150])
            b = float(c)
            rest = [x for x in m if x not in rho]
        else:
            raise Bad('stage formula not recognised: ' + show(v, 2)[:150])
    if not rest or len(rest) != 1 or rest[0][1] != 1:
        raise Bad('stage formula does not use the step: ' + show(v, 2)[:150])
    c0 = c0 or 0.0
    return lambda m: (((m - c0) / c1) ** 2 - a) / b


def fixed_z(h):
    """z if h == z/rho, None otherwise"""
    if isnum(h) or len(h.terms) != 1:
        return None
    (m, c), = h.terms
    if len(m) == 1 and m[0][1] == -1 and 'rho' in str(TM.atoms[m[0][0]].args):
        return float(c)
    return None


def analyse(c):
    o = Obs()
    deg, n = c['deg'], c['n']
    a = Rock4Run(c).run()
    tr = Transitions(a, want=isF, timed=False)
    key = 'stages %d' % deg
    bounds = []
    for v, pc, loc in a.degargs:
        try:
            f = stage_arg(v, None)
            bounds.append(f(deg + 1))
        except Bad as e:
            o.ob('stage number from the step and the spectral radius', False, key + '/formula', str(e), loc)
    if not bounds:
        o.skip('no conversion of a real number to a stage number met')
        return o
    nst = 0
    for d in tr.out:
        where = d['at']
        if d['kind'] == 'other':
            o.ob('accepted state starts from the current one', False, key + '/start', 'the state reached is not a current state plus increments: %s' % show(d['y1'][0], 3)[:200], where)
        if d['kind'] != 'step':
            continue
        h, ev = a.r.get('h_last', a.self, d['state'])
        h = TM.simp(h, d['pc'])
        try:
            T = explicit_rk(n, d['base'], d['y1'], h)
        except Bad as e:
            o.ob('the step is an explicit Runge-Kutta step', False, key + '/form', str(e)[:300], where)
            continue
        nst += 1
        o.ob('the step is an explicit Runge-Kutta step', True)
        A, b, s = T['A'], T['b'], T['s']
        for nm, r in rk_conditions(A, b, 4):
            o.ob('order condition', abs(r) <= TOL, key + '/' + nm, 'condition %s is violated by %.3e' % (nm, r), where)
        z = fixed_z(h)
        if z is None and deg > 152:
            # a step not limited by the largest degree
            z = max(bounds)
        zmax = (z if z is not None else max(bounds)) * (1 - 2e-4)
        if zmax > 0:
            zs = -np.concatenate([np.linspace(0, min(zmax, 60), 301), np.linspace(min(zmax, 60), zmax, 2 + int(zmax / 2))])
            R = np.abs(stability(A, b, zs))
            i = int(np.nanargmax(np.where(np.isnan(R), np.inf, R)))
            o.ob('stability interval covers step times spectral radius', R[i] <= 1.01, key + '/stability',
                 '|R(%g)| = %g with %d stages, chosen for products up to %g' % (zs[i], R[i], s, zmax), where)
        ih2 = mul(TM.inv(h), TM.inv(h))
        found = False
        for x, kind, p, pos in norm_literals(d['pc'], isF):
            f = norm_form(p, n)
            if f is None:
                continue
            for den, q in f[0]:
                scale = max([abs(float(cc)) for mm, cc in TM.atoms[den].args[0].terms if len(mm) == 1 and mm[0][1] == 1 and 'atol' in str(TM.atoms[mm[0][0]].args)] or [1.0])
                q2 = mul(TM._mk(dict(q)), ih2)
                w = rank1(list(q2.terms)) if type(q2) is Poly else None
                if w is None:
                    o.ob('embedded form', False, key + '/embedded form', 'the error norm is not a weighted sum of squares of combinations of stages', where)
                    continue
                A2 = np.zeros((s + 1, s + 1))
                A2[:s, :s] = A
                A2[s, :s] = b
                e = np.zeros(s + 1)
                ok = True
                for at, v in w.items():
                    t = TM.atoms[at]
                    F = single(t.args[0]) if t.op == 'el' else None
                    if F is not None and F.id in T['pos']:
                        e[T['pos'][F.id]] += v
                    elif F is not None and all(eqp(x1, y1, 1e-11) for x1, y1 in zip(F.args, d['y1'])):
                        e[s] += v
                    else:
                        ok = False
                if not ok:
                    o.ob('embedded form', False, key + '/embedded form', 'the error estimate uses something else than the stages of this step', where)
                    continue
                best = None
                for sg in (1, -1):
                    bh = np.append(b, 0) + sg * e
                    worst = max(rk_conditions(A2, bh, 3), key=lambda t: abs(t[1]))
                    if best is None or abs(worst[1]) < abs(best[1]):
                        best = worst
                found = True
                o.ob('embedded order condition', abs(best[1]) <= TOL, key + '/embedded ' + best[0], 'the embedded solution violates condition %s by %.3e' % best, where)
                o.ob('embedded solution differs', np.abs(e).max() > 1e-4 * scale, key + '/embedded same', 'the error estimate vanishes', where)
        if not found:
            o.skip('no comparison of a weighted error norm decides the acceptance at %s' % where)
    if not nst:
        o.skip('no accepted step found')
    return o


def rows():
    """the degrees of the table, if there is one of 50 increasing integers"""
    m = module('eng_rock4', ['ALIGN_BLOCKED'], ())
    for g in m.globals.values():
        v = [it[2][1] for it in g.get('init', []) if it[1] == 'i32' and it[2][0] == 'c']
        v = [int(x) for x in v]
        if len(v) > 20 and all(x < y for x, y in zip(v, v[1:])) and v[-1] < 1000:
            return v
    return None


def configs(tier):
    degs = [1000, 153] + list(range(152, -1, -1))
    if tier != 'thorough':
        # the largest stage number served by each row of the tables, some of the smallest, and all small ones
        ms = rows()
        if ms:
            keep = {1000, 153, 152} | set(range(0, 12)) | {m + 4 for m in ms} | {m + 5 for m in ms[::6]}
            degs = [d for d in degs if d in keep]
    out = [mk4(n=1, deg=d) for d in degs]
    if tier == 'thorough':
        out += [mk4(n=2, deg=d) for d in list(range(0, 154, 3)) + [153, 400]] + [mk4(n=3, deg=5), mk4(n=3, deg=40)]
    else:
        out += [mk4(n=2, deg=5), mk4(n=2, deg=31)]
    return out


def run(tier):
    return run_configs('C04', tier, TECH, EXPL, analyse, configs(tier), lambda c: 'n=%d stages=%d%s' % (c['n'], c['deg'], ' ' + ' '.join(c.get('defs', ())) if c.get('defs') else ''),
                       600 if tier == 'thorough' else 100)
