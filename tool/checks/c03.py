"""C03: one Rodas step is a six-stage Rosenbrock method of order 4(3)"""
from implicit import *
from steps import *
from engine_check import Obs, run_configs

TECH = 'abstract interpretation (value numbering over a polynomial domain, loop-head fixpoints) of the compiled step, then order conditions of the tableau read off'
EXPL = ('Every instantiation of Rodascc listed is interpreted abstractly from construction to return, with symbolic state, step, tolerances, '
        'end time and history (all loops brought to a fixpoint at their heads). For every transition between accepted points the new state is a polynomial in '
        'the results of the stage solves; from it the Rosenbrock tableau is read off and the order conditions (4 for the solution, 3 for '
        'the embedded one, time nodes and time-derivative weights) are evaluated with residual at most 1e-12.')
TOL = 1e-11


def embedded_weights(d, T, n):
    """[(rejected literal weights per stage)] of the quadratic forms deciding acceptance"""
    out = []
    for x, kind, p, pos in norm_literals(d['pc'], issolve):
        f = norm_form(p, n)
        if f is None:
            continue
        rows = []
        for den, q in f[0]:
            w = rank1(q)
            if w is None:
                return None
            e = [0.0] * T['s']
            idx = set()
            for a, v in w.items():
                at = TM.atoms[a]
                if not issolve(at):
                    return None
                S = single(at.args[0])
                k = [i for i, o in enumerate(T['order']) if o is S]
                if not k:
                    return None
                e[k[0]] = v
                idx.add(at.args[1])
            rows.append((den, idx, np.array(e)))
        out.append(rows)
    return out


def analyse(c):
    o = Obs()
    a = standard(c)
    tr = Transitions(a)
    key = '%s/%s%s' % ('method%d' % c['method'], 'aut' if c['aut'] else 'nonaut', '+dft' if c['dft'] else '')
    nstep = 0
    for d in tr.out:
        if d['kind'] in ('same', 'copy'):
            continue
        where = d['at']
        if d['kind'] == 'other':
            o.ob('accepted state starts from the current one', False, key + '/start', 'the state reached at %s is not a current state plus increments: %s'
                 % (where, show(d['y1'][0], 3)[:200]), where)
            continue
        base = d['base']
        try:
            T = rosenbrock(a.n, base[0], base[1:], d['x1'], d['y1'])
            gam, G, al, b = row_form(T)
        except Bad as e:
            o.ob('the step is a Rosenbrock step', False, key + '/form', str(e)[:300], where)
            continue
        nstep += 1
        o.ob('the step is a Rosenbrock step', True)
        o.ob('number of stages', T['s'] == 6, key + '/stages', '%d stages' % T['s'], where)
        for nm, r in row_conditions(al, G, b, T['alpha'], T['d'], 4, not c['aut']):
            o.ob('order condition', abs(r) <= TOL, key + '/' + nm, 'condition %s is violated by %.3e' % (nm, r), where)
        # the matrix: shifted by 1/(gamma h), minus the Jacobian of the current point is C02; here only gamma > 0
        o.ob('gamma', gam > 0, key + '/gamma', 'gamma=%g' % gam, where)
        E = embedded_weights(d, T, a.n)
        if not E:
            o.skip('no comparison of a weighted error norm decides the acceptance at %s' % where)
            continue
        for rows in E:
            for den, idx, e in rows:
                o.ob('error components', len(idx) == 1, key + '/mix', 'error norm mixes components', where)
                best = None
                for sgn in (1, -1):
                    bh = (T['m'] - sgn * e) @ G
                    R = row_conditions(al, G, bh, T['alpha'], T['d'], 3, False)[:4]
                    worst = max(R, key=lambda t: abs(t[1]))
                    if best is None or abs(worst[1]) < abs(best[1]):
                        best = worst
                o.ob('embedded order condition', abs(best[1]) <= TOL, key + '/embedded ' + best[0],
                     'the embedded solution violates condition %s by %.3e' % best, where)
                o.ob('embedded solution differs', np.abs(e).max() > 1e-3, key + '/embedded same', 'the error estimate vanishes', where)
    if not nstep:
        o.skip('no accepted step found')
    return o


def configs(tier):
    out = [mk(method=m, aut=t, dft=f, one=True) for m in (1, 2, 3) for t, f in ((True, False), (False, False), (False, True))]
    out += [mk(method=1), mk(method=2, aut=False), mk(method=3, aut=False, dft=True)]
    if tier == 'thorough':
        out += [mk(method=m, n=3) for m in (1, 2, 3)]
        out += [mk(method=m, n=4, sub=1, sup=2, aut=t) for m in (1, 2, 3) for t in (True, False)]
        out += [mk(method=m, n=3, hess=True, stub=True) for m in (1, 2)]
        out += [mk(method=1, numj=True), mk(method=2, numj=True, aut=False), mk(method=3, n=4, sub=2, sup=1, numj=True)]
    else:
        out += [mk(method=3, n=4, sub=1, sup=2, one=True)]
    return out


def run(tier):
    return run_configs('C03', tier, TECH, EXPL, analyse, configs(tier), cfgname, 600 if tier == 'thorough' else 200)
