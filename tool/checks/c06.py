"""C06: diagonally implicit steps on linear and affine problems"""
from explicit import *
from linear import *
from math import factorial
from engine_check import Obs, run_configs

TECH = 'abstract interpretation (value numbering) of the compiled step; the rational function it applies is read off and compared with the order conditions'
EXPL = ('Construction and step of every SDIRK method, linear and affine, are interpreted with symbolic state, forcing and time step. The new state is a linear combination of '
        'applications of the resolvent; as a function of one eigenvalue it is the stability function, whose Taylor coefficients must agree with the exponential up to the order of the method, '
        'and the forcing must enter as (R(z)-1)/z. The operator is prepared once with the time step times the diagonal coefficient and applied once per stage.')
TOL = 1e-10


def response(a, v, i, y, b, dt=1.0):
    """z -> factor of the state or the forcing"""
    def f(z):
        lam = np.asarray(z, dtype=complex) / dt

        def env(at):
            if at.op != 'sym':
                return None
            nm = at.args[0]
            if nm == 'dt':
                return dt
            if nm.startswith('y'):
                return y if nm == 'y%d' % i else None
            if nm.startswith('b'):
                return b if nm == 'b%d' % i else None
            return None
        return evaluate(v, env, lambda S, x, d: x / (1 - d * lam)) + 0 * lam
    return f


def analyse(c):
    o = Obs()
    a = SdirkRun(c)
    a.run()
    key = '%s/%s' % (c['method'], 'affine' if c['affine'] else 'linear')
    p = SDIRK[c['method']]
    nst = a.r.const('h_nstage')
    where = 'SDIRKL/include/Sdirkl.hpp'
    ev = a.r.I.events
    inits = [e for e in ev if e['kind'] == 'op-init']
    apps = [e for e in ev if e['kind'] == 'op-apply']
    o.ob('operator prepared once', len(inits) == 1, key + '/init', '%d preparations' % len(inits), inits[-1]['loc'] if inits else where)
    o.ob('operator applied once per stage', len(apps) == nst, key + '/applications', '%d applications for %d stages' % (len(apps), nst), apps[-1]['loc'] if apps else where)
    g = None
    for e in inits:
        q = div(e['d'], a.dt)
        ok = isnum(q) and float(q) > 0
        o.ob('operator prepared with the step times the diagonal', ok, key + '/gamma', 'prepared with %s' % show(e['d'], 2)[:100], e['loc'])
        if ok:
            g = float(q)
    for s in a.rets:
        x, y = a.xy(s)
        zs = np.array([-0.3, -1.7, -20.0, -1e3, 0.4 + 1.1j, -2 + 5j])
        for i, v in enumerate(y):
            try:
                R = response(a, v, i, 1.0, 0.0)
                co = taylor(R, p + 2, 0.2)
                for k in range(p + 1):
                    o.ob('order condition', abs(co[k] - 1 / factorial(k)) <= TOL, key + '/order %d' % k,
                         'coefficient of z^%d is %.15g, should be 1/%d' % (k, co[k], factorial(k)), where)
                o.ob('the same for every time step', np.allclose(R(zs), response(a, v, i, 1.0, 0.0, 0.37)(zs), 1e-10, 1e-12), key + '/step',
                     'the step does not depend on step times operator only', where)
                o.ob('linear in the state', np.allclose(response(a, v, i, 3.0, 0.0)(zs), 3 * R(zs)), key + '/linear', 'the step is not linear', where)
                if c['affine']:
                    Q = response(a, v, i, 0.0, 1.0)
                    o.ob('forcing enters as the step of the affine problem', np.allclose(Q(zs), (R(zs) - 1) / zs, 1e-9, 1e-10), key + '/forcing',
                         'response to the forcing %s, should be %s' % (Q(zs)[:2], ((R(zs) - 1) / zs)[:2]), where)
                if g is not None:
                    # one pole only, at 1/gamma: the tableau has equal diagonal entries and the prepared operator is used as it is
                    zz = 0.6 * np.exp(2j * np.pi * np.arange(32) / 32)
                    P = np.fft.fft(R(zz) * (1 - g * zz) ** nst) / 32 / 0.6 ** np.arange(32)
                    o.ob('numerator of degree at most the number of stages', np.abs(P[nst + 1:nst + 6]).max() < 1e-6, key + '/rational',
                         'the step is no Runge-Kutta step with this diagonal', where)
            except Bad as ex:
                o.ob('the step is linear in the state and the forcing', False, key + '/form', str(ex), where)
    # a step must not keep anything from the previous one
    a2 = SdirkRun(c)
    a2.run(steps=2)
    for s in a2.rets:
        x, y = a2.xy(s)
        try:
            R1 = response(a, a.xy(a.rets[0])[1][0], 0, 1.0, 0.7)(zs)
            R0 = response(a, a.xy(a.rets[0])[1][0], 0, R1, 0.7)(zs)
            o.ob('a second step does the same', np.allclose(response(a2, y[0], 0, 1.0, 0.7)(zs), R0, 1e-9, 1e-10), key + '/second step',
                 'the second step differs from the first one applied again', where)
        except Bad as ex:
            o.ob('the step is linear in the state and the forcing', False, key + '/form', str(ex), where)
    return o


def configs(tier):
    out = [mks(method=m, affine=f) for m in SDIRK for f in (False, True)]
    if tier == 'thorough':
        out += [mks(method=m, affine=f, n=n) for m in SDIRK for f in (False, True) for n in (1, 3, 5)]
    return out


def run(tier):
    return run_configs('C06', tier, TECH, EXPL, analyse, configs(tier), lambda c: '%s n=%d%s' % (c['method'], c['n'], ' affine' if c['affine'] else ''), 200)
