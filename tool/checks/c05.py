"""C05: a step of the linear Rock4 integrator applies the stabilised order-4 polynomial of the chosen degree"""
from explicit import *
from steps import *
from scheme import *
from engine_check import Obs, run_configs
from c04 import rows, stage_arg, TOL
import linear
import functools

TECH = ('abstract interpretation of the compiled linear integrator over uninterpreted linear-operator terms, once per stage number the controller can choose; '
        'the step read as a polynomial of one eigenvalue, compared with the non-linear integrator and the order conditions')
EXPL = ('Rock4L is interpreted abstractly with symbolic state, step, end time and spectral radius, the user operator A being uninterpreted, once for every result of the stage formula. '
        'Every step transition is a term over A, y and b; replacing A by an eigenvalue gives the polynomial R(z) applied to y and the factor applied to b. R must have Taylor '
        'coefficients 1/k! up to 4, equal the stability polynomial of Rock4 extracted in the same way at the same degree, be bounded on the interval the degree is chosen for, '
        'and the factor of b must be h(R(z)-1)/z. Stage numbers above the largest must lead to an exception, and the entry point of the other problem type must throw at once.')


@functools.lru_cache(None)
def nonlinear(deg):
    """(A, b, s) of the non-linear integrator with that stage number"""
    a = Rock4Run(mk4(n=1, deg=deg)).run()
    for d in Transitions(a, want=isF, timed=False).out:
        if d['kind'] == 'step':
            h, ev = a.r.get('h_last', a.self, d['state'])
            return explicit_rk(1, d['base'], d['y1'], TM.simp(h, d['pc']))
    raise Bad('no step of the non-linear integrator found')


def analyse(c):
    o = Obs()
    for f in (False, True) if c['affine'] is None else (c['affine'],):
        one(o, dict(c, affine=f))
    return o


def one(o, c):
    deg, n = c['deg'], c['n']
    key = 'stages %d' % deg
    if c.get('wrong'):
        # the entry point of the other kind of problem
        a = Rock4LRun(c).run(linear=c['affine'])
        ev = [e for e in a.events if e['kind'] in ('linop', 'rhs')]
        o.ob('wrong entry point refused', not a.rets and a.throws, 'entry/affine=%s' % c['affine'],
             'calling the %s entry point of an integrator made for %s problems returns' % (('linear', 'affine') if c['affine'] else ('affine', 'linear')), None)
        o.ob('nothing computed before refusing', not ev, 'entry-computes/affine=%s' % c['affine'], 'the right-hand side is applied before the refusal', ev[0]['loc'] if ev else None)
        return o
    a = Rock4LRun(c).run()
    tr = Transitions(a, want=isF)
    bounds = []
    for v, pc, loc in a.degargs:
        try:
            bounds.append(stage_arg(v, None)(deg + 1))
        except Bad as e:
            o.ob('stage number from the step and the spectral radius', False, key + '/formula', str(e), loc)
    if not bounds:
        o.skip('no conversion of a real number to a stage number met')
        return o
    steps = [d for d in tr.out if d['kind'] in ('step', 'other')]
    if deg > 152:
        o.ob('too large a degree is refused', not steps, key + '/refused', 'a step is made although %d stages are not available' % deg, steps[0]['at'] if steps else None)
        o.ob('an exception reports it', bool(a.throws), key + '/throw', 'no exception is thrown with %d stages' % deg, None)
        return o
    ref = nonlinear(deg)
    zmax = max(bounds) * (1 - 2e-4)
    zc = 0.5 * np.exp(2j * np.pi * np.arange(64) / 64)
    zr = -np.concatenate([np.linspace(0.05, min(zmax, 60), 64), np.linspace(min(zmax, 60), zmax, 2 + int(min(zmax, 1500) / 16))]) if zmax > 0 else np.array([-0.1])
    zs = np.concatenate([zc, zr]).astype(complex)
    # what rounding of the coefficients can change: the last four stages are a polynomial in powers of z
    tolR = 1e-9 + 5e-14 * np.abs(zs)**4
    tolB = 1e-9 + 1e-11 * np.abs(zs)**3
    Rref = stability(ref['A'], ref['b'], zs)
    nst = 0
    for d in steps:
        where = d['at']
        if d['kind'] == 'other':
            o.ob('a step starts from the current state', False, key + '/start', 'the new state is not formed from the current one: %s' % show(d['y1'][0], 3)[:200], where)
            continue
        ybase = [single(v).id for v in d['base'][1:]]
        bs = [single(v).id for v in a.b0]
        tb = single(d['base'][0]).id
        for trial in range(2 if deg < 12 else 1):
            rng = np.random.default_rng(11 + trial)
            store = {}

            def leaf(at):
                if at.id == tb:
                    return 0.0
                if at.op not in ('phi', 'sym'):
                    raise Bad('the step depends on %s' % show(at.pol, 1)[:60])
                if at.id not in store:
                    store[at.id] = 1.0 + 0.5 * rng.random()
                return store[at.id]
            try:
                h = linear.evaluate(d['x1'], leaf)
                if abs(h) < 1e-12:
                    o.skip('no positive step at %s' % where)
                    continue

                def ev(comp, yv, bv):
                    def env(at):
                        if at.id in ybase:
                            return yv[ybase.index(at.id)]
                        if at.id in bs:
                            return bv[bs.index(at.id)]
                        return leaf(at)
                    return linear.evaluate(d['y1'][comp], env, lambda S, x, op: x * zs / h) + 0 * zs
                for comp in range(n):
                    zero = [0.0] * n
                    e = [0.0] * n
                    e[comp] = 1.0
                    R0 = ev(comp, zero, zero)
                    R = ev(comp, e, zero) - R0
                    o.ob('a linear map of the state', np.abs(R0).max() < 1e-12, key + '/homogeneous', 'the step adds something that depends neither on the state nor on b', where)
                    oth = [1.0] * n
                    oth[comp] = 0.0
                    if n > 1:
                        o.ob('components are kept apart', np.abs(ev(comp, oth, oth) - R0).max() < 1e-12, key + '/components', 'component %d of the result depends on other components' % comp, where)
                    co = np.fft.fft(R[:64].astype(complex)) / 64
                    fact = 1.0
                    for k in range(5):
                        fact *= max(k, 1)
                        v = (co[k] / 0.5**k).real
                        o.ob('order condition of the stability polynomial', abs(v - 1 / fact) < TOL, key + '/order %d' % k,
                             'coefficient of z^%d is %.14g, should be %.14g' % (k, v, 1 / fact), where)
                    err = np.abs(R - Rref) / tolR
                    i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
                    o.ob('same polynomial as the non-linear integrator', err[i] < 1, key + '/same', 'R(%s) = %s, the non-linear integrator has %s' % (complex(zs[i]), complex(R[i]), complex(Rref[i])), where)
                    Rr = np.where(tolR[64:] < 0.02, np.abs(R[64:]) - tolR[64:], 0)
                    i = int(np.argmax(np.where(np.isnan(Rr), np.inf, Rr)))
                    o.ob('stability interval covers step times spectral radius', Rr[i] <= 1.01, key + '/stability', '|R(%g)| = %g, chosen for products up to %g' % (zr[i], Rr[i], zmax), where)
                    if c['affine']:
                        B = ev(comp, zero, e) - R0
                        want = h * (R - 1) / zs
                        err = np.abs(B - want) / tolB
                        i = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
                        o.ob('response to the constant term', err[i] < 1, key + '/affine', 'the factor of b at z=%s is %s, should be %s' % (complex(zs[i]), complex(B[i]), complex(want[i])), where)
                nst += 1
            except Bad as e:
                o.ob('the step is a polynomial of the operator', False, key + '/form', str(e)[:300], where)
                break
    if not nst:
        o.skip('no step found')
    return o


def configs(tier):
    degs = list(range(0, 153))
    if tier != 'thorough':
        ms = rows()
        if ms:
            keep = {152} | set(range(0, 8)) | {m + 4 for m in ms}
            degs = [d for d in degs if d in keep]
    out = [mkl(n=1, deg=d, affine=None) for d in [1000, 153] + degs[::-1]]
    out += [mkl(n=2, deg=d, affine=f) for d in ([5, 31] if tier != 'thorough' else [0, 5, 6, 17, 31, 60, 152]) for f in (False, True)]
    out += [mkl(n=2, deg=7, affine=f, wrong=True) for f in (False, True)]
    return out


def run(tier):
    return run_configs('C05', tier, TECH, EXPL, analyse, configs(tier),
                       lambda c: 'n=%d stages=%d%s%s' % (c['n'], c['deg'], ' affine' if c['affine'] else '', ' wrong entry' if c.get('wrong') else ''),
                       600 if tier == 'thorough' else 100)
