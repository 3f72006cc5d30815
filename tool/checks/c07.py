"""C07: the coefficient tables of the symplectic integrator are the Gauss collocation methods"""
from explicit import *
from scheme import *
from engine_check import Obs, run_configs
import mpmath as mp

TECH = ('constant propagation through the coefficient constructors and the rescaling function in the compiled code for every number of stages and both floating-point types; '
        'simplifying conditions evaluated in 60-digit arithmetic on the constants found')
EXPL = ('For s = 2 to 16 and both types the constructor of GaussianMethod and change_h are interpreted on the compiled code; every coefficient the accessors then return is a constant '
        '(or, after change_h with a symbolic h, h times one). With nodes c_i = sum_j a_ij the conditions B(2s), C(s) and the symplecticity condition b_i a_ij + b_j a_ji = b_i b_j '
        'must hold to the precision the table is given in (3e-12 for double, whose tables have 12 digits, 1e-18 for long double). After change_h every coefficient must be h times the unscaled one, also '
        'when change_h is called twice, so no coefficient is left unscaled or scaled twice.')


def tables(r, g, s, o, key):
    """A, b as terms"""
    st = r.rets[0]

    def get(fn, *a):
        x = st.fork()
        x.frames = x.frames + [{}]
        rs, ts = r.I.call(fn, [g] + list(a), x)
        if not rs:
            raise Bad('%s(%s) does not return' % (fn, a))
        return TM.num(rs[0][0]) if rs[0][0] is not None else None
    return [[get('h_ga', i, j) for j in range(s)] for i in range(s)], [get('h_gb', i) for i in range(s)]


def num_(v):
    if not isnum(v):
        raise Bad('not a constant: %s' % show(v, 1)[:80])
    return mp.mpf(v)


def ratio(v, h):
    """v / h when v = const * h"""
    if type(v) is not Poly or len(v.terms) != 1:
        raise Bad('not a multiple of the step: %s' % show(v, 1)[:80] if not isnum(v) else 'not scaled by the step')
    (m, c), = v.terms
    if m != ((single(h).id, 1),):
        raise Bad('not a multiple of the step: %s' % show(v, 1)[:80])
    return mp.mpf(c)


def analyse(c):
    mp.mp.dps = 60
    o = Obs()
    s, lo = c['s'], c['long']
    key = 's=%d %s' % (s, 'long double' if lo else 'double')
    m = module('eng_gauss', ['GCC', 'ALIGN_BLOCKED', 'STAGES=%d' % s] + (['LONGD'] if lo else []), ())
    r = Run(m, dict(timeout=200))
    g = r.obj('g', r.const('h_gsize'), 16)
    r.call('h_gctor', g)
    if len(r.rets) != 1:
        o.ob('tables constructed', False, key + '/ctor', 'the constructor of the coefficients does not return exactly once', None)
        return o
    where = 'GaussianMethod<%d,%s>' % (s, 'long double' if lo else 'double')
    A, b = tables(r, g, s, o, key)
    try:
        A0 = [[num_(x) for x in l] for l in A]
        b0 = [num_(x) for x in b]
    except Bad as e:
        o.ob('constant coefficients', False, key + '/const', str(e), where)
        return o
    tol = mp.mpf('1e-18') if lo else mp.mpf('3e-12')
    cs = [sum(l) for l in A0]
    for k in range(1, 2 * s + 1):
        e = abs(sum(b0[i] * cs[i]**(k - 1) for i in range(s)) - mp.mpf(1) / k)
        o.ob('B(%s)' % '2s', e <= tol, key + '/B%d' % k, 'sum b_i c_i^%d differs from 1/%d by %s' % (k - 1, k, mp.nstr(e, 3)), where)
    for k in range(1, s + 1):
        for i in range(s):
            e = abs(sum(A0[i][j] * cs[j]**(k - 1) for j in range(s)) - cs[i]**k / k)
            o.ob('C(s)', e <= tol, key + '/C%d row %d' % (k, i), 'row %d: sum a_ij c_j^%d differs from c_i^%d/%d by %s' % (i, k - 1, k, k, mp.nstr(e, 3)), where)
    for i in range(s):
        for j in range(i + 1):
            e = abs(b0[i] * A0[i][j] + b0[j] * A0[j][i] - b0[i] * b0[j])
            o.ob('symplecticity', e <= tol, key + '/S %d %d' % (i, j), 'b_i a_ij + b_j a_ji - b_i b_j = %s for i=%d j=%d' % (mp.nstr(e, 3), i, j), where)
    c['resid'] = None
    for name in ('h', 'h2'):
        h = sym(name)
        r.call('h_gchange', g, h)
        if len(r.rets) != 1:
            o.ob('rescaling returns', False, key + '/change', 'change_h does not return exactly once', where)
            return o
        A, b = tables(r, g, s, o, key)
        for nm, new, old in [('a[%d][%d]' % (i, j), A[i][j], A0[i][j]) for i in range(s) for j in range(s)] + [('b[%d]' % i, b[i], b0[i]) for i in range(s)]:
            try:
                e = abs(ratio(new, h) - old)
                o.ob('scaled from the unscaled table', e <= tol * mp.mpf('1e-3'), key + '/scale ' + nm, '%s is the step times %s, the table has %s' % (nm, mp.nstr(old + e, 20), mp.nstr(old, 20)), where)
            except Bad as e:
                o.ob('scaled from the unscaled table', False, key + '/scale ' + nm, '%s after change_h: %s' % (nm, e), where)
    return o


def configs(tier):
    return [dict(s=s, long=lo) for s in range(16, 1, -1) for lo in (False, True)]


def run(tier):
    return run_configs('C07', tier, TECH, EXPL, analyse, configs(tier), lambda c: 's=%d%s' % (c['s'], ' long double' if c['long'] else ''), 200)
