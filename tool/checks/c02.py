"""C02: linear systems are solved with factors of the matrix belonging to the current step and Jacobian"""
from implicit import *
from steps import *
from engine_check import Obs, run_configs
import models
import numpy as np

TECH = ('abstract interpretation for all histories with symbolic factorisations: the matrix behind the factors used by each solve is compared with the Jacobian '
        'evaluated last and with the step of the stages evaluated last')
EXPL = ('Rodas and Radau are interpreted abstractly from construction to return, histories of accepted, rejected and failed attempts being covered by loop-head fixpoints. A factorisation is a term '
        'holding the matrix given to it. For every solve the matrix must be c*I minus the Jacobian evaluated last on that path (after the orthogonal reduction, for Hessenberg), '
        'complete within its band and zero outside, with c times the step of the stage times evaluated last equal to 1/gamma (Rodas) or to the real or complex eigenvalue of the inverse '
        'Radau IIA matrix. Every Jacobian must be evaluated at the current accepted point held by the caller, with the right-hand side value of that point.')

S6 = 6 ** .5
RA = np.array([[(88 - 7 * S6) / 360, (296 - 169 * S6) / 1800, (-2 + 3 * S6) / 225],
               [(296 + 169 * S6) / 1800, (88 + 7 * S6) / 360, (-2 - 3 * S6) / 225],
               [(16 - S6) / 36, (16 + S6) / 36, 1 / 9]])
EIG = np.linalg.eigvals(np.linalg.inv(RA))
U1 = float([x for x in EIG if abs(x.imag) < 1e-9][0].real)
AL = float([x for x in EIG if x.imag > 1e-9][0].real)
BE = float([x for x in EIG if x.imag > 1e-9][0].imag)
GAMMA = 0.25         # all three Rodas methods


def snapper(n):
    def f(st):
        o = st.mem.get('y')
        return dict(x=st.mem['x'].cells[0][1] if 'x' in st.mem else None, y=[o.cells[8 * i][1] for i in range(n)] if o is not None else None,
                    t=[st.mem['ghostt'].cells[8 * i][1] for i in range(3)], J=models.last_jac(st, n), pc=st.pc)
    return f


def unpack(tok, n):
    """(kind, complex?, shift or pair, J entries as held, reduction or None)"""
    at = single(tok)
    kind, z, nn, kl, ku, fl = at.args
    z = z == 'z'
    if z:
        re = [[fl[2 * (i * n + j)] for j in range(n)] for i in range(n)]
        im = [[fl[2 * (i * n + j) + 1] for j in range(n)] for i in range(n)]
    else:
        re = [[fl[i * n + j] for j in range(n)] for i in range(n)]
        im = None
    return kind, z, kl, ku, re, im


def analyse(c):
    o = Obs()
    n = c['n']
    rad = c['which'] == 'radau'
    a = scenario(c, cfg=dict(rhstimes=True, viewfn=snapper(n)))
    key = c['which'] + (' Hessenberg' if c['hess'] else ' band' if c['sub'] < n - 1 else ' full')
    inband = lambda i, j: i - j <= c['sub'] and j - i <= c['sup']
    nj = 0
    seen = set()
    bases = set()
    if not rad:
        tr = Transitions(a)
        bases = set(tr.bases)
        rodas_steps(o, c, key, a, tr, inband)
    for e in a.r.I.events:
        if e['kind'] == 'jac':
            nj += 1
            sn = e['snap']
            k = ('jac', e['pc'], vkey(e['t']), tuple(map(vkey, e['y'])))
            if k in seen:
                continue
            seen.add(k)
            args = [TM.simp(v, e['pc']) for v in [e['t']] + list(e['y'])]
            cur = [TM.simp(v, e['pc']) for v in [sn['x']] + sn['y']]
            o.ob('the Jacobian is evaluated at the current accepted point', keyof(args) in bases or keyof(args) == keyof(cur), key + '/jacobian point',
                 'the Jacobian is evaluated at (%s; %s..) while the current point is (%s; %s..)' % tuple(show(v, 2)[:60] for v in (args[0], args[1], cur[0], cur[1])), e['loc'])
        elif e['kind'] == 'lapack' and ('factors' in e['msg'] or 'pivots' in e['msg']):
            o.ob('solves use one factorisation', False, key + '/mixed', e['msg'][:200], e['loc'])
        elif e['kind'] == 'solve':
            sn = e['snap']
            tok = e['tok']
            at = single(tok) if tok is not None else None
            if at is None or at.op != 'LU':
                continue
            k = ('solve', at.id, e['pc'], vkey(tuple(sn['t'])), vkey(sn['x']), tuple(vkey(v) if v is not None else None for r in sn['J'] for v in r))
            if k in seen:
                continue
            seen.add(k)
            o.ob('solves use one factorisation')
            solve_ok(o, c, key, n, e, sn, at, inband, rad, e['pc'])
    if not nj and not c['numj']:
        o.skip('no Jacobian evaluation met')
    return o


def solve_ok(o, c, key, n, e, sn, at, inband, rad, pc):
    kind, z, kl, ku, re, im = unpack(at.pol, n)
    nm = key + (' complex' if z else ' real')
    what = 'complex' if z else 'real'
    J = sn['J']
    red = None
    if kind == 'hes':
        # entries are those of a reduction of the Jacobian
        for i in range(n):
            for j in range(n):
                if i != j and i <= j + 1:
                    h = single(neg(re[i][j])) if type(re[i][j]) is Poly else None
                    h = h if h is not None and h.op == 'hq' else None
                    if h is not None:
                        red = h.args[0]
        if red is None:
            o.ob('the matrix is a shift minus the Jacobian', False, nm + '/entries', 'the Hessenberg matrix factorised is not the reduced Jacobian', e['loc'])
            return
        Jr = single(red)
        if Jr is not None and Jr.op == 'HES' and not c['numj']:
            fl = Jr.args[1]
            stale = [(i, j) for i in range(n) for j in range(n) if J[i][j] is None or not same(fl[i * n + j], J[i][j], pc)]
            o.ob('the Jacobian factorised is the one evaluated last', not stale, nm + '/stale', 'the reduction used for a %s system is not that of the Jacobian evaluated last' % what, e['loc'])
        ent = lambda i, j: app('hq', red, i, j) if i <= j + 1 else 0
    else:
        ent = lambda i, j: J[i][j] if inband(i, j) else 0
    shift = ishift = None
    bad = None
    for i in range(n):
        for j in range(n):
            v = re[i][j]
            w = ent(i, j)
            if c['numj'] and kind != 'hes':
                # the Jacobian is what the differences gave: off-diagonal entries are compared among the two systems by the shift below
                w = None
            if i != j:
                if w is None and not c['numj']:
                    bad = bad or 'entry (%d,%d) belongs to a Jacobian never evaluated' % (i + 1, j + 1)
                elif w is not None and not same(neg(v), w, pc):
                    bad = bad or 'entry (%d,%d) is %s instead of minus the entry %s of the Jacobian evaluated last' % (i + 1, j + 1, show(v, 2)[:60], show(w, 2)[:60])
                elif w is None and not inband(i, j) and not (isnum(v) and v == 0):
                    bad = bad or 'entry (%d,%d) outside the band is not zero' % (i + 1, j + 1)
                if z and not (isnum(im[i][j]) and im[i][j] == 0):
                    bad = bad or 'entry (%d,%d) has an imaginary part' % (i + 1, j + 1)
            else:
                if w is not None:
                    s = TM.simp(add(v, w), pc)
                    if shift is None:
                        shift = s
                    elif vkey(s) != vkey(shift):
                        bad = bad or 'the diagonal is shifted differently in rows 1 and %d, or minus the Jacobian is not what it is shifted from' % (i + 1)
                if z:
                    s = im[i][i]
                    if ishift is None:
                        ishift = s
                    elif vkey(s) != vkey(ishift):
                        bad = bad or 'the imaginary shift differs between rows'
    o.ob('the matrix is a shift minus the Jacobian', not bad, nm + '/entries', 'matrix of a %s system: %s' % (what, bad), e['loc'])
    if bad:
        return
    if rad:
        radau_shift(o, c, key, nm, what, e, sn, z, shift, ishift, re, pc)


def radau_shift(o, c, key, nm, what, e, sn, z, shift, ishift, re, pc):
    # the step: last stage time that is not the current time
    h = None
    for t in sn['t']:
        h = TM.simp(TM.sub(t, sn['x']), pc)
        if not (isnum(h) and h == 0):
            break
        h = None
    if h is None:
        o.skip('a Newton system before any right-hand side call')
        return
    if shift is None and c['numj']:
        shift = multiple(re[0][0], [TM.inv(h)])
    for s, w, part in zip((shift, ishift) if z else (shift,), (AL, BE) if z else (U1,), ('real', 'imaginary')):
        if s is None:
            continue
        r = ratio(s, TM.inv(h))
        if r is None and not isnum(s):
            r = ratio(TM.simp(s, pc), TM.inv(h))
        o.ob('the shift belongs to the step in force', r is not None and abs(r - w) <= 1e-10 * abs(w), nm + '/shift ' + part,
             'the %s shift of the matrix of a %s system is %s while the stage evaluated last is %s away from the current time' % (part, what, show(s, 2)[:80], show(h, 2)[:80]), e['loc'])


def rodas_steps(o, c, key, a, tr, inband):
    """every accepted step: all stages use the factors of (1/(gamma h)) I - J, J taken where the step starts"""
    n = c['n']
    ns = 0
    for d in tr.out:
        if d['kind'] in ('same', 'copy'):
            continue
        where = d['at']
        if d['kind'] == 'other':
            o.ob('accepted state starts from the current one', False, key + '/start', 'the state reached at %s is not a current state plus increments' % where, where)
            continue
        x, y = d['base'][0], d['base'][1:]
        try:
            T = rosenbrock(n, x, y, d['x1'], d['y1'])
        except Bad as e:
            o.ob('all stages of a step use one matrix shifted by a number over the step', False, key + '/form', str(e)[:300], where)
            continue
        ns += 1
        o.ob('all stages of a step use one matrix shifted by a number over the step')
        o.ob('the shift belongs to the step in force', abs(T['g'] * GAMMA - 1) <= 1e-10, key + '/shift', 'the shift times the step taken is %r' % T['g'], where)
        if c['hess'] or c['numj']:
            continue
        bad = None
        for i in range(n):
            for j in range(n):
                v = T['J'][i][j]
                w = app('el', atom('J', (x,) + tuple(y)).pol, i + 1, j + 1) if inband(i, j) else 0
                if not same(v, w, d['pc']):
                    bad = bad or 'entry (%d,%d) is %s' % (i + 1, j + 1, show(v, 2)[:80])
        o.ob('an accepted step uses the Jacobian taken where it starts', not bad, key + '/stale', 'the Jacobian in the matrix of an accepted step: %s' % bad, where)
    if not ns:
        o.skip('no accepted step found')


def multiple(v, ihs):
    """the part of v that is a multiple of an inverse step"""
    for ih in ihs:
        ms = {m for m, c in ih.terms} if type(ih) is Poly else set()
        part = 0
        for m, c in v.terms:
            if m in ms:
                part = add(part, TM._mk({m: c}))
        if not (isnum(part) and part == 0):
            return part
    return None


def same(a, b, pc):
    if vkey(a) == vkey(b):
        return True
    if isnum(a) or isnum(b):
        return isnum(a) and isnum(b) and a == b
    return vkey(TM.simp(a, pc)) == vkey(TM.simp(b, pc))


def run(tier):
    import suites
    cs = [c for c in suites.configs(tier) if c.get('which') in ('rodas', 'radau')]
    # three Newton iterations: the convergence forecast is made between the second and the last one
    cs = [mk(which='radau', nit=3) if c == mk(which='radau', nit=2) else c for c in cs]
    return run_configs('C02', tier, TECH, EXPL, analyse, cs, cfgname, 600 if tier == 'thorough' else 200)
