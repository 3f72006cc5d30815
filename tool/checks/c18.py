"""C18: the statistics are counts of what was done"""
from attempts import *
from implicit import mk, cfgname, run_twice
from explicit import mk4, mkl, Rock4LRun
from engine_check import Obs, run_configs
import models

TECH = ('abstract interpretation for all histories with ghost counters of every right-hand side, Jacobian and factorisation call; the getters, interpreted on the final states, are compared with '
        'them, and the step counters are related to the transitions of the accepted point at every loop edge')
EXPL = ('The integrators are interpreted abstractly from construction to return, loops by fixpoints at their heads, while ghost counters of the abstract machine count the calls of user functions and '
        'factorisations. On every returned state each getter must yield the ghost count of its kind (value numbering at loop heads relates the two counters). At every edge into a loop head and at '
        'return, the counters of attempted, accepted and rejected steps must have grown by exactly one when an attempt was made, accepted, or rejected after the first acceptance, and not otherwise. '
        'A second integration on the same object starts all counters afresh.')


def getter(a, s, fn):
    q = s.fork()
    while len(q.frames) > 1:
        q.frames.pop()
    rs, ts = a.r.I.call(fn, [a.self], q)
    if len(rs) != 1:
        raise TM.TooMany('getter with %d results' % len(rs)) if hasattr(TM, 'TooMany') else ValueError('getter')
    return rs[0][0]


def equal(o, a, key, which, pairs, base=None):
    for s in a.rets:
        for fn, gs, what in pairs:
            v = getter(a, s, fn)
            for g in gs:
                w = models.gget(s, g)
                if base:
                    w = sub(w, base.get(g, 0))
                d = TM.simp(sub(TM.simp(v, s.pc), TM.simp(w, s.pc)), s.pc)
                ok = isnum(d) and d == 0
                if not ok and type(d) is Poly:
                    ok = all(isnum(x) and x == 0 for q, (x,) in allcases(s.pc, [d], 64))
                o.ob('the reported number is the number of calls made', ok, key + '/' + what, 'the number of %s reported exceeds the real one by %s' % (what, show(d, 2)[:120]), 'return')


def allcases(pc, vals, limit):
    """split on the conditions of all choices at the top of the values"""
    v = [TM.simp(x, pc) for x in vals]
    for x in v:
        c = topites(x, []) if type(x) is Poly else []
        if c:
            if limit <= 1:
                return [(pc, v)]
            out = []
            for cnd in (c[0], b_not(c[0])):
                p = b_and(pc, cnd)
                if p != 0 and feasible(p):
                    out += allcases(p, v, limit // 2)
            return out
    return [(pc, v)]


def split(v):
    """v = phi + c or c: (phi atom or None, c) or None"""
    if isnum(v):
        return None, v
    c, ph = 0, None
    for m, k in v.terms:
        if m == ():
            c = k
        elif len(m) == 1 and m[0][1] == 1 and k == 1 and TM.atoms[m[0][0]].op == 'phi' and ph is None:
            ph = TM.atoms[m[0][0]]
        else:
            return None
    return ph, c


COUNT = {'rodas': dict(nstep='h_nstep', nacc='h_naccpt', nrej='h_nrejct'), 'radau': dict(nstep='h_nstep', nacc='h_naccpt', nrej='h_nrejct'),
         'rock4': dict(nstep='h_nstep', nacc='h_nacc', nrej='h_nrej')}


def steps(o, H, key):
    a = H.a
    C = COUNT[H.which]
    # the values the counters have at loop heads
    heads = {k: set() for k in C}
    for cid, h in a.r.I.heads.items():
        for _, s in h['H']:
            if 'self' not in s.mem:
                continue
            for k, fn in C.items():
                r = split(TM.simp(getter(a, s, fn), s.pc))
                if r and r[0] is not None:
                    heads[k].add(r[0].id)
    nst = 0
    acc = accepts(H)
    done = set()
    for d in H.tr.out:
        if d['kind'] not in ('step', 'same', 'copy'):
            continue
        s = d['state']
        entry = d['at'].startswith('entry')
        if entry and d['kind'] != 'step':
            continue
        init = d['kind'] == 'step' and keyof(d['base'][1 if H.which != 'rock4' else 0:]) == keyof(a.y0)
        k0 = (id(s), d['kind'], d['pc'])
        if k0 in done:
            continue
        done.add(k0)
        cur = {k: getter(a, s, fn) for k, fn in C.items()}
        for pc, (ns, na, nr) in allcases(d['pc'], [cur['nstep'], cur['nacc'], cur['nrej']], 64):
            v = dict(nstep=split(ns), nacc=split(na), nrej=split(nr))
            bad = [k for k in v if v[k] is None or (v[k][0] is not None and v[k][0].id not in heads[k])]
            if bad:
                o.ob('the counters are incremented by constants', False, key + '/form', 'the number of steps %s is %s' % (bad[0], show({'nstep': ns, 'nacc': na, 'nrej': nr}[bad[0]], 2)[:100]), d['at'])
                continue
            ts = H.tests_of(pc)
            ve, vn = H.verdict(ts, 'err'), H.verdict(ts, 'newton')
            where = d['at']
            if d['kind'] == 'step':
                nst += 1
                o.ob('an accepted step is counted once', v['nacc'][1] == 1, key + '/accepted', 'the number of accepted steps grows by %s with an accepted step' % v['nacc'][1], where)
                o.ob('an accepted step is no rejection', v['nrej'][1] == 0, key + '/rejected', 'the number of rejected steps grows by %s with an accepted step' % v['nrej'][1], where)
                o.ob('every attempt is counted once', v['nstep'][1] == 1, key + '/attempts', 'the number of attempted steps grows by %s with an accepted step' % v['nstep'][1], where)
    for cid, h in a.r.I.heads.items():
        if not any('self' in s.mem for _, s in h['H']):
            continue
        seen = set()
        for _, s in h['H']:
            seen |= {t['x'] for t in err_tests(s.pc, H.want)}
        for s in h['backs']:
            if 'self' in s.mem:
                discarded(o, H, key, s, heads, C, seen, acc, 'back edge ' + h['loc'])
    o.ob('accepted steps were met', nst > 0, key + '/none', 'no accepted step was met', 'operator()')


def sigs(tests):
    """what the error tests among the tests compare with: to tell the acceptance test from other comparisons of the same norm"""
    out = set()
    for t, cs, k in tests:
        for q, f in cs:
            if k == 'err' and f is not None and f['Q'] is not None and isnum(f['c0']) and isnum(f['k']):
                cf = sorted({float('%.6g' % abs(c)) for ts in f['Q'].values() for m, c in ts})
                out.add((f['root'], float('%.6g' % (float(f['c0']) / float(f['k']))), cf[0]))
    return out


def accepts(H):
    """the comparisons every accepted step has passed"""
    r = None
    for d in H.tr.out:
        if d['kind'] == 'step':
            g = sigs(d['tests'])
            r = g if r is None else r & g
    return r or set()


def outcomes(pc, H, skip, limit=16):
    """the condition split on the outcomes of the error tests it may hold"""
    for x in sorted(b_support(pc)):
        kind, p = TM.bvars[x]
        if x in skip or kind not in ('L', 'G') or type(p) is not Poly or not holds(p, H.want) or not normish(p, H.want):
            continue
        t, f = b_and(pc, TM.bdd_node(x, 0, 1)), b_and(pc, TM.bdd_node(x, 1, 0))
        if t != 0 and f != 0 and feasible(t) and feasible(f):
            if limit <= 1:
                return [pc]
            return outcomes(t, H, skip, limit // 2) + outcomes(f, H, skip, limit // 2)
    return [pc]


def discarded(o, H, key, s, heads, C, seen, acc, where):
    cur = {k: getter(H.a, s, fn) for k, fn in C.items()}
    for pc0 in outcomes(s.pc, H, seen):
        ts = [t for t in H.tests_of(pc0) if t[0]['x'] not in seen and (t[2] != 'err' or sigs([t]) & acc)]
        ve, vn = H.verdict(ts, 'err'), H.verdict(ts, 'newton')
        if ve is not False or any(H.verdict([t], 'err') is True for t in ts):
            continue                # no attempt decided by the error, or one accepted after a discarded one
        for pc, (ns, na, nr) in allcases(pc0, [cur['nstep'], cur['nacc'], cur['nrej']], 64):
            vs, va, vr = split(ns), split(na), split(nr)
            if vs is None or va is None or vr is None:
                o.ob('the counters are incremented by constants', False, key + '/form', 'the counters after a discarded attempt are %s, %s, %s' % tuple(show(x, 2)[:60] for x in (ns, na, nr)), where)
                continue
            o.ob('a discarded attempt is not counted as accepted', va[1] == 0, key + '/accepted', 'the number of accepted steps grows by %s with a discarded attempt' % va[1], where)
            o.ob('every attempt is counted once', vs[1] == 1, key + '/attempts', 'the number of attempted steps grows by %s with a rejected attempt' % vs[1], where)
            ge = b_and(pc, b_not(TM.lt0(na, True)))
            eq = TM.lt0(sub(na, 1), True)
            some, none = not feasible(b_and(ge, eq)), not feasible(b_and(ge, b_not(eq)))
            if H.which == 'rock4':
                some, none = True, False
            if vr[1] not in (0, 1):
                o.ob('a rejection is counted once', False, key + '/rejected', 'the number of rejected steps grows by %s with a rejection' % vr[1], where)
            elif some:
                o.ob('a rejection is counted once', vr[1] == 1, key + '/rejected', 'a rejection after the first accepted step is not counted', where)
            elif none:
                o.ob('rejections before the first accepted step are not counted', vr[1] == 0, key + '/rejected', 'a rejection before the first accepted step is counted', where)
            else:
                o.ob('rejections are told apart by an accepted step', False, key + '/rejected', 'the number of rejected steps grows by %s whatever was accepted before' % vr[1], where)


def analyse(c):
    o = Obs()
    w = c['which']
    key = w
    if w == 'rock4l':
        a = Rock4LRun(c).run()
        equal(o, a, key, w, [('h_nfcn', ['apply'], 'operator applications')])
        return o
    if c.get('scen') == 'twice':
        c = dict(c)
        del c['scen']
        a = run_twice(c, reset=True)
        pairs = [('h_njac', ['jac'], 'Jacobians'), ('h_ndec', ['fact', 'factc'] if w == 'radau' else ['fact'], 'factorisations')]
        if w == 'radau':
            pairs.append(('h_nfcn', ['rhs'], 'right-hand side evaluations'))
        equal(o, a, key + '/second call', w, pairs)
        for s in a.rets:
            na, nr = getter(a, s, 'h_naccpt'), getter(a, s, 'h_nrejct')
            for pc, (x, y) in allcases(s.pc, [na, nr], 64):
                o.ob('the counters start afresh', isnum(x) and x <= 1 and isnum(y) and y == 0, key + '/second call/steps', 'after one step of a second call %s accepted and %s rejected steps are reported' % (show(x, 2)[:40], show(y, 2)[:40]), 'return')
        return o
    H = Hist(c)
    if w == 'rock4':
        equal(o, H.a, key, w, [('h_nfcn', ['rhs'], 'right-hand side evaluations')])
    else:
        pairs = [('h_ndec', ['fact', 'factc'] if w == 'radau' else ['fact'], 'factorisations')]
        if not c['numj']:
            pairs.append(('h_njac', ['jac'], 'Jacobians'))
        if w == 'radau':
            pairs.append(('h_nfcn', ['rhs'], 'right-hand side evaluations'))
        equal(o, H.a, key, w, pairs)
    steps(o, H, key)
    return o


def configs(tier):
    out = [mk(), mk(method=2, aut=False), mk(n=4, sub=1, sup=2, numj=True), mk(which='radau', nit=2), mk(which='radau', nit=3), mk(which='radau', n=4, sub=1, sup=2, numj=True, nit=2),
           mk(scen='twice'), mk(which='radau', nit=2, scen='twice'), mk4(deg=3), mk4(deg=10), mk4(deg=153), mkl(deg=5), mkl(deg=5, affine=True)]
    if tier == 'thorough':
        out += [mk(which='radau'), mk(numj=True), mk(n=3, hess=True, stub=True), mk(which='radau', n=3, hess=True, stub=True, nit=2), mk4(deg=60)]
    return out


def name(c):
    return 'Rock4 %d stages' % c['deg'] if c['which'] == 'rock4' else 'Rock4L %d stages%s' % (c['deg'], ' affine' if c['affine'] else '') if c['which'] == 'rock4l' else cfgname(c) + (' two calls' if c.get('scen') else '')


def run(tier):
    return run_configs('C18', tier, TECH, EXPL, analyse, configs(tier), name, 600 if tier == 'thorough' else 200)
