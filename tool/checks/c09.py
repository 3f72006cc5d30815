"""C09: attempts that are discarded leave the current point as it was"""
from attempts import *
from implicit import mk, cfgname
from explicit import mk4
from engine_check import Obs, run_configs

TECH = ('abstract interpretation for all histories (loop-head fixpoints): every value the current time, solution and stored right-hand side can take at a loop head, '
        'a return or an exception is related to the points it was at before')
EXPL = ('Each adaptive integrator is interpreted abstractly from construction to return with symbolic problem, tolerances, step and history. At every loop head, back edge, return and exception '
        'the current point must be the initial point or one already met (a discarded attempt), or a point plus increments of an attempt whose acceptance comparison was decided '
        'positively on that very path; the first stage of an attempt must use the right-hand side value of the point it starts from.')


def analyse(c):
    o = Obs()
    H = Hist(c)
    a, n = H.a, H.n
    key = H.which
    nsteps = 0
    for d in H.tr.out:
        where = d['at']
        if d['kind'] == 'other':
            o.ob('the current point is a previous one or the result of a step', False, key + '/other ' + where.split(' ')[0],
                 'the current point becomes (%s; %s..), neither a point met before nor one reached by a step' % (show(d['x1'], 2)[:80], show(d['y1'][0], 2)[:120]), where)
            continue
        o.ob('the current point is a previous one or the result of a step')
        if d['kind'] == 'step':
            nsteps += 1
            v = H.verdict(d['tests'], 'err')
            o.ob('a point is left only after the error test was passed', v is True, key + '/accept',
                 'the current point changes to (%s; %s..) on a path on which the error test was %s' % (show(d['x1'], 1)[:60], show(d['y1'][0], 1)[:80], 'not passed' if v is False else 'not made'), where)
    if H.which == 'radau':
        nb = 0
        for e in a.events:
            if e['kind'] == 'jac':
                # the stored right-hand side value handed to the user is that of the point
                F = atom('F', (TM.simp(e['t'], e['pc']),) + tuple(TM.simp(v, e['pc']) for v in e['y'])).pol
                bad = [i for i in range(n) if not eqp(TM.simp(e['fy'][i], e['pc']), app('el', F, i))]
                o.ob('the stored right-hand side value belongs to the current point', not bad, key + '/stored f',
                     'the right-hand side value stored for the point is %s' % show(e['fy'][bad[0]] if bad else 0, 2)[:120], e['loc'])
                nb += 1
    if H.which == 'rodas':
        for s in a.throws:
            if 'y' in s.mem:
                y1 = a.xy(s)[1]
                o.ob('an exception leaves the caller\'s vector alone', keyof(y1) == keyof(a.y0), key + '/throw', 'at an exception the caller\'s vector holds %s' % show(y1[0], 2)[:120], 'exception')
    if not nsteps:
        o.skip('no accepted step found')
    return o


def configs(tier):
    out = [mk(), mk(method=2, aut=False), mk(n=4, sub=1, sup=2, method=3), mk(n=3, hess=True, stub=True),
           mk(which='radau', nit=3), mk(which='radau', n=4, sub=1, sup=2, nit=2), mk(which='radau', n=3, hess=True, stub=True, nit=2),
           mk4(deg=3), mk4(deg=10), mk4(deg=153)]
    if tier == 'thorough':
        out += [mk(which='radau'), mk(which='radau', numj=True), mk(which='radau', n=3, nit=2), mk(numj=True), mk(method=3, aut=False, dft=True), mk(n=3)]
        out += [mk4(deg=d) for d in (0, 1, 2, 5, 20, 50, 100, 152)]
    return out


def name(c):
    return 'Rock4 %d stages' % c['deg'] if 'deg' in c else cfgname(c)


def run(tier):
    return run_configs('C09', tier, TECH, EXPL, analyse, configs(tier), name, 600 if tier == 'thorough' else 200)
