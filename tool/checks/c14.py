"""C14: a failure reported by the linear algebra ends the integration before anything is computed from it"""
from implicit import *
from steps import *
from engine_check import Obs, run_configs

TECH = 'abstract interpretation in which every linear-algebra call succeeds or fails; taint of the results of failed calls'
EXPL = ('The implicit integrators are interpreted abstractly for all histories. Every factorisation, reduction and solve has two outcomes: it reports success, or it reports failure and '
        'what it leaves behind is marked. No marked value may reach a linear solve, a factorisation, a call of a user function, a loop head or a result; with no way on, the failing path '
        'ends in an exception, which must leave the integrator.')


def marked(vs, pc):
    for v in vs:
        if type(v) is tuple:
            if marked(v, pc):
                return True
        elif type(v) is Poly and any(x.op == 'failed' for x in TM.all_atoms(v).values()):
            w = TM.simp(v, pc)
            if type(w) is Poly and any(x.op == 'failed' for x in TM.all_atoms(w).values()):
                return True
    return False


def analyse(c):
    o = Obs()
    a = scenario(c, cfg=dict(lafail=True))
    key = c['which'] + (' Hessenberg' if c['hess'] else ' band' if c['sub'] < c['n'] - 1 else ' full')
    met = 0
    for e in a.r.I.events:
        k = e['kind']
        if k == 'solve':
            met += 1
            z = 'complex' if e['z'] else 'real'
            o.ob('solves use successful factorisations', not marked([e['tok']], e['pc']), key + '/factors ' + z,
                 'a %s linear system is solved with factors whose factorisation has reported a failure' % z, e['loc'])
            o.ob('results of failed calls are not used', not marked(e['rhs'], e['pc']), key + '/solution', 'a linear solve uses the result of a failed one', e['loc'])
        elif k == 'lapack' and 'factors' in str(e['msg']):
            o.ob('solves use successful factorisations', False, key + '/factors', str(e['msg'])[:200], e['loc'])
        elif k in ('factor', 'reduce'):
            o.ob('results of failed calls are not used', not marked([e['M']], e['pc']), key + '/matrix', 'a matrix is factorised that comes from a failed call', e['loc'])
        elif k in ('rhs', 'jac', 'dft'):
            o.ob('results of failed calls are not used', not marked(list(e['y']) + [e['t']], e['pc']), key + '/call', 'a user function is called with the result of a failed linear solve', e['loc'])
        elif k in ('terminate', 'catch-clause'):
            o.ob('exceptions reach the caller', False, key + '/' + k, 'an exception is swallowed or ends the program', e['loc'])
    for s in a.rets:
        x, y = a.xy(s)
        o.ob('no normal return after a failure', s.mem['lamark'].cells[0][1] is False, key + '/return', 'the integration ends normally although a linear-algebra call has failed', None)
        o.ob('results of failed calls are not used', not marked([x] + y, s.pc), key + '/result', 'a result is computed from a failed linear-algebra call', None)
    for cid, h in a.r.I.phiinc.items():
        for q in h.values():
            for p, vs in q['phi'].items():
                for (s, e), v in zip(q['sts'], vs):
                    if v is not None:
                        o.ob('no way on after a failure', not marked([v], s.pc), key + '/loop', 'what a failed linear-algebra call left behind is carried on to another step',
                             a.r.I.heads[cid]['loc'] if cid in a.r.I.heads else None)
    if not met:
        o.skip('no linear solves met')
    return o


def run(tier):
    import suites
    cs = [c for c in suites.configs(tier) if c.get('which') in ('rodas', 'radau')]
    return run_configs('C14', tier, TECH, EXPL, analyse, cs, cfgname, 600 if tier == 'thorough' else 200)
