"""Memory, initialisation and calling-convention obligations collected from the events of an engine run."""
from terms import *
import terms as TM
from implicit import heap_left, destroy

OWN = ('double-free', 'free-dead', 'free-inside', 'free-mismatch', 'free-nonheap', 'free-undef', 'use-after-free', 'dead-object')
BOUNDS = ('out-of-bounds', 'null-deref', 'negative-allocation')
INIT = ('undef-branch', 'undef-to-library', 'undef-deref', 'undef-arg')
PROMISE = ('restrict-overlap', 'memcpy-overlap', 'assume')
CALLBACK = ('alias-arg', 'undef-arg')
LA = ('lapack', 'la-argument')
WEAK = ('symbolic-index', 'symbolic-memcpy', 'symbolic-memset', 'symbolic-size', 'unknown-ptr', 'unknown-external', 'unknown-intrinsic', 'indirect-call',
        'free-unknown')


def callback(e):
    """is the event about an argument of a user function"""
    return not str(e.get('what', '')).startswith(('matrix', 'right-hand side of', 'vector to', 'factor', 'pivot'))


def describe(e):
    skip = ('kind', 'loc', 'fn', 'ctx', 'pc', 'cond')
    return '; '.join('%s=%s' % (k, str(v)[:120]) for k, v in e.items() if k not in skip)


def events(o, a, kinds, rule, flt=None):
    bad = 0
    for e in a.r.I.events:
        if e['kind'] in kinds and (flt is None or flt(e)):
            bad += 1
            o.ob(rule, False, '%s %s' % (e['kind'], e['fn']), '%s in %s: %s' % (e['kind'], e['fn'], describe(e)), e['loc'])
        elif e['kind'] in WEAK:
            o.skip('%s at %s' % (e['kind'], e['loc']))
    return bad


def ownership(o, a):
    events(o, a, OWN, 'releases match allocations')
    n0 = len(a.r.I.events)
    fin = destroy(a)
    for e in a.r.I.events[n0:]:
        if e['kind'] in OWN:
            o.ob('releases match allocations', False, '%s %s' % (e['kind'], e['fn']), 'in the destructor: %s %s' % (e['kind'], describe(e)), e['loc'])
    for s, what in fin:
        left = heap_left(s)
        o.ob('everything released after ' + what, not left, 'leak after ' + what + ' ' + str(left[0][1].name) if left else None,
             '%d blocks are never released, the first from %s' % (len(left), left[0][1].name) if left else None, left[0][1].site if left else None)
    for al in a.r.I.allocs[:1]:
        pass
    for k in range(len({str(x[0]) for x in a.r.I.allocs})):
        o.ob('allocation sites followed')
    return fin


# ------------------------------------------------------------ final states
GETTERS = {'rodas': ('h_nstep', 'h_naccpt', 'h_nrejct', 'h_njac', 'h_ndec'),
           'radau': ('h_nstep', 'h_naccpt', 'h_nrejct', 'h_njac', 'h_ndec', 'h_newt', 'h_nfcn')}


def results_defined(o, a):
    """what the caller gets back has been given a value"""
    n = a.n
    for s in a.rets:
        x, y = a.xy(s)
        for nm, v in [('time', x)] + [('component %d' % i, v) for i, v in enumerate(y)]:
            bad = TM.undef_under(v, s.pc)
            o.ob('returned values are defined', not bad, 'returned %s' % nm.split()[0], 'the returned %s depends on uninitialised data' % nm)
        for g in GETTERS[a.c['which']]:
            v, ev = a.r.get(g, a.self, s)
            bad = TM.undef_under(v, s.pc) if v is not None else True
            o.ob('statistics are defined', not bad, 'statistic %s' % g[2:], 'the statistic %s is uninitialised after an integration' % g[2:])


def count_calls(o, a, rule):
    """what was looked at"""
    for e in a.r.I.events:
        if e['kind'] in ('rhs', 'jac', 'dft', 'factor', 'solve'):
            o.ob('%s: %s call' % (rule, e['kind']))
