"""Copying of objects that own memory: after a copy or an assignment both objects are destroyed; no block may be released twice."""
from eng import *
from terms import *

N3 = '(*(RockProblem*)a)'
TYPES = [  # name, header, second header, type, constructor arguments, defines
    ('fortranArray', 'fortranArray.hpp', None, 'fortranArray<3>', '()', ()),
    ('fortranComplexArray', 'fortranComplexArray.hpp', None, 'fortranComplexArray<3>', '()', ()),
    ('fortranRectangularArray', 'fortranRectangularArray.hpp', None, 'fortranRectangularArray<4,1,2>', '()', ()),
    ('fortranRectangularComplexArray', 'fortranRectangularComplexArray.hpp', None, 'fortranRectangularComplexArray<4,1,2>', '()', ()),
    ('fortranVectorF', 'fortranVector.hpp', None, 'fortranVectorF<3>', '()', ()),
    ('fortranVector', 'fortranVector.hpp', None, 'fortranVector', '(3)', ()),
    ('Rodascc', 'Rodascc.hpp', None, 'Rodascc<Problem<2 BOOST_C 1 BOOST_C 1 BOOST_C false BOOST_C false> >', '(true BOOST_C a BOOST_C b)', ()),
    ('Radau5cc', 'Radau5cc.hpp', None, 'Radau5cc<Problem<2 BOOST_C 1 BOOST_C 1 BOOST_C false BOOST_C false> >', '(true BOOST_C a BOOST_C b)', ()),
    ('Rock4', 'Rock4.hpp', None, 'Rock4<RockProblem>', '(*(RockProblem*)a)', ('ALIGN_BLOCKED',)),
    ('Rock4L', 'Rock4L.hpp', None, 'Rock4L<LinProblem BOOST_C false>', '(*(LinProblem*)a)', ('ALIGN_BLOCKED',)),
    ('Sdirkl', 'Sdirkl.hpp', 'RKMethod1.hpp', 'Sdirkl<RKMethod1 BOOST_C OpLin>', '(3 BOOST_C 0.5)', ('ALIGN_BLOCKED',)),
    ('SymplecticRK', 'SymplecticRK.hpp', None, 'SymplecticRK<GaussProblem<2> BOOST_C 3 BOOST_C double>', '(10)', ('ALIGN_BLOCKED',)),
]
BAD = ('double-free', 'free-dead', 'free-inside', 'free-mismatch', 'free-nonheap', 'free-undef', 'use-after-free', 'dead-object')


def defs(t):
    nm, h, h2, ty, args, extra = t
    q = lambda s: s.replace(' BOOST_C', ',')
    d = ['OWN_INC="%s"' % h, 'OWN_T=%s' % q(ty), 'OWN_ARGS=%s' % q(args)] + list(extra)
    if h2:
        d.append('OWN_INC2="%s"' % h2)
    return d


def check(o, t):
    m = module('eng_own', defs(t))
    for what in ('nothing', 'copy', 'assign'):
        r = Run(m, dict(timeout=100))
        size = r.const('o_size')
        p, q = (r.obj(k, size, 16, kind='caller') for k in ('obj', 'other'))
        a = r.obj('a', 64, 16, cells={0: (4, 3)} if 'Problem*' in t[4] else {8 * i: (8, sym('+a%d' % i)) for i in range(4)})
        b = r.doubles('b', [sym('+b%d' % i) for i in range(4)])
        r.call('o_make', p, a, b)
        if what == 'assign':
            r.call('o_make', q, a, b)
        done = [0]
        if what != 'nothing':
            done = r.call('o_' + what, q, p)
            if all(v == 0 for v in done):
                o.ob('no copy possible')
        n0 = len(r.I.events)
        keep, r.rets = r.rets, []
        for s, v in zip(keep, done * len(keep)):
            r2 = [s]
            order = [p] + ([q] if what == 'assign' or v != 0 else [])
            for x in order:
                nxt = []
                for z in r2:
                    rs, ts = r.I.call('o_kill', [x], z)
                    nxt += [w for _, w in rs]
                r2 = nxt
            r.rets += r2
        bad = [e for e in r.I.events if e['kind'] in BAD]
        o.ob('one owner: ' + t[0] + ' ' + what, not bad, 'copy %s' % t[0], '%s of %s, both objects destroyed: %s in %s' % (what, t[0], bad[0]['kind'], bad[0]['fn']) if bad else None,
             bad[0]['loc'] if bad else None)
        for s in r.rets:
            left = [x for oid, x in s.mem.items() if x.kind == 'heap' and not x.freed and x.alloc != 'exception']
            o.ob('released: ' + t[0], not left, 'leak %s %s' % (t[0], what), '%s of %s: %d blocks are never released' % (what, t[0], len(left)), left[0].site if left else None)
