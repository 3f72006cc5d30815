"""Engine runs of the implicit integrators and views on their results."""
import os
from eng import *
import models
import merge

BASE = dict(which='rodas', n=2, sub=1, sup=1, hess=False, numj=False, method=1, aut=True, dft=False)


def cfgname(c):
    s = '%s n=%d' % (c['which'], c['n'])
    s += ' full' if c['sub'] == c['n'] - 1 and c['sup'] == c['n'] - 1 else ' band(%d,%d)' % (c['sub'], c['sup'])
    if c['hess']:
        s += ' Hessenberg' + (' (contract)' if c.get('stub') else '')
    s += ' numerical Jacobian' if c['numj'] else ''
    if c['which'] == 'rodas':
        s += ' method %d' % c['method'] + ('' if c['aut'] else ' non-autonomous') + (' with DF_t' if c['dft'] else '')
    for k in ('nit', 'one', 'scen', 'log'):
        if c.get(k):
            s += ' %s=%s' % (k, c[k])
    return s


def mk(**kw):
    c = dict(BASE)
    c.update(kw)
    if 'sub' not in kw:
        c['sub'] = c['sup'] = c['n'] - 1
    return c


def compile_cfg(c):
    d = (['RADAU'] if c['which'] == 'radau' else []) + ['N_=%d' % c['n'], 'SUB_=%d' % c['sub'], 'SUP_=%d' % c['sup'],
         'HESS_=%s' % ('true' if c['hess'] else 'false'), 'NUMJ_=%s' % ('true' if c['numj'] else 'false'),
         'METHOD_=%d' % c['method'], 'AUT_=%s' % ('true' if c['aut'] else 'false'), 'DFT_=%s' % ('true' if c['dft'] else 'false')]
    if c.get('stub'):
        d.append('HESSSTUB')
    d += list(c.get('defs', ()))
    return module('eng_implicit', d)


class Imp:
    """one analysed configuration"""

    def __init__(self, c, trace=False, timeout=280, cfg=None):
        self.c = c
        self.n = c['n']
        m = compile_cfg(c)
        self.r = r = Run(m, dict(trace=trace, timeout=timeout))
        r.I.cfg.update(cfg or {})
        if r.I.cfg.get('lafail'):
            r.obj('lamark', 8, 8, cells={0: (1, False)}, kind='static')
        if r.I.cfg.get('rhstimes'):
            r.obj('ghostt', 24, 8, cells={k: (8, 0) for k in (0, 8, 16)}, kind='static')
        size = r.const('h_size')
        self.self = r.obj('self', size, 16, kind='caller')
        n = self.n
        self.at = r.doubles('atol', [sym('+atol%d' % i) for i in range(n)])
        self.rt = r.doubles('rtol', [sym('+rtol%d' % i) for i in range(n)])
        r.call('h_ctor', self.self, c.get('same', False), self.at, self.rt)
        self.ctor_events = list(r.I.events)
        self.ctor_throws = list(r.throws)

    def set(self, fn, *v):
        self.r.call(fn, self.self, *v)

    def configure(self):
        c = self.c
        self.set('h_nmax', sym('nmax'))
        if c['which'] == 'radau':
            self.set('h_nit', c['nit'] if c.get('nit') else sym('nit'))
        if c.get('one'):
            self.set('h_one', True)

    def vectors(self):
        r = self.r
        self.y0 = [sym('y%d' % i) for i in range(self.n)]
        self.x0 = sym('x0')
        self.y = r.doubles('y', self.y0)
        self.x = r.doubles('x', [self.x0])

    def run(self):
        self.vectors()
        self.pre = self.r.rets
        self.r.call('h_run', self.self, sym('h0'), self.x, sym('xend'), self.y)
        self.rets = self.r.rets
        self.throws = self.r.last_throws
        self.events = self.r.I.events
        self.heads = self.r.I.heads
        return self

    # ---------------------------------------------------------- views
    def xy(self, s):
        o = s.mem['y'].cells
        return s.mem['x'].cells[0][1], [o[8 * i][1] for i in range(self.n)]

    def incoming(self, at, pc=1):
        """[(state, value, is entry)] of a loop-head value"""
        out = []
        for g, q in self.r.I.phiinc.get(at.args[0], {}).items():
            if at.id in q['phi'] and TM.feasible(TM.b_and(pc, q['sel'])):
                for (s, e), v in zip(q['sts'], q['phi'][at.id]):
                    out.append((s, v, e))
        return out

    def cell(self, s, oid, off):
        o = s.mem.get(oid)
        if o is None:
            return None
        c = o.cells.get(off)
        return c[1] if c else None


def standard(c, **kw):
    a = Imp(c, **kw)
    a.configure()
    return a.run()


def heap_left(s):
    return [(oid, o) for oid, o in s.mem.items() if o.kind == 'heap' and not o.freed and o.alloc != 'exception']


def destroy(a):
    """run the destructor on every final state, normal or exceptional: [(state, where it ended)]"""
    out = []
    r = a.r
    for what, sts in (('return', list(a.rets)), ('exception', list(a.throws))):
        for s in sts:
            s = s.fork()
            while len(s.frames) > 1:
                s.frames.pop()
            rs, ts = r.I.call('h_dtor', [a.self], s)
            for v, q in rs:
                out.append((q, what))
            if ts:
                out.append((ts[0], 'exception in the destructor'))
    return out


def run_twice(c, reset=False, **kw):
    """one step, then a second call on the same object with new data"""
    c = dict(c, one=True)
    a = Imp(c, **kw)
    a.configure()
    a.run()
    a.first = dict(rets=a.rets, throws=a.throws)
    a.mark = len(a.events)
    keep = a.rets
    if len(keep) > 1:
        keep = a.r.I.merge_rets([(None, s) for s in keep])
        keep = [s for v, s in keep]
    a.r.rets = keep
    a.y1 = [sym('w%d' % i) for i in range(a.n)]
    a.x1 = sym('t0')
    for s in a.r.rets:
        for i, v in enumerate(a.y1):
            s.wr('y').cells[8 * i] = (8, v)
        s.wr('x').cells[0] = (8, a.x1)
        if reset:
            for k in models.GHOST:
                models.gput(s, k, 0)
    a.r.call('h_run', a.self, sym('g0'), a.x, sym('tend'), a.y)
    a.rets, a.throws = a.r.rets, a.r.last_throws
    return a


SCEN = {'twice': run_twice}


def scenario(c, **kw):
    return SCEN.get(c.get('scen'), standard)(c, **kw)
