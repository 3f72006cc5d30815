"""Engine runs of the explicit and the fixed-step integrators."""
from eng import *
from interp import ToolError
import models
import merge
import terms as TM


def mk4(**kw):
    c = dict(which='rock4', n=2, deg=5, omp=False)
    c.update(kw)
    return c


class Rock4Run:
    """Rock4 with the number of stages the controller computes assumed to be deg"""

    def __init__(self, c, timeout=200, trace=False, first=None):
        self.c = c
        self.n = n = c['n']
        m = module('eng_rock4', ['ALIGN_BLOCKED'] + list(c.get('defs', ())), c.get('flags', ()))
        self.r = r = Run(m, dict(trace=trace, timeout=timeout))
        self.degargs = []


        def trunc(I, s, v, ins):
            self.degargs.append((v, s.pc, I.m.loc(ins[3])))
            d = c['deg']
            return d

        r.I.hooks['fptosi'] = trunc
        r.I.cfg['headints'] = {0} | set(range(min(c['deg'], 152) - 4, c['deg'] + 24))
        if not c.get('loop'):
            r.I.cfg['maxrhs'] = c.get('maxrhs')
        size = r.const('h_size')
        self.self = r.obj('self', size, 16, kind='caller')
        self.prob = r.obj('prob', 16, 16, kind='caller')
        r.call('h_prob', self.prob, n)
        r.call('h_ctor', self.self, self.prob)
        if c.get('tol', True):
            r.call('h_tol', self.self, sym('+atol'), sym('+rtol'))
        self.y0 = [sym('y%d' % i) for i in range(n)]
        (yp,), = [r.call('h_alloc', n)]
        self.yp = yp
        for s in r.rets:
            for i, v in enumerate(self.y0):
                s.wr(yp.obj).cells[8 * i] = (8, v)
            # heap block owned by the caller
        self.py = r.obj('py', 8, 8, kind='caller', cells={0: (8, yp)})

    def run(self):
        r = self.r
        r.call('h_run', self.self, self.py, sym('t0'), sym('tend'), sym('+h0'))
        self.rets = r.rets
        self.throws = r.last_throws
        self.events = r.I.events
        return self

    def incoming(self, at, pc=1):
        out = []
        for g, q in self.r.I.phiinc.get(at.args[0], {}).items():
            if at.id in q['phi'] and TM.feasible(TM.b_and(pc, q['sel'])):
                for (s, e), v in zip(q['sts'], q['phi'][at.id]):
                    out.append((s, v, e))
        return out

    def xy(self, s):
        p = s.mem['py'].cells[0][1]
        o = s.mem[p.obj].cells
        return None, [o[8 * i][1] for i in range(self.n)]


def mkl(**kw):
    c = dict(which='rock4l', n=1, deg=5, affine=False)
    c.update(kw)
    return c


class Base:
    incoming = Rock4Run.incoming

    def base(self, harness, defs, n, c, trace, timeout):
        self.c = c
        self.n = n
        m = module(harness, list(defs) + list(c.get('defs', ())), c.get('flags', ()))
        self.r = Run(m, dict(trace=trace, timeout=timeout))
        self.self = self.r.obj('self', self.r.const('h_size'), 16, kind='caller')
        return self.r

    def done(self):
        self.rets = self.r.rets
        self.throws = self.r.last_throws
        self.events = self.r.I.events
        return self


class Rock4LRun(Base):
    """the linear Rock4 integrator with the number of stages assumed to be deg"""

    def __init__(self, c, timeout=200, trace=False):
        n = c['n']
        r = self.base('eng_rock4l', ['GCC', 'ALIGN_BLOCKED', 'AFFINE=%s' % ('true' if c['affine'] else 'false')], n, c, trace, timeout)
        self.degargs = []

        def trunc(I, s, v, ins):
            self.degargs.append((v, s.pc, I.m.loc(ins[3])))
            d = c['deg']
            return d
        r.I.hooks['fptosi'] = trunc
        r.I.cfg['headints'] = {0} | set(range(min(c['deg'], 152) - 4, c['deg'] + 24))
        self.prob = r.obj('prob', 16, 16, kind='caller')
        r.call('h_prob', self.prob, n)
        r.call('h_ctor', self.self, self.prob)
        self.x0 = sym('t0')
        self.y0 = [sym('y%d' % i) for i in range(n)]
        self.b0 = [sym('b%d' % i) for i in range(n)]
        (self.yp,), = [r.call('h_alloc', n)]
        (self.bp,), = [r.call('h_alloc', n)]
        for s in r.rets:
            for i in range(n):
                s.wr(self.yp.obj).cells[8 * i] = (8, self.y0[i])
                s.wr(self.bp.obj).cells[8 * i] = (8, self.b0[i])

    def run(self, linear=None):
        r = self.r
        if self.c['affine'] if linear is None else not linear:
            r.call('h_runb', self.self, self.yp, self.bp, self.x0, sym('tend'), sym('+h0'))
        else:
            r.call('h_run', self.self, self.yp, self.x0, sym('tend'), sym('+h0'))
        return self.done()

    def xy(self, s):
        o = s.mem[self.yp.obj].cells
        t, ev = self.r.get('h_time', self.self, s)
        return t, [o[8 * i][1] for i in range(self.n)]


SDIRK = dict(EulerImp=1, CrN=2, RKRS=2, RKMethod1=4, RKMethod2=4)


def mks(**kw):
    c = dict(which='sdirk', n=2, method='CrN', affine=False)
    c.update(kw)
    return c


class SdirkRun(Base):
    def __init__(self, c, timeout=100, trace=False):
        n = c['n']
        r = self.base('eng_sdirk', ['GCC', 'ALIGN_BLOCKED', 'METHOD=%s' % c['method']], n, c, trace, timeout)
        self.dt = sym('dt')
        r.call('h_ctor', self.self, n, self.dt, bool(c['affine']))
        self.ctor_throws = r.last_throws
        self.y0 = [sym('y%d' % i) for i in range(n)]
        self.b0 = [sym('b%d' % i) for i in range(n)]
        self.yp = r.doubles('y', self.y0)
        self.bp = r.doubles('phi', self.b0)

    def run(self, linear=None, steps=1):
        r = self.r
        for k in range(steps):
            if self.c['affine'] if linear is None else not linear:
                r.call('h_stepb', self.self, self.yp, self.bp)
            else:
                r.call('h_step', self.self, self.yp)
        return self.done()

    def xy(self, s):
        o = s.mem['y'].cells
        return None, [o[8 * i][1] for i in range(self.n)]


def mkg(**kw):
    c = dict(which='gauss', n=2, s=2, long=False, itermax=None)
    c.update(kw)
    return c


class GaussRun(Base):
    """one step, or several, of a Gauss method, the number of sweeps being a number or unknown"""

    def __init__(self, c, timeout=200, trace=False):
        n = c['n']
        r = self.base('eng_gauss', ['GCC', 'ALIGN_BLOCKED', 'STAGES=%d' % c['s'], 'DIM=%d' % n] + (['LONGD'] if c['long'] else []), n, c, trace, timeout)
        self.w = 16 if c['long'] else 8
        self.ld = 10 if c['long'] else 8
        self.itermax = c['itermax'] if c['itermax'] is not None else sym('itermax')
        r.call('h_ctor', self.self, self.itermax)
        self.y0 = [sym('y%d' % i) for i in range(n)]
        self.yp = r.obj("u", self.w * n, 16, cells={self.w * i: (self.ld, v) for i, v in enumerate(self.y0)})
        self.fp = r.obj("first", 1, 1, cells={0: (1, True)})

    def step(self, h=None):
        self.r.call('h_step', self.self, sym('h') if h is None else h, self.yp, self.fp)
        self.vals = self.r.vals
        return self.done()

    run = step

    def xy(self, s):
        o = s.mem['u'].cells
        return None, [o[self.w * i][1] for i in range(self.n)]
