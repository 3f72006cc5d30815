"""Set-up of engine runs: compile one configuration, build the objects, call entry points."""
import os
import ir
from interp import Interp, State
from terms import *
import terms as TM
import models

HERE = os.path.join(ir.VERIF, 'harness')
_cache = {}


def module(harness, defs, extra=(), passes='sroa'):
    k = (harness, tuple(defs), tuple(extra), passes)
    if k not in _cache:
        _cache[k] = ir.compile_ir(os.path.join(HERE, harness + '.cpp'), list(defs), 'c++14', list(extra), passes)
    return _cache[k]


class Run:
    def __init__(self, mod, cfg=None):
        self.I = Interp(mod, cfg)
        self.m = mod
        self.st = State()
        self.st.frames.append({})
        models.ghost_init(self.I, self.st)
        self.throws = []
        self.rets = [self.st]

    def obj(self, oid, size, align=16, default=None, kind='caller', cells=None):
        for s in self.rets:
            p = self.I.newobj(s, oid, kind, size, align, 'caller', str(oid), default)
            if cells:
                s.wr(oid).cells.update(cells)
        return Ptr(oid, 0)

    def doubles(self, oid, vals, align=16):
        return self.obj(oid, 8 * len(vals), align, cells={8 * i: (8, v) for i, v in enumerate(vals)})

    def call(self, fn, *args, value=None):
        """call an entry point on every current state"""
        out = []
        vals = []
        self.last_throws = []
        for s in self.rets:
            rs, ts = self.I.call(fn, list(args), s)
            for v, x in rs:
                out.append(x)
                vals.append(v)
            self.throws.extend(ts)
            self.last_throws.extend(ts)
        self.rets = out
        self.vals = vals
        return vals

    def const(self, fn):
        s = State()
        s.frames.append({})
        (v, _), = self.I.call(fn, [], s)[0]
        return v

    def get(self, fn, p, st):
        """evaluate a getter on a copy of a state"""
        s = st.fork()
        s.frames = s.frames + [{}]
        n = len(self.I.events)
        rs, ts = self.I.call(fn, [p], s)
        ev = self.I.events[n:]
        del self.I.events[n:]
        return rs[0][0], ev
