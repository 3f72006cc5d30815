"""Abstract interpreter over LLVM IR with the value-numbering domain of terms.py.

States are joined at every control-flow merge (kept apart only when boolean
flags, small integer results or initialisedness differ); loops whose exit is
decided by concrete counters are unrolled, every other loop is solved by an
optimistic fixpoint whose head values are phi terms.  No path is enumerated and
no solver is called.
"""
import re
import sys
import time
import math
from terms import *
import terms as TM
from ir import ToolError, decode_fp, succs

sys.setrecursionlimit(20000)


class Obj:
    __slots__ = ('kind', 'size', 'cells', 'default', 'align', 'alloc', 'freed', 'site', 'const', 'name')

    def copy(self):
        o = Obj()
        o.kind, o.size, o.default, o.align, o.alloc = self.kind, self.size, self.default, self.align, self.alloc
        o.freed, o.site, o.const, o.name = self.freed, self.site, self.const, self.name
        o.cells = dict(self.cells)
        return o


class State:
    __slots__ = ('mem', 'owned', 'pc', 'frames', 'dead')

    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.pc = 1
        self.frames = []

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.pc = self.pc
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = dict(s.frames[-1])
        return s

    def wr(self, oid):
        if oid in self.owned:
            return self.mem[oid]
        o = self.mem[oid].copy()
        self.mem[oid] = o
        self.owned.add(oid)
        return o

    @property
    def env(self):
        return self.frames[-1]


class Restart(Exception):
    pass


MATH1 = {'sqrt': sqrt_, 'fabs': fabs_}
OPAQUE_PREFIX = ('std::__cxx11', 'std::basic_', 'std::ostream', 'std::allocator', 'std::char_traits',
                 'std::ios_base', 'std::operator<<', 'std::endl', 'std::scientific', 'std::_', 'std::list',
                 'std::operator+', 'std::operator&', 'std::vector', 'std::string', 'std::locale', 'std::fixed',
                 'std::setprecision', 'std::setw', 'std::exception', 'std::runtime_error', 'std::to_string',
                 'odes::OdesException::', 'odes::logger::', 'logger::', 'void std::_', 'bool std::operator',
                 '__gnu_cxx', 'std::hex', 'std::dec', 'std::initializer_list', 'std::terminate')
INTERP_STD = ('std::initializer_list', 'std::max', 'std::min', 'std::abs', 'std::pair', 'std::make_pair', 'std::move', 'std::forward',
              'std::sqrt', 'std::pow', 'std::fabs', 'std::swap', 'std::fmax', 'std::fmin', 'std::get', 'std::fill',
              'std::copy', 'std::hypot', 'std::array', 'std::__pair', 'std::exp', 'std::log', 'std::cbrt',
              'std::isfinite', 'std::isnan', 'std::numeric_limits', 'std::unique_ptr', 'std::addressof',
              'std::exchange', 'std::clamp', 'std::inner_product', 'std::accumulate', 'std::transform',
              'std::copy_n', 'std::fill_n', 'std::swap_ranges', 'std::begin', 'std::end', 'std::size',
              'std::__fill', 'std::__copy', 'std::__niter', 'std::__miter', 'std::__size_to_integer',
              'std::__equal', 'std::__iterator_category', 'std::__assign', 'std::__is', 'std::__addressof',
              'std::ceil', 'std::floor', 'std::trunc')


def strip_ret(d):
    """drop return type and arguments of a demangled name"""
    depth = 0
    out = []
    for ch in d:
        if ch == '<':
            depth += 1
        if depth == 0:
            out.append(ch)
        if ch == '>':
            depth -= 1
    s = ''.join(out)
    s = s.split('(')[0]
    if 'operator' in s:
        i = s.index('operator')
        pre = s[:i]
        return pre.split(' ')[-1] + s[i:]
    return s.split(' ')[-1]


class Interp:
    def __init__(self, mod, cfg=None):
        self.m = mod
        self.cfg = dict(strict=False, maxiter=60, trace=False, timeout=600, snap=True, models={}, splitbool=True,
                        restrict=True, hessian=None)
        if cfg:
            self.cfg.update(cfg)
        self.ctx = (0,)
        self.ctxids = {(0,): 0}
        self.ctxpar = {0: None}
        self.events = []
        self.objnames = {}
        self.freshn = 0
        self.nwiden = 0
        self.ninstr = 0
        self.widened = {}
        self.widen_dec = {}
        self.loopstack = []
        self.t0 = time.time()
        self.gobj = {}
        self.phiinfo = {}
        self.heads = {}          # ctx id -> final head info
        self.funcs_seen = set()
        self.calls_seen = {}
        self.omp = None
        self.hooks = {}
        self.rets = {}
        self.strict = self.cfg['strict']
        self.allocs = []

    # ------------------------------------------------------------ contexts
    def push(self, *k):
        old = self.ctx
        new = old + (k,)
        if new not in self.ctxids:
            i = len(self.ctxids)
            self.ctxids[new] = i
            self.ctxpar[i] = self.ctxids[old]
        self.ctx = new
        return old

    def ctxid(self):
        return self.ctxids[self.ctx]

    def within(self, c, top):
        while c is not None:
            if c == top:
                return True
            c = self.ctxpar[c]
        return False

    def ev(self, kind, ins=None, **kw):
        kw['kind'] = kind
        kw['loc'] = self.m.loc(ins[3]) if ins is not None else '?'
        kw['fn'] = self.curfn.name if getattr(self, 'curfn', None) else '?'
        kw['ctx'] = self.ctxid()
        self.events.append(kw)

    # ------------------------------------------------------------- objects
    def newobj(self, st, oid, kind, size, align=8, alloc=None, name=None, default=None, site=None):
        o = Obj()
        o.kind, o.size, o.align, o.alloc, o.freed = kind, size, align, alloc, False
        o.cells = {}
        o.default = default
        o.site = site
        o.const = False
        o.name = name
        st.mem[oid] = o
        st.owned.add(oid)
        return Ptr(oid, 0)

    def globalptr(self, st, name, off=0):
        f = self.m.funcs.get(name)
        if f is not None:
            return Fn(name)
        oid = 'g:' + name
        if oid not in st.mem:
            g = self.m.globals.get(name)
            if g is None:
                return Ptr(oid, off)
            shared = self.__dict__.setdefault('ginit', {})
            if oid in shared:
                st.mem[oid] = shared[oid]
                return Ptr(oid, off)
            p = self.newobj(st, oid, 'global', g['size'] or None, 16, None, name)
            o = st.mem[oid]
            if all(it[1] != 'ptr' for it in g.get('init', [])):
                shared[oid] = o
            o.const = g['const']
            for it in g.get('init', []):
                if it[1] == 'zero':
                    o.default = 'zero'
                    continue
                o.cells[it[0]] = (self.tsize(it[1]), self.const(st, it[2]))
            st.owned.discard(oid)
        return Ptr(oid, off)

    def tsize(self, ty):
        if ty.startswith('i'):
            return max(1, int(ty[1:]) // 8)
        return {'double': 8, 'float': 4, 'ptr': 8, 'x86_fp80': 10}.get(ty, 8)

    def const(self, st, c):
        k = c[0]
        if k == 'c':
            v = c[1]
            if isinstance(v, str):
                v = int(v)
            if c[2] == 1:
                return bool(v)
            return v
        if k == 'f':
            return decode_fp(c[1], c[2])
        if k == 'null':
            return NULL
        if k == 'g':
            return self.globalptr(st, c[1], c[2])
        if k == 'u':
            return self.undef('undef-const')
        if k == 'z':
            t = c[1]
            if t.startswith('{') or t.startswith('['):
                return Agg([])
            return 0
        if k == 'agg':
            return Agg([self.const(st, x) for x in c[1:]])
        return app('sym', 'const:' + str(c)[:60])

    def undef(self, why):
        return atom('undef', (why,)).pol

    def fresh(self, name):
        c = self.ctxid()
        return atom('fresh', (name, c), ctx=c).pol

    def val(self, st, o):
        if type(o) is int:
            return st.frames[-1][o]
        return self.const(st, o)

    # -------------------------------------------------------------- memory
    def resolve(self, st, p, ins, what):
        """list of (cond, Ptr) a pointer may denote"""
        if isinstance(p, Ptr):
            return [(1, p)]
        if isinstance(p, PIte):
            pc = st.pc
            out = []
            if b_imp(pc, p.c):
                return self.resolve(st, p.a, ins, what)
            if b_imp(pc, b_not(p.c)):
                return self.resolve(st, p.b, ins, what)
            for c, x in self.resolve(st, p.a, ins, what):
                out.append((b_and(c, p.c), x))
            for c, x in self.resolve(st, p.b, ins, what):
                out.append((b_and(c, b_not(p.c)), x))
            return out
        return []

    def load(self, st, p, size, ins, fp=False):
        alts = self.resolve(st, p, ins, 'load')
        if not alts:
            if isinstance(p, Poly) and p.undef:
                self.ev('undef-deref', ins, ptr=p)
            else:
                self.ev('unknown-ptr', ins, ptr=p)
            return self.fresh('ld?')
        if len(alts) == 1:
            return self.load1(st, alts[0][1], size, ins)
        v = None
        for c, x in alts:
            w = self.load1(st, x, size, ins)
            v = w if v is None else ite(c, w, v)
        return v

    def chk(self, st, p, size, ins, wr):
        o = st.mem.get(p.obj)
        if o is None:
            if p.obj is None:
                self.ev('null-deref', ins, wr=wr)
            else:
                self.ev('dead-object', ins, obj=p.obj, wr=wr)
            return None
        if o.freed:
            self.ev('use-after-free', ins, obj=p.obj, wr=wr)
        if type(p.off) is not int:
            self.ev('symbolic-index', ins, obj=p.obj, off=p.off, wr=wr)
            return None
        if p.off < 0 or (o.size is not None and o.size is not True and type(o.size) is int and p.off + size > o.size):
            self.ev('out-of-bounds', ins, obj=p.obj, off=p.off, size=o.size, wr=wr, name=o.name)
            return None
        if self.omp is not None:
            self.omp_access(p.obj, p.off, wr, ins, o)
        return o

    def load1(self, st, p, size, ins):
        o = self.chk(st, p, size, ins, False)
        if o is None:
            return app('sel', str(p.obj), p.off if not isinstance(p.off, int) else p.off)
        c = o.cells.get(p.off)
        if c is not None:
            if c[0] == size or (size > 8 and c[0] > 8):
                return c[1]
            if isinstance(c[1], int) and not isinstance(c[1], bool) and size < c[0]:
                return c[1] & ((1 << (8 * size)) - 1)
        else:
            if o.default == 'zero' and not any(k < p.off + size and k + v[0] > p.off for k, v in o.cells.items() if -16 < k - p.off < 16):
                return 0
        if o.default == 'opaque':
            return app('ldo', str(p.obj), p.off)
        for k, v in o.cells.items():
            if k < p.off + size and k + v[0] > p.off:
                return app('part', str(p.obj), p.off, size, *([v[1]] if isinstance(v[1], Poly) else []))
        return self.undef((self.oname(p.obj), p.off))

    def oname(self, oid):
        return str(oid)

    def store(self, st, p, v, size, ins):
        alts = self.resolve(st, p, ins, 'store')
        if not alts:
            self.ev('unknown-ptr', ins, ptr=p, wr=True)
            return
        if len(alts) == 1:
            self.store1(st, alts[0][1], v, size, ins)
            return
        for c, x in alts:
            old = self.load1(st, x, size, ins)
            self.store1(st, x, ite(c, v, old), size, ins)

    def store1(self, st, p, v, size, ins):
        o = self.chk(st, p, size, ins, True)
        if o is None:
            return
        if o.const:
            self.ev('write-const', ins, obj=p.obj)
        if o.kind == 'global':
            self.ev('write-global', ins, obj=p.obj)
        o = st.wr(p.obj)
        self.put(o, p.off, size, v)

    def put(self, o, off, size, v):
        c = o.cells
        old = c.get(off)
        if old is None or old[0] != size:
            for k in range(off - 15, off + size):
                x = c.get(k)
                if x is not None and k != off and k + x[0] > off and k < off + size:
                    del c[k]
        c[off] = (size, v)

    def memcpy(self, st, d, s, n, ins):
        for (c1, dp) in self.resolve(st, d, ins, 'store')[:1]:
            for (c2, sp) in self.resolve(st, s, ins, 'load')[:1]:
                if type(n) is not int:
                    self.ev('symbolic-memcpy', ins)
                    return
                if n == 0:
                    return
                so = self.chk(st, sp, n, ins, False)
                do = self.chk(st, dp, n, ins, True)
                if so is None or do is None:
                    return
                cells = {k: v for k, v in so.cells.items() if sp.off <= k and k + v[0] <= sp.off + n}
                if so.default == 'zero':
                    # materialise zero doubles on 8-byte grid is not possible in general: keep as default
                    pass
                do = st.wr(dp.obj)
                for k in list(do.cells):
                    v = do.cells[k]
                    if k < dp.off + n and k + v[0] > dp.off:
                        del do.cells[k]
                for k, v in cells.items():
                    do.cells[k - sp.off + dp.off] = v
                if so.default == 'zero':
                    k = sp.off
                    have = so.cells
                    while k + 8 <= sp.off + n:
                        if not any((k + j) in have for j in range(8)) and not any((k - j) in have and have[k - j][0] > j for j in range(1, 16)):
                            do.cells[k - sp.off + dp.off] = (8, 0)
                        k += 8

    def memset(self, st, d, v, n, ins):
        for (c1, dp) in self.resolve(st, d, ins, 'store')[:1]:
            if type(n) is not int:
                self.ev('symbolic-memset', ins)
                return
            do = self.chk(st, dp, n, ins, True) if n else None
            if do is None:
                return
            do = st.wr(dp.obj)
            for k in list(do.cells):
                x = do.cells[k]
                if k < dp.off + n and k + x[0] > dp.off:
                    del do.cells[k]
            if v == 0 or v is False:
                if dp.off == 0 and do.size == n:
                    do.default = 'zero'
                    do.cells.clear()
                else:
                    k = dp.off
                    while k + 8 <= dp.off + n and k % 8 == 0:
                        do.cells[k] = (8, 0)
                        k += 8
                    while k + 4 <= dp.off + n:
                        do.cells[k] = (4, 0)
                        k += 4
                    while k < dp.off + n:
                        do.cells[k] = (1, 0)
                        k += 1

    # ------------------------------------------------------------ calls
    def call(self, fname, args, st, ins=None):
        """abstract call: returns (rets [(val, State)], throws [State])"""
        f = self.m.funcs.get(fname)
        if f is None or f.decl or fname in self.cfg['models'] or self.model_for(fname, f):
            return self.external(fname, f, args, st, ins)
        return self.exec_func(f, args, st, ins)

    def model_for(self, fname, f):
        c = getattr(f, 'opq', None)
        if c is None:
            d = f.dem
            s = strip_ret(d)
            c = False
            if s.startswith(OPAQUE_PREFIX) and not s.startswith(INTERP_STD):
                c = True
            for pat in self.cfg.get('summaries', ()):
                if s == pat:
                    c = True
            f.opq = c
        return c

    def exec_func(self, f, args, st, ins=None):
        self.funcs_seen.add(f.name)
        old = self.push('c', self.curfn.name if getattr(self, 'curfn', None) else '', ins[1] if ins else -1, f.name)
        oldf = getattr(self, 'curfn', None)
        if len(self.ctx) > 120:
            raise ToolError('call depth')
        self.curfn = f
        env = {}
        for i, a in enumerate(args):
            env[i] = a
        # restricted parameters
        na = []
        if self.cfg['restrict']:
            for i, a in enumerate(f.args):
                if a[2] and not a[4] and isinstance(args[i], Ptr) and args[i].obj is not None:
                    self.nrestrict = getattr(self, 'nrestrict', 0) + 1
                    for j, b in enumerate(f.args):
                        if j != i and isinstance(args[j], Ptr) and args[j].obj == args[i].obj and (j > i or not b[2]):
                            dist = sub(num(args[i].off), num(args[j].off))
                            if isnum(dist) and abs(dist) >= 8:
                                continue        # different parts of one block; how far the accesses go is C25
                            na.append((i, j, args[i].obj, st.mem.get(args[i].obj)))
            if na:
                for i, j, ob, o in na:
                    st.owned.discard(ob)
        st.frames.append(env)
        depth = len(st.frames)
        cfg = self.m.cfg(f)
        entry = cfg.rpo[0]
        for i, a in enumerate(f.args):
            if a[3] and isinstance(args[i], Ptr):     # byval copy
                oid = ('bv', self.ctxid(), i)
                src = args[i]
                p = self.newobj(st, oid, 'stack', a[3], 16, 'stack', f.dem + ':byval%d' % i)
                env[i] = p
                self.memcpy(st, p, src, a[3], ins or ['', 0, '', None])
                env.setdefault('#al', []).append(oid)
        outs, backs, rets, throws = self.run_region(f, cfg.rpo, None, {entry: [(None, st)]})
        merged = []
        for v, s in rets:
            assert len(s.frames) == depth
            e = s.frames.pop()
            for oid in e.get('#al', ()):
                s.mem.pop(oid, None)
            merged.append((v, s))
        for s in throws:
            while len(s.frames) >= depth:
                e = s.frames.pop()
                for oid in e.get('#al', ()):
                    s.mem.pop(oid, None)
        if na:
            for i, j, ob, o in na:
                for v, s in merged:
                    if s.mem.get(ob) is not o:
                        self.ev('restrict-overlap', ins, callee=f.dem, args=(i, j), obj=ob)
                        break
        self.ctx = old
        self.curfn = oldf
        if len(merged) > 1:
            merged = self.merge_rets(merged)
        return merged, throws

    def merge_rets(self, rets):
        """merge return states with compatible partitions"""
        tmp = []
        for v, s in rets:
            s.frames.append({'r': v})
            tmp.append(s)
        out = []
        for s in self.merge_states(tmp, final=True):
            e = s.frames.pop()
            out.append((e['r'], s))
        return out

    # --------------------------------------------------------------- regions
    def run_region(self, f, order, header, pend, init=None):
        cfg = self.m.cfg(f)
        region = set(order)
        outs, backs, rets, throws = [], [], [], []
        first = True

        def route(pred, succ, s):
            if succ == header:
                backs.append((pred, s))
            elif succ in region:
                pend.setdefault(succ, []).append((pred, s))
            else:
                outs.append((pred, succ, s))
        for b in order:
            if b == header and init is not None:
                states = init
                init = None
            else:
                inc = pend.pop(b, None)
                if not inc:
                    continue
                if b in cfg.loops and b != header:
                    o, r, t = self.run_loop(f, b, inc)
                    rets.extend(r)
                    throws.extend(t)
                    for pred, succ, s in o:
                        route(pred, succ, s)
                    continue
                states = [self.do_phis(f, b, pred, s) for pred, s in inc]
                if len(states) > 1:
                    states = self.merge_states(states)
            for s in states:
                self.exec_block(f, b, s, route, rets, throws)
        return outs, backs, rets, throws

    def do_phis(self, f, b, pred, s):
        blk = f.blocks[b]
        if blk[0][0] != 'phi':
            return s
        new = {}
        env = s.frames[-1]
        for ins in blk:
            if ins[0] != 'phi':
                break
            for p, o in ins[4]:
                if p == pred:
                    v = env[o] if type(o) is int else self.const(s, o)
                    new[ins[1]] = v
                    break
            else:
                raise ToolError('phi without predecessor')
        env.update(new)
        return s

    def run_loop(self, f, h, inc):
        cfg = self.m.cfg(f)
        order = cfg.order[h]
        S0 = [self.do_phis(f, h, pred, s) for pred, s in inc]
        if len(S0) > 1:
            S0 = self.merge_states(S0)
        key = (f.name, h)
        nph = 0
        if self.widen_dec.get(key) != 'w':
            r = self.try_unroll(f, h, order, [s.fork() for s in S0])
            if r is not None:
                return r
            self.widen_dec[key] = 'w'
        return self.widen(f, h, order, S0)

    def try_unroll(self, f, h, order, cur):
        mark = len(self.events)
        outs, rets, throws = [], [], []
        it = 0
        base = self.ctx
        while cur:
            # tests that compare the same numbers in every iteration do not count the iterations
            rec = {'h': h, 'f': f, 'int': 0, 'sym': 0, 'flag': 0, 'old': rec.get('tests', {}) if it else {}}
            self.loopstack.append(rec)
            self.ctx = base
            self.push('i', f.name, h, it)
            oldomp = self.omp
            if self.omp is not None and self.omp.get('depth') == len(self.loopstack):
                self.omp['iter'] = it
            try:
                o, b, r, t = self.run_region(f, order, h, {}, cur)
            finally:
                self.loopstack.pop()
                self.ctx = base
            if (rec['sym'] or rec['flag']) and not rec['int']:
                if b:
                    del self.events[mark:]
                    return None
            outs.extend(o)
            rets.extend(r)
            throws.extend(t)
            cur = [self.do_phis(f, h, p, s) for p, s in b]
            if len(cur) > 1:
                cur = self.merge_states(cur)
            it += 1
            if it > 1500:
                del self.events[mark:]
                return None
        return outs, rets, throws

    # ------------------------------------------------------------ block exec
    def exec_block(self, f, b, st, route, rets, throws, start=0):
        blk = f.blocks[b]
        work = [(start, st)]
        n = len(blk)
        while work:
            i, s = work.pop()
            while True:
                ins = blk[i]
                op = ins[0]
                if op == 'phi':
                    i += 1
                    continue
                self.ninstr += 1
                fn = DISPATCH.get(op)
                if fn is not None:
                    r = fn(self, s, ins)
                    if r is not None:
                        # split states
                        for x in r[1:]:
                            work.append((i + 1, x))
                        s = r[0]
                    i += 1
                    continue
                if op == 'call':
                    rs, ts = self.do_call(s, ins)
                    throws.extend(ts)
                    if not rs:
                        break
                    if len(rs) == 1:
                        v, s = rs[0]
                        s.frames[-1][ins[1]] = v
                        i += 1
                        continue
                    for v, x in rs[1:]:
                        x.frames[-1] = dict(x.frames[-1])
                        x.frames[-1][ins[1]] = v
                        work.append((i + 1, x))
                    v, s = rs[0]
                    s.frames[-1] = dict(s.frames[-1])
                    s.frames[-1][ins[1]] = v
                    i += 1
                    continue
                if op == 'invoke':
                    rs, ts = self.do_call(s, ins)
                    for v, x in rs:
                        if len(rs) > 1:
                            x.frames[-1] = dict(x.frames[-1])
                        x.frames[-1][ins[1]] = v
                        route(b, ins[6], x)
                    for x in ts:
                        x.frames[-1] = dict(x.frames[-1])
                        x.frames[-1]['exc'] = True
                        route(b, ins[7], x)
                    break
                if op == 'br':
                    if ins[4] is None:
                        route(b, ins[5], s)
                        break
                    c = self.val(s, ins[4])
                    self.branch(f, b, s, ins, c, route)
                    break
                if op == 'switch':
                    self.switch(f, b, s, ins, route)
                    break
                if op == 'ret':
                    ops = ins[4]
                    rets.append((self.val(s, ops[0]) if ops else None, s))
                    break
                if op == 'resume':
                    throws.append(s)
                    break
                if op == 'unreachable':
                    break
                raise ToolError('instruction %s' % op)
        if time.time() - self.t0 > self.cfg['timeout']:
            raise ToolError('analysis timeout')

    def tobool(self, s, c, ins):
        if isinstance(c, (bool, int)):
            return 1 if c else 0
        if isinstance(c, BV):
            return c.n
        if isinstance(c, Poly):
            return bnode(c)
        if isinstance(c, (Ptr, PIte, Fn)):
            return 1
        raise ToolError('branch on %r' % (c,))

    def exits(self, f, b, ins, targets):
        """innermost enclosing active loop records this branch may leave"""
        cfg = self.m.cfg(f)
        for rec in reversed(self.loopstack):
            if rec['f'] is not f:
                break
            body = cfg.loops[rec['h']]
            if b in body and any(t not in body for t in targets):
                yield rec

    def branch(self, f, b, s, ins, c, route):
        n = self.tobool(s, c, ins)
        t, e = ins[5], ins[6]
        lr = list(self.exits(f, b, ins, (t, e)))
        if n in (0, 1):
            if lr:
                conc = self.is_int_test(f, ins, s)
                for rec in lr:
                    if not conc:
                        rec['flag'] += 1
                        continue
                    mine = rec.setdefault('tests', {}).setdefault(b, [])
                    old = rec.get('old', {}).get(b, ())
                    if self.tested is not None and len(mine) < len(old) and old[len(mine)] == self.tested:
                        rec['flag'] += 1
                    else:
                        rec['int'] += 1
                    mine.append(self.tested)
            route(b, t if n == 1 else e, s)
            return
        if bdd_undef_under(n, s.pc):
            v = simp(mkbv(n), s.pc)
            n2 = self.tobool(s, v, ins)
            if n2 in (0, 1):
                for rec in lr:
                    rec['flag'] += 1
                route(b, t if n2 == 1 else e, s)
                return
            n = n2
            if bdd_undef_under(n, s.pc):
                self.ev('undef-branch', ins, cond=n, undef=self.undef_names(mkbv(n)))
        for rec in lr:
            rec['sym'] += 1
        p1 = b_and(s.pc, n)
        p0 = b_and(s.pc, b_not(n))
        f1, f0 = feasible(p1), feasible(p0)
        if f1 and f0:
            s2 = s.fork()
            s.pc = p1
            s2.pc = p0
            route(b, t, s)
            route(b, e, s2)
        elif f1:
            s.pc = p1
            route(b, t, s)
        elif f0:
            s.pc = p0
            route(b, e, s)

    def undef_names(self, v):
        return sorted({str(a.args[0]) if a.op == 'undef' else str(self.phiinfo.get(a.id, a.args)) for a in all_atoms(v).values()
                       if a.op == 'undef' or (a.op == 'phi' and a.undef)})

    def is_int_test(self, f, ins, s):
        """is the branch decided by an integer/pointer comparison of concrete values"""
        o = ins[4]
        self.tested = None
        if type(o) is not int:
            return True
        d = self.defs(f).get(o)
        seen = 0
        while d is not None and d[0] in ('xor', 'and', 'or', 'zext', 'trunc', 'freeze', 'select') and seen < 8:
            nd = None
            for x in d[4]:
                if type(x) is int:
                    nd2 = self.defs(f).get(x)
                    if nd2 is not None and nd2[0] in ('icmp', 'xor', 'and', 'or', 'zext', 'trunc', 'freeze', 'select'):
                        nd = nd2
            d = nd
            seen += 1
        if d is None or d[0] != 'icmp':
            return False
        if d[7] in ('i1', 'i8'):
            return False
        env = s.frames[-1]
        self.tested = []
        for x in (d[5], d[6]):
            v = env.get(x) if type(x) is int else 0
            if isinstance(v, (Poly, BV)):
                return False
            self.tested.append(str(v) if type(x) is int else '')
        return True

    def defs(self, f):
        d = getattr(f, 'defs', None)
        if d is None:
            d = {}
            for blk in f.blocks:
                for ins in blk:
                    d[ins[1]] = ins
            f.defs = d
        return d

    def switch(self, f, b, s, ins, route):
        v = self.val(s, ins[4])
        if isinstance(v, (int, bool)):
            for c, t in ins[6]:
                if c == int(v):
                    route(b, t, s)
                    return
            route(b, ins[5], s)
            return
        v = num(v)
        rest = s.pc
        for c, t in ins[6]:
            n = cmp_eq(v, c, True)
            p = b_and(rest, n)
            if feasible(p):
                x = s.fork()
                x.pc = p
                route(b, t, x)
            rest = b_and(rest, b_not(n))
        if feasible(rest):
            s.pc = rest
            route(b, ins[5], s)

    # ------------------------------------------------------------- calls
    def do_call(self, s, ins):
        callee = ins[4]
        args = [self.val(s, o) for o in ins[5]]
        if type(callee) is str:
            name = callee
        else:
            v = self.val(s, callee) if type(callee) is int or callee[0] in ('g',) else None
            if isinstance(v, Fn):
                name = v.name
            else:
                self.ev('indirect-call', ins)
                return [(self.fresh('icall'), s)], []
        # aggregates passed byval handled by callee
        h = self.hooks.get('call')
        if h:
            h(self, s, name, args, ins)
        return self.call(name, args, s, ins)

    def external(self, name, f, args, s, ins):
        import models
        return models.external(self, name, f, args, s, ins)

    # -------------------------------------------------------------- merging
    def merge_states(self, states, final=False):
        import merge
        return merge.merge_states(self, states, final)

    def widen(self, f, h, order, S0):
        import merge
        return merge.widen(self, f, h, order, S0)

    # ------------------------------------------------------------ omp log
    def omp_access(self, obj, off, wr, ins, o):
        om = self.omp
        if o.kind == 'stack' and obj in om['private']:
            return
        if om.get('critical'):
            return
        it = om['iter'] if om.get('inloop') else None
        om['log'].append((obj, off, wr, it, self.m.loc(ins[3]) if ins else '?'))


# ---------------------------------------------------------------- instructions
def fcast(v):
    if isinstance(v, (BV, bool)):
        return num(v)
    return v


def _bin(fn, name):
    def g(I, s, ins):
        a, b = I.val(s, ins[4][0]), I.val(s, ins[4][1])
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            s.frames[-1][ins[1]] = ptr_arith(I, s, name, a, b, ins)
            return
        a, b = num(a), num(b)
        if I.strict and name in ('fadd', 'fsub', 'fmul', 'fdiv') and not (isnum(a) and isnum(b)):
            s.frames[-1][ins[1]] = strict_op(name, a, b)
            return
        s.frames[-1][ins[1]] = fn(a, b)
    return g


def strict_op(name, a, b):
    if name == 'fsub':
        if isnum(b) and b == 0:
            return a
        return app('fsub', a, b)
    if name == 'fadd':
        if isnum(a) and a == 0:
            return b
        if isnum(b) and b == 0:
            return a
    if name == 'fmul':
        if isnum(a) and a == 1:
            return b
        if isnum(b) and b == 1:
            return a
        if isnum(a) and a == -1:
            return neg(b)
        if isnum(b) and b == -1:
            return neg(a)
    if name in ('fadd', 'fmul'):
        if str(vkey(a)) > str(vkey(b)):
            a, b = b, a
    return app(name, a, b)


def ptr_arith(I, s, name, a, b, ins):
    if name == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj == b.obj:
            return sub(a.off, b.off)
        return app('sym', 'pdiff')
    if name == 'and' and isinstance(a, Ptr) and isnum(b):
        o = s.mem.get(a.obj)
        if o is not None and isinstance(a.off, int):
            return app('palign', str(a.obj), a.off, b) if (o.align % (b + 1)) else (a.off & b)
    return app('parith', name)


def i_sdiv(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if isinstance(b, int) and b == 1:
        return a
    if type(a) is Poly and isinstance(b, int) and all(isinstance(c, int) and c % b == 0 for m, c in a.terms):
        return TM._mk({m: c // b for m, c in a.terms})
    return app('idiv', a, b)


def i_srem(a, b):
    if isinstance(a, int) and isinstance(b, int) and b != 0:
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    return app('irem', a, b)


def i_and(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    return app('iand', a, b)


def i_or(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(b, int) and b == 0:
        return a
    return app('ior', a, b)


def i_xor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(b, int) and b == -1:
        return add(neg(a), -1)
    return app('ixor', a, b)


def i_shl(a, b):
    return mul(a, 1 << b) if isinstance(b, int) else app('shl', a, b)


def i_ashr(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a >> b
    if isinstance(b, int):
        return i_sdiv(a, 1 << b)
    return app('ashr', a, b)


def op_logic(name, fn):
    def g(I, s, ins):
        a, b = I.val(s, ins[4][0]), I.val(s, ins[4][1])
        if ins[2] == 'i1' or (isinstance(a, (BV, bool)) and isinstance(b, (BV, bool))) or (
                isinstance(a, (BV, bool)) and b in (0, 1)) or (isinstance(b, (BV, bool)) and a in (0, 1)):
            x, y = bnode(a), bnode(b)
            r = b_and(x, y) if name == 'and' else b_or(x, y) if name == 'or' else b_xor(x, y)
            s.frames[-1][ins[1]] = mkbv(r)
            return
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            s.frames[-1][ins[1]] = ptr_arith(I, s, name, a, b, ins)
            return
        s.frames[-1][ins[1]] = fn(num(a), num(b))
    return g


def op_fneg(I, s, ins):
    a = num(I.val(s, ins[4][0]))
    s.frames[-1][ins[1]] = neg(a)


def op_frem(I, s, ins):
    a, b = num(I.val(s, ins[4][0])), num(I.val(s, ins[4][1]))
    s.frames[-1][ins[1]] = math.fmod(a, b) if isnum(a) and isnum(b) and b != 0 else app('frem', a, b)


FP = {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne', 'olt': 'lt', 'ult': 'lt', 'ole': 'le', 'ule': 'le',
      'ogt': 'gt', 'ugt': 'gt', 'oge': 'ge', 'uge': 'ge'}
IP = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'ult': 'lt', 'sle': 'le', 'ule': 'le', 'sgt': 'gt', 'ugt': 'gt',
      'sge': 'ge', 'uge': 'ge'}


def docmp(p, a, b, isint):
    if p == 'eq':
        return cmp_eq(a, b, isint)
    if p == 'ne':
        return b_not(cmp_eq(a, b, isint))
    if p == 'lt':
        return cmp_lt(a, b, isint)
    if p == 'le':
        return cmp_le(a, b, isint)
    if p == 'gt':
        return cmp_lt(b, a, isint)
    return cmp_le(b, a, isint)


def op_fcmp(I, s, ins):
    p = ins[4]
    a, b = num(I.val(s, ins[5])), num(I.val(s, ins[6]))
    if p in ('ord', 'uno'):
        s.frames[-1][ins[1]] = p == 'ord'
        return
    if p in ('true', 'false'):
        s.frames[-1][ins[1]] = p == 'true'
        return
    hk = I.hooks.get('fcmp')
    if hk:
        hk(I, s, p, a, b, ins)
    s.frames[-1][ins[1]] = mkbv(docmp(FP[p], a, b, False))


def peq(a, b):
    """BDD of pointer equality"""
    if isinstance(a, PIte):
        return bdd_ite(a.c, peq(a.a, b), peq(a.b, b))
    if isinstance(b, PIte):
        return peq(b, a)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj:
            return 0
        return cmp_eq(a.off, b.off, True)
    if isinstance(a, Fn) and isinstance(b, Fn):
        return 1 if a == b else 0
    if isinstance(a, (Fn, Ptr)) and isinstance(b, (Fn, Ptr)):
        return 0
    return b_var('peq', (vkey(a) if not isinstance(a, Poly) else a, vkey(b) if not isinstance(b, Poly) else b))


def op_icmp(I, s, ins):
    p = ins[4]
    a, b = I.val(s, ins[5]), I.val(s, ins[6])
    e = s.frames[-1]
    if isinstance(a, (Ptr, PIte, Fn)) or isinstance(b, (Ptr, PIte, Fn)):
        if a == 0 and not isinstance(a, (Ptr, PIte, Fn)) and isnum(a):
            a = NULL
        if b == 0 and not isinstance(b, (Ptr, PIte, Fn)) and isnum(b):
            b = NULL
        if IP[p] in ('eq', 'ne'):
            n = peq(a, b)
            e[ins[1]] = mkbv(n if IP[p] == 'eq' else b_not(n))
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            e[ins[1]] = mkbv(docmp(IP[p], a.off, b.off, True))
            return
        e[ins[1]] = mkbv(b_var('pcmp', (ins[1], I.ctxid())))
        return
    if isinstance(a, (BV, bool)) or isinstance(b, (BV, bool)):
        if IP[p] in ('eq', 'ne') and (isinstance(b, (BV, bool)) or b in (0, 1)) and (isinstance(a, (BV, bool)) or a in (0, 1)):
            n = b_xor(bnode(a), bnode(b))
            e[ins[1]] = mkbv(n if IP[p] == 'ne' else b_not(n))
            return
    a, b = num(a), num(b)
    if p[0] == 'u' and isinstance(a, int) and isinstance(b, int) and (a < 0 or b < 0):
        w = int(ins[7][1:])
        a &= (1 << w) - 1
        b &= (1 << w) - 1
    hk = I.hooks.get('icmp')
    if hk:
        hk(I, s, p, a, b, ins)
    e[ins[1]] = mkbv(docmp(IP[p], a, b, True))


def op_cast(I, s, ins):
    v = I.val(s, ins[4][0])
    op = ins[0]
    e = s.frames[-1]
    if op in ('zext', 'sext', 'trunc'):
        if isinstance(v, (BV, bool)):
            if op == 'sext':
                v = neg(num(v)) if not isinstance(v, bool) else (-1 if v else 0)
            e[ins[1]] = v
            return
        if op == 'trunc':
            w = int(ins[2][1:])
            if ins[2] == 'i1':
                if isinstance(v, int):
                    e[ins[1]] = bool(v & 1)
                else:
                    e[ins[1]] = mkbv(bnode(v))
                return
            if isinstance(v, int):
                v &= (1 << w) - 1
                if v >> (w - 1):
                    v -= 1 << w
        if op == 'zext' and isinstance(v, int) and v < 0:
            w = int(ins[5][1:])
            v &= (1 << w) - 1
        e[ins[1]] = v
        return
    if op in ('sitofp', 'uitofp'):
        v = num(v)
        e[ins[1]] = float(v) if isinstance(v, int) else v
        return
    if op in ('fptosi', 'fptoui'):
        v = num(v)
        if isnum(v):
            e[ins[1]] = int(v)
        else:
            h = I.hooks.get('fptosi')
            e[ins[1]] = h(I, s, v, ins) if h else app('trunc', v)
        return
    if op in ('fpext', 'fptrunc'):
        v = num(v)
        if op == 'fptrunc' and not isnum(v) and I.strict:
            v = app('round_' + ins[2], v)
        h = I.hooks.get('fptrunc')
        if h and op == 'fptrunc':
            h(I, s, v, ins)
        if isnum(v) and ins[2] == 'x86_fp80':
            v = mpf(v)
        elif isnum(v) and ins[2] == 'double':
            v = float(v)
        e[ins[1]] = v
        return
    e[ins[1]] = v       # bitcast, ptrtoint, inttoptr, freeze


def op_alloca(I, s, ins):
    oid = ('al', I.ctxid(), ins[1])
    n = I.val(s, ins[5])
    size = ins[4] * n if isinstance(n, int) else None
    f = I.curfn
    p = I.newobj(s, oid, 'stack', size, ins[6], 'stack', f.short or f.dem, site=I.m.loc(ins[3]) if ins[3] else f.dem)
    s.frames[-1][ins[1]] = p
    al = s.frames[-1].get('#al')
    s.frames[-1]['#al'] = (al or []) + [oid]
    if I.omp is not None:
        I.omp['private'].add(oid)


def op_load(I, s, ins):
    p = I.val(s, ins[4])
    v = I.load(s, p, ins[5], ins)
    t = ins[2]
    if type(v) is int and t == 'ptr' and v == 0:
        v = NULL
    if t == 'double' and type(v) is int:
        v = float(v) if v else 0
    s.frames[-1][ins[1]] = v


def op_store(I, s, ins):
    v = I.val(s, ins[4])
    p = I.val(s, ins[5])
    size = ins[6]
    if size == 1 and isinstance(v, BV) and I.cfg['splitbool'] and not bdd_undef_under(v.n, s.pc):
        p1, p0 = b_and(s.pc, v.n), b_and(s.pc, b_not(v.n))
        f1, f0 = feasible(p1), feasible(p0)
        if f1 and f0:
            s2 = s.fork()
            s.pc, s2.pc = p1, p0
            I.store(s, p, 1, 1, ins)
            I.store(s2, p, 0, 1, ins)
            return [s, s2]
        v = 1 if f1 else 0
    elif isinstance(v, bool):
        v = 1 if v else 0
    h = I.hooks.get('store')
    if h:
        h(I, s, p, v, size, ins)
    I.store(s, p, v, size, ins)


def op_gep(I, s, ins):
    p = I.val(s, ins[4])
    if ins[5] == 'bad':
        s.frames[-1][ins[1]] = app('sym', 'badgep')
        return
    off = ins[5]
    for o, sc in ins[6]:
        v = num(I.val(s, o))
        off = add(off, mul(v, sc))
    s.frames[-1][ins[1]] = padd(p, off)


def padd(p, off):
    if isinstance(p, Ptr):
        return Ptr(p.obj, add(p.off, off))
    if isinstance(p, PIte):
        return PIte(p.c, padd(p.a, off), padd(p.b, off))
    return p


def op_select(I, s, ins):
    c, a, b = (I.val(s, x) for x in ins[4])
    n = bnode(c)
    if n == 1:
        v = a
    elif n == 0:
        v = b
    else:
        if b_imp(s.pc, n):
            v = a
        elif b_imp(s.pc, b_not(n)):
            v = b
        else:
            v = ite(n, a, b)
    s.frames[-1][ins[1]] = v


def op_extract(I, s, ins):
    v = I.val(s, ins[4])
    for i in ins[5]:
        if isinstance(v, Agg) and i < len(v.v):
            v = v.v[i]
        elif isinstance(v, Agg):
            v = 0
        else:
            v = app('xv', v if isinstance(v, Poly) else 0, i)
    s.frames[-1][ins[1]] = v


def op_insert(I, s, ins):
    v = I.val(s, ins[4])
    x = I.val(s, ins[5])
    idx = ins[6]

    def put(v, idx):
        l = list(v.v) if isinstance(v, Agg) else []
        i = idx[0]
        while len(l) <= i:
            l.append(0)
        l[i] = x if len(idx) == 1 else put(l[i], idx[1:])
        return Agg(l)
    s.frames[-1][ins[1]] = put(v, idx)


def op_landing(I, s, ins):
    s.frames[-1][ins[1]] = Agg([app('sym', 'exc'), 0])
    if ins[5]:
        I.ev('catch-clause', ins)


def op_freeze(I, s, ins):
    s.frames[-1][ins[1]] = I.val(s, ins[4][0])


def op_fence(I, s, ins):
    return None


def op_atomicrmw(I, s, ins):
    p = I.val(s, ins[5])
    v = num(I.val(s, ins[6]))
    size = I.tsize(ins[2])
    crit = None
    if I.omp is not None:
        crit = I.omp.get('critical')
        I.omp['critical'] = True
    old = num(I.load(s, p, size, ins))
    nv = {'add': add, 'fadd': add, 'sub': sub, 'fsub': sub, 'xchg': lambda a, b: b}.get(ins[4], lambda a, b: app('rmw', a, b))(old, v)
    I.store(s, p, nv, size, ins)
    if I.omp is not None:
        I.omp['critical'] = crit
    s.frames[-1][ins[1]] = old


DISPATCH = {
    'fadd': _bin(add, 'fadd'), 'fsub': _bin(sub, 'fsub'), 'fmul': _bin(mul, 'fmul'), 'fdiv': _bin(div, 'fdiv'),
    'add': _bin(add, 'add'), 'sub': _bin(sub, 'sub'), 'mul': _bin(mul, 'mul'), 'sdiv': _bin(i_sdiv, 'sdiv'),
    'udiv': _bin(i_sdiv, 'udiv'), 'srem': _bin(i_srem, 'srem'), 'urem': _bin(i_srem, 'urem'),
    'shl': _bin(i_shl, 'shl'), 'ashr': _bin(i_ashr, 'ashr'), 'lshr': _bin(i_ashr, 'lshr'),
    'and': op_logic('and', i_and), 'or': op_logic('or', i_or), 'xor': op_logic('xor', i_xor),
    'fneg': op_fneg, 'frem': op_frem, 'fcmp': op_fcmp, 'icmp': op_icmp,
    'zext': op_cast, 'sext': op_cast, 'trunc': op_cast, 'sitofp': op_cast, 'uitofp': op_cast, 'fptosi': op_cast,
    'fptoui': op_cast, 'fpext': op_cast, 'fptrunc': op_cast, 'bitcast': op_cast, 'ptrtoint': op_cast,
    'inttoptr': op_cast, 'freeze': op_freeze, 'alloca': op_alloca, 'load': op_load, 'store': op_store,
    'getelementptr': op_gep, 'select': op_select, 'extractvalue': op_extract, 'insertvalue': op_insert,
    'landingpad': op_landing, 'fence': op_fence, 'atomicrmw': op_atomicrmw,
}
