"""Joins of abstract states, and the fixpoint at loop heads."""
from terms import *
import terms as TM
from ir import ToolError


# ------------------------------------------------------------- liveness
def live_in(f, cfg):
    r = getattr(f, 'livein', None)
    if r is not None:
        return r
    use, de, phiuse = {}, {}, {}
    for b in cfg.rpo:
        u, d = set(), set()
        for ins in f.blocks[b]:
            if ins[0] == 'phi':
                d.add(ins[1])
                for p, o in ins[4]:
                    if type(o) is int:
                        phiuse.setdefault(p, set()).add(o)
                continue
            for o in operands(ins):
                if o not in d:
                    u.add(o)
            d.add(ins[1])
        use[b], de[b] = u, d
    live = {b: set() for b in cfg.rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(cfg.rpo):
            out = set(phiuse.get(b, ()))
            for s in cfg.succ[b]:
                if s in live:
                    out |= live[s]
            n = use[b] | (out - de[b])
            if n != live[b]:
                live[b] = n
                ch = True
    f.livein = live
    return live


def operands(ins):
    op = ins[0]
    out = []

    def o(x):
        if type(x) is int:
            out.append(x)
    if op in ('alloca',):
        o(ins[5])
    elif op == 'load':
        o(ins[4])
    elif op == 'store':
        o(ins[4])
        o(ins[5])
    elif op == 'getelementptr':
        o(ins[4])
        if ins[5] != 'bad':
            for x, s in ins[6]:
                o(x)
    elif op == 'br':
        if ins[4] is not None:
            o(ins[4])
    elif op == 'switch':
        o(ins[4])
    elif op in ('icmp', 'fcmp'):
        o(ins[5])
        o(ins[6])
    elif op in ('call', 'invoke'):
        o(ins[4])
        for x in ins[5]:
            o(x)
        for b in ins[8]:
            for x in b[1:]:
                o(x)
    elif op == 'extractvalue':
        o(ins[4])
    elif op == 'insertvalue':
        o(ins[4])
        o(ins[5])
    elif op == 'atomicrmw':
        o(ins[5])
        o(ins[6])
    elif op in ('landingpad', 'phi'):
        pass
    else:
        for x in ins[4]:
            o(x)
    return out


def prune(I, s, b):
    """drop dead environment entries at block b"""
    f = I.curfn
    live = live_in(f, I.m.cfg(f))[b]
    env = s.frames[-1]
    phis = []
    for ins in f.blocks[b]:
        if ins[0] != 'phi':
            break
        phis.append(ins[1])
    new = {k: env[k] for k in live if k in env}
    for k in phis:
        if k in env:
            new[k] = env[k]
    for k in env:
        if isinstance(k, str):
            new[k] = env[k]
    s.frames[-1] = new


def gc(s):
    """forget released heap blocks nothing points to any more"""
    fr = {oid for oid, o in s.mem.items() if o.kind == 'heap' and o.freed}
    if not fr:
        return
    for o in s.mem.values():
        for c in o.cells.values():
            v = c[1]
            if type(v) is Ptr or type(v) is PIte:
                for p in ptrs_of(v):
                    fr.discard(p.obj)
    for env in s.frames:
        for v in env.values():
            if type(v) in (Ptr, PIte, Agg):
                for p in ptrs_of(v):
                    fr.discard(p.obj)
    for oid in fr:
        del s.mem[oid]
        s.owned.discard(oid)


# ------------------------------------------------------- heap alignment
def heapish(o):
    return o is not None and o.kind == 'heap'


def ptrs_of(v):
    if isinstance(v, Ptr):
        return [v]
    if isinstance(v, PIte):
        return ptrs_of(v.a) + ptrs_of(v.b)
    if isinstance(v, Agg):
        return [p for x in v.v for p in ptrs_of(x)]
    return []


def same_ptrs(A, B):
    for oid, oa in A.mem.items():
        ob = B.mem.get(oid)
        if ob is oa or ob is None:
            continue
        cb = ob.cells
        for off, c in oa.cells.items():
            if type(c[1]) is Ptr:
                w = cb.get(off)
                if w is not None and w[1] is not c[1] and type(w[1]) is Ptr and w[1] != c[1]:
                    return False
    for fa, fb in zip(A.frames, B.frames):
        if fa is fb:
            continue
        for k, v in fa.items():
            if type(v) is Ptr:
                w = fb.get(k)
                if w is not v and type(w) is Ptr and w != v:
                    return False
    return True


def align_heap(A, B):
    """mapping of B's heap objects onto A's, or None when already aligned / impossible"""
    if same_ptrs(A, B):
        return None
    m, inv = {}, {}
    ok = [True]
    work = []
    diff = False
    strict = True

    def drain():
        while work:
            oa, ob = work.pop()
            for off, (sz, v) in oa.cells.items():
                if isinstance(v, Ptr):
                    w = ob.cells.get(off)
                    if w is not None and isinstance(w[1], Ptr):
                        pair(v, w[1])

    def pair(x, y):
        nonlocal diff
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is not None and y.obj is not None:
            a, b = x.obj, y.obj
            oa, ob = A.mem.get(a), B.mem.get(b)
            if not (heapish(oa) and heapish(ob)):
                return
            if vkey(x.off) != vkey(y.off) or vkey(oa.size) != vkey(ob.size):
                return
            if b in m:
                return
            if a in inv:
                return
            m[b] = a
            inv[a] = b
            if a != b:
                diff = True
            work.append((oa, ob))
    # what lives on in objects outside the stack decides; temporaries follow if they can
    for stack in (False, True):
        strict = not stack
        for oid, oa in A.mem.items():
            ob = B.mem.get(oid)
            if ob is None or heapish(oa) or (oa.kind == 'stack') != stack:
                continue
            for off, (sz, v) in oa.cells.items():
                if isinstance(v, Ptr):
                    w = ob.cells.get(off)
                    if w is not None and isinstance(w[1], Ptr):
                        pair(v, w[1])
        if stack:
            for fa, fb in zip(A.frames, B.frames):
                for k, v in fa.items():
                    if isinstance(v, Ptr) and isinstance(fb.get(k), Ptr):
                        pair(v, fb[k])
        drain()
    if not diff or not ok[0]:
        return None
    # complete to an injective renaming
    targets = set(m.values())
    for oid, o in B.mem.items():
        if heapish(o) and oid not in m:
            if oid in targets:
                return None
            m[oid] = oid
    return {k: v for k, v in m.items()}


def rn(v, m):
    if isinstance(v, Ptr):
        n = m.get(v.obj)
        return v if n is None or n == v.obj else Ptr(n, v.off)
    if isinstance(v, PIte):
        return PIte(v.c, rn(v.a, m), rn(v.b, m))
    if isinstance(v, Agg):
        return Agg([rn(x, m) for x in v.v])
    return v


def rename(S, m):
    if all(k == v for k, v in m.items()):
        return
    newmem = {}
    owned = set()
    for oid, o in S.mem.items():
        if any(isinstance(c[1], (Ptr, PIte)) for c in o.cells.values()):
            o2 = o.copy()
            for k, (sz, v) in o2.cells.items():
                o2.cells[k] = (sz, rn(v, m))
            owned.add(m.get(oid, oid))
            o = o2
        newmem[m.get(oid, oid)] = o
    S.mem = newmem
    S.owned = owned
    S.frames = [{k: rn(v, m) for k, v in fr.items()} if any(isinstance(v, (Ptr, PIte, Agg)) for v in fr.values()) else fr
                for fr in S.frames]


# -------------------------------------------------------------- merging
class Merger:
    """anti-unification of value vectors"""

    def __init__(self, leaf, stale=None):
        self.leaf = leaf                # vec, name -> value
        self.stale = stale
        self.table = {}                 # norm key -> [vec, name, scale, inv]
        self.value = {}                 # norm key -> computed value
        self.busy = set()
        self.failed = set()
        self.nbusy = 0
        self.memo = {}

    def norm(self, vec):
        if not all(isnum(v) or type(v) is Poly for v in vec):
            return (('x',) + tuple(vkey(v) for v in vec)), 1, False
        invf = False
        v0 = vec[0]
        if all(type(v) is Poly and len(v.terms) == 1 for v in vec):
            m, c = v0.terms[0]
            if m[0][1] < 0:
                invf = True
                vec = [inv2(v) for v in vec]
                v0 = vec[0]
        if type(v0) is Poly:
            s = lead(v0)
        elif v0 != 0:
            s = v0
        else:
            s = 1
            for v in vec:
                if type(v) is Poly:
                    s = lead(v)
                    break
                elif v != 0:
                    s = v
                    break
        if s != 1:
            vec = [scale(v, 1.0 / s if not isinstance(s, TM.mpf) else 1 / s) if type(v) is Poly else v / s for v in vec]
        return tuple(vkey(v) for v in vec), s, invf

    def register(self, vec, name):
        k, s, i = self.norm(vec)
        if k not in self.table:
            self.table[k] = (list(vec), name, s, i)
            if all(type(v) is Poly and len(v.terms) > 0 for v in vec) and len({lead(v) > 0 for v in vec}) > 1:
                # absolute values of the components, which do not show the sign
                av = [TM.fabs_(v) for v in vec]
                ka, sa, ia = self.norm(av)
                if ka not in self.table:
                    self.table[ka] = (av, ('absof', k), sa, ia)

    def known(self, vec):
        """value for a sub-vector equal (up to scale/inverse) to a registered one"""
        k, s, i = self.norm(vec)
        if k not in self.table:
            return None
        rvec, name, rs, ri = self.table[k]
        rep = self.get(k)
        if rep is None:
            return None
        if s == rs and i == ri:
            return rep
        # base = (rep/rs)^(-1 if ri) ; v = (s*base)^(-1 if i) with base normalised before inversion
        b = inv2(rep) if ri else rep
        b = mul(b, 1.0 / rs if rs not in (1, -1) else rs)
        v = mul(b, s)
        return inv2(v) if i else v

    def get(self, k):
        if k in self.value:
            return self.value[k]
        if k in self.busy:
            self.nbusy += 1
            return None
        vec, name, s, i = self.table[k]
        self.busy.add(k)
        v = self.descend(vec)
        self.busy.discard(k)
        if v is None and type(name) is tuple and name[:1] == ('absof',):
            b = self.get(name[1])
            if b is not None:
                # the registered vector may be normalised by a common factor
                bv, _, bs, bi = self.table[name[1]]
                return self.value.setdefault(k, TM.fabs_(b))
            return None
        if v is None:
            v = self.leaf(vec, name)
        self.value[k] = v
        return v

    def cell(self, vec, name):
        """merged value of a cell"""
        k0 = vkey(vec[0])
        if all(vkey(v) == k0 for v in vec[1:]) and not (self.stale and self.stale(vec[0])):
            return vec[0]
        if all(isinstance(v, (Ptr, PIte)) for v in vec):
            return self.leaf(vec, name)
        if all(isinstance(v, Agg) and len(v.v) == len(vec[0].v) for v in vec):
            return Agg([self.cell([v.v[i] for v in vec], (name, i)) for i in range(len(vec[0].v))])
        if any(isinstance(v, (Ptr, PIte, Agg, Fn)) or v is None for v in vec):
            return self.leaf(vec, name)
        if all(isinstance(v, (BV, bool)) for v in vec):
            return self.leaf(vec, name)
        vec = [num(v) for v in vec]
        if all(isnum(v) and v == vec[0] for v in vec):
            return vec[0]
        self.register(vec, name)
        return self.known(vec)

    # ---- structural descent; None when some leaf is not a registered vector
    def sub(self, vec):
        t0 = type(vec[0])
        if t0 is str or t0 is bool or vec[0] is None:
            return vec[0] if all(v == vec[0] and type(v) is t0 for v in vec) else None
        k0 = vkey(vec[0])
        if all(vkey(v) == k0 for v in vec[1:]) and not (self.stale and self.stale(vec[0])):
            return vec[0]
        if t0 is tuple:
            if not all(type(v) is tuple and len(v) == len(vec[0]) for v in vec):
                return None
            out = []
            for x in zip(*vec):
                r = self.sub(list(x))
                if r is None and any(y is not None for y in x):
                    return None
                out.append(r)
            return tuple(out)
        if not all(isnum(v) or type(v) is Poly for v in vec):
            return None
        mk = tuple(vkey(v) for v in vec)
        if mk in self.memo:
            return self.memo[mk]
        # while the description of some vectors is being looked for, failing depends on which these are
        bk = (frozenset(self.busy), mk) if self.busy else None
        if bk is not None and bk in self.failed:
            self.nbusy += 1
            return None
        nb = self.nbusy
        r = self.known(vec)
        if r is None:
            r = self.descend(vec)
        if bk is None or r is not None or nb == self.nbusy:
            self.memo[mk] = r
        else:
            self.failed.add(bk)
        return r

    def descend(self, vec):
        if not all(isnum(v) or type(v) is Poly for v in vec):
            return None
        if any(isnum(v) for v in vec):
            # constant against constant differs -> leaf
            if all(isnum(v) for v in vec):
                return None
        terms = []
        for v in vec:
            terms.append(list(v.terms) if type(v) is Poly else ([((), v)] if v != 0 else []))
        n = len(terms[0])
        if any(len(t) == 0 for t in terms):
            return None
        if all(len(t) == 1 for t in terms):
            return self.mono([t[0] for t in terms])
        groups = []
        for t in terms:
            g = {}
            for m, c in t:
                g.setdefault(sig(m), []).append((m, c))
            groups.append(g)
        done, left = [], []             # columns of monomials with their value, and without
        for gi, k in enumerate({k: None for g in groups for k in g}):
            ls = [g.get(k, []) for g in groups]
            ln = len(ls[0])
            if any(len(l) != ln for l in ls):
                left.append((gi, ls))
                continue
            if ln > 1:
                # equal monomials first, then equal coefficients, then order
                ls = match(ls)
            for i in range(ln):
                mv = [l[i] for l in ls]
                r = self.monosub(mv)
                if r is None:
                    left.append((gi, [[x] for x in mv]))
                else:
                    done.append((gi, mv, r))
        if not left:
            out = 0
            for gi, mv, r in done:
                out = add(out, r)
            return out
        # what does not correspond monomial by monomial must be a known vector as a whole, alone or with its like
        bad = {gi for gi, l in left}
        for widen in (lambda gi, mv: False, lambda gi, mv: gi in bad, lambda gi, mv: any(m != mv[0] for m in mv)):
            ls = [[] for _ in terms]
            for gi, l in left:
                for a, x in zip(ls, l):
                    a += x
            out = 0
            for gi, mv, r in done:
                if widen(gi, mv):
                    for a, x in zip(ls, mv):
                        a.append(x)
                else:
                    out = add(out, r)
            r = self.rest(ls, n)
            if r is not None:
                return add(out, r)
        return None

    def rest(self, ls, n):
        whole = all(len(l) == n for l in ls)    # no progress when this is the whole vector being described
        if not whole:
            r = self.known([mkp(l) for l in ls])
            if r is not None:
                return r
        by = []
        for l in ls:
            d = {}
            for m, c in l:
                d.setdefault(rkey(c), []).append((m, c))
            by.append(d)
        ks = dict.fromkeys(by[0])
        if any(set(d) != set(ks) for d in by) or len(ks) < 2:
            return None
        r = 0
        for k in ks:
            x = self.known([mkp(d[k]) for d in by])
            if x is None:
                return None
            r = add(r, x)
        return r

    def monosub(self, mv):
        vec = [TM._mk({m: c}) for m, c in mv]
        k0 = vkey(vec[0])
        if all(vkey(v) == k0 for v in vec[1:]) and not (self.stale and self.stale(vec[0])):
            return vec[0]
        r = self.known(vec)
        if r is not None:
            return r
        return self.mono(mv)

    def mono(self, mv):
        c0 = mv[0][1]
        if any(rkey(c) != rkey(c0) for m, c in mv):
            return None
        ln = len(mv[0][0])
        if ln == 0 or any(len(m) != ln for m, c in mv):
            return None
        if ln == 1:
            pairs = [[m[0] for m, c in mv]]
        else:
            pairs = self.matchatoms([m for m, c in mv])
            if pairs is None:
                return None
        out = c0
        for p in pairs:
            e = p[0][1]
            if any(x[1] != e for x in p):
                return None
            ats = [atoms[x[0]] for x in p]
            r = self.atomvec(ats, ln > 1 or e != 1 or c0 != 1)
            if r is None:
                return None
            out = mul(out, TM.pw(r, e))
        return out

    def atomvec(self, ats, lookup):
        if all(a is ats[0] for a in ats) and not (self.stale and self.stale(ats[0].pol)):
            return ats[0].pol
        if lookup:
            r = self.known([a.pol for a in ats])
            if r is not None:
                return r
        op = ats[0].op
        if op in ('sym', 'phi', 'undef', 'fresh'):
            return None
        if any(a.op != op or len(a.args) != len(ats[0].args) for a in ats):
            # den(q) against a plain atom: 1/q
            return None
        if op == 'ite':
            if any(a.args[0] != ats[0].args[0] for a in ats):
                return None
            if self.stale and any(self.stale(mkbv(a.args[0])) for a in ats if a.args[0] > 1):
                return None
        out = []
        for i in range(len(ats[0].args)):
            col = [a.args[i] for a in ats]
            if op == 'ite' and i == 0:
                out.append(col[0])
                continue
            r = self.sub(col)
            if r is None:
                return None
            out.append(r)
        return TM.rebuild(op, tuple(out))

    def matchatoms(self, ms):
        base = list(ms[0])
        cols = [[x] for x in base]
        for m in ms[1:]:
            rest = list(m)
            for c in cols:
                x = c[0]
                a = atoms[x[0]]
                best = None
                for y in rest:
                    if y[1] != x[1]:
                        continue
                    if y[0] == x[0]:
                        best = y
                        break
                if best is None:
                    for y in rest:
                        if y[1] != x[1]:
                            continue
                        b = atoms[y[0]]
                        if b.op == a.op and a.op not in ('sym', 'phi'):
                            best = y
                            break
                if best is None:
                    for y in rest:
                        if y[1] == x[1]:
                            # prefer a registered pair
                            if self.norm([a.pol, atoms[y[0]].pol])[0] in self.table:
                                best = y
                                break
                            if best is None:
                                best = y
                if best is None:
                    return None
                c.append(best)
                rest.remove(best)
        return cols


def mkp(l):
    return TM._mk(dict(l)) if l else 0


def inv2(v):
    """1/v, turning den(q)^-1 back into q"""
    if type(v) is Poly and len(v.terms) == 1:
        m, c = v.terms[0]
        out = 1.0 / c if c not in (1, -1) else c
        for a, e in m:
            at = atoms[a]
            if at.op == 'den' and e < 0:
                out = mul(out, TM.pw(at.args[0], -e))
            else:
                out = mul(out, TM._mk({((a, -e),): 1}))
        return out
    return TM.inv(v)


def sig(m):
    s = []
    for a, e in m:
        op = atoms[a].op
        if op in ('sym', 'phi', 'ite', 'fresh', 'undef', 'den', 'min', 'max', 'abs'):
            op = '.'
        s.append((e, op))
    s.sort()
    return tuple(s)


def match(ls):
    base = ls[0]
    out = [list(base)]
    for l in ls[1:]:
        rest = list(l)
        row = [None] * len(base)
        for i, (m, c) in enumerate(base):
            for y in rest:
                if y[0] == m:
                    row[i] = y
                    rest.remove(y)
                    break
        for i, (m, c) in enumerate(base):
            if row[i] is None:
                for y in rest:
                    if rkey(y[1]) == rkey(c):
                        row[i] = y
                        rest.remove(y)
                        break
        for i in range(len(base)):
            if row[i] is None:
                row[i] = rest.pop(0)
        out.append(row)
    return out


def isundef(v):
    if v is None:
        return True
    if type(v) is Poly and v.undef:
        a = single(v)
        return a is not None and a.op == 'undef'
    return False


def concrete(v):
    return type(v) is bool or type(v) is int


def diffcells(states):
    """(obj, off, size, [values]) for cells that are not the same object everywhere"""
    ids = {}
    for s in states:
        for o in s.mem:
            ids[o] = None
    s0 = states[0]
    for oid in ids:
        objs = [s.mem.get(oid) for s in states]
        o0 = objs[0]
        if all(o is o0 for o in objs):
            continue
        yield oid, objs


def differing(cs):
    """the offsets at which not all of these objects hold the identical cell"""
    c0 = cs[0]
    offs = {}
    rest = []
    for c in cs[1:]:
        if c is c0 or any(c is x for x in rest):
            continue
        rest.append(c)
        g = c.get
        for k, v in c0.items():
            if g(k) is not v:
                offs[k] = None
        if len(c) != len(c0) or offs:
            for k in c:
                if k not in c0:
                    offs[k] = None
    return offs


def group_key(I, states, head):
    cells = []
    envk = []
    heapk = []
    for oid, objs in diffcells(states):
        if any(o is None for o in objs) or any(o.freed != objs[0].freed for o in objs if o is not None):
            if any(o is not None and o.kind == 'heap' for o in objs):
                heapk.append(oid)
            if any(o is None for o in objs):
                continue
        for k in differing([o.cells for o in objs]):
            vs = [o.cells.get(k) for o in objs]
            if all(v is not None and concrete(v[1]) for v in vs):
                sz = vs[0][0]
                if sz == 1 or (not head and sz in (4, 8)) or headint(I, [v[1] for v in vs]):
                    x = vs[0][1]
                    if any(v[1] != x for v in vs):
                        cells.append((oid, k, sz))
            elif sz1(vs):
                if len({v[1] for v in vs if v is not None and concrete(v[1])}) > 1:
                    cells.append((oid, k, 1))
    e0 = states[0].frames[-1]
    hints = set()
    for k, v in e0.items():
        if isinstance(k, str) and k != 'r':
            continue
        vs = [s.frames[-1].get(k) for s in states]
        if head:
            if any(type(v) is bool for v in vs) and any(vkey(v) != vkey(vs[0]) for v in vs):
                envk.append(k)
            elif headint(I, vs):
                envk.append(k)
                hints.add(k)
        elif all(concrete(v) for v in vs) and any(v != vs[0] for v in vs):
            envk.append(k)
        elif k == 'r' and any(isinstance(v, Agg) for v in vs):
            envk.append(k)

    def key(s, ints=True):
        out = []
        for oid, k, sz in cells:
            c = s.mem[oid].cells.get(k)
            if sz == 'd':
                out.append(c is None or isundef(c[1]))
            elif sz == 1 or ints:
                out.append(c[1] if c is not None and concrete(c[1]) else ('s',))
        for oid in heapk:
            o = s.mem.get(oid)
            out.append((o is None, o is not None and o.freed))
        for k in envk:
            v = s.frames[-1].get(k)
            if isinstance(v, Agg):
                out.append(tuple(x if concrete(x) else None for x in v.v))
            elif type(v) is bool or ints or k in hints:
                out.append(v if concrete(v) else ('s',))
        return tuple(out)
    names = [str(c) for c in cells] + [str(h) for h in heapk] + [str(e) for e in envk]
    return key, names


def headint(I, vs):
    """does a loop head keep states apart by the numbers the variable has in them?"""
    ok = I.cfg.get('headints')
    if not ok:
        return False
    d = {v for v in vs if type(v) is int}
    return len(d) == 2 and all(type(v) is int and v in ok for v in vs)


def sz1(vs):
    return any(v is not None and v[0] == 1 for v in vs)


def merge_states(I, states, final=False):
    if len(states) == 1:
        return states
    b = None
    # align heaps first
    s0 = states[0]
    for s in states[1:]:
        m = align_heap(s0, s)
        if m:
            rename(s, m)
    key, names = group_key(I, states, False)
    groups = {}
    for s in states:
        groups.setdefault(key(s), []).append(s)
    if len(groups) > 64:
        groups = {}
        for s in states:
            groups.setdefault(key(s, False), []).append(s)
        if len(groups) > 128:
            raise ToolError('too many partitions')
    out = []
    for g in groups.values():
        s = g[0]
        for x in g[1:]:
            s = merge2(I, s, x)
        out.append(s)
    return out


def merge2(I, A, B):
    pcu = b_or(A.pc, B.pc)
    if b_and(A.pc, B.pc) != 0 and feasible(b_and(A.pc, B.pc)):
        I.freshn += 1
        sel = b_var('join', (I.ctxid(), A.pc, B.pc))
        c = sel
    else:
        c = b_restrict(A.pc, pcu)
        c2 = b_restrict(b_not(B.pc), pcu)
        if len(b_support(c2)) < len(b_support(c)):
            c = c2

    def leaf(vec, name):
        a, b = vec
        if a is None:
            a = I.undef(name)
        if b is None:
            b = I.undef(name)
        try:
            return ite(c, a, b)
        except Exception:
            return app('fresh', 'join', str(name))
    M = Merger(leaf)
    R = A.fork()
    R.pc = pcu
    jobs = []
    for oid in dict.fromkeys(list(A.mem) + list(B.mem)):
        oa, ob = A.mem.get(oid), B.mem.get(oid)
        if oa is ob:
            continue
        if oa is None:
            R.mem[oid] = ob
            continue
        if ob is None:
            continue
        offs = dict.fromkeys(list(oa.cells) + list(ob.cells))
        ro = R.wr(oid)
        if oa.default != ob.default:
            # materialise the zero default where the other one has cells
            ro.default = oa.default if ob.default is None else ob.default
        for k in offs:
            ca, cb = oa.cells.get(k), ob.cells.get(k)
            if ca is cb:
                continue
            sz = (ca or cb)[0]
            va = ca[1] if ca else (0 if oa.default == 'zero' else None)
            vb = cb[1] if cb else (0 if ob.default == 'zero' else None)
            if ca and cb and ca[0] != cb[0]:
                ro.cells.pop(k, None)
                continue
            if va is not None and vb is not None and vkey(va) == vkey(vb):
                ro.cells[k] = ca
                continue
            if va is None:
                va = I.undef((str(oid), k))
            if vb is None:
                vb = I.undef((str(oid), k))
            jobs.append((ro, k, sz, [va, vb]))
    envjobs = []
    for d, (fa, fb) in enumerate(zip(A.frames, B.frames)):
        if fa is fb:
            continue
        new = {}
        for k, va in fa.items():
            if k not in fb:
                continue
            vb = fb[k]
            if k == '#al':
                new[k] = list(dict.fromkeys(list(va) + list(vb)))
                continue
            if isinstance(k, str) and k == 'exc':
                new[k] = va
                continue
            if va is vb or (type(va) is type(vb) and vkey(va) == vkey(vb)):
                new[k] = va
            elif va is None or vb is None:
                new[k] = None
            else:
                envjobs.append((new, k, [va, vb], (d, k)))
        for k in ('#al',):
            if k in fb and k not in fa:
                new[k] = fb[k]
        R.frames[d] = new
    for ro, k, sz, vec in jobs:
        v2 = [num(v) if isinstance(v, (BV, bool)) and sz != 1 else v for v in vec]
        if all(isnum(v) or type(v) is Poly for v in v2):
            M.register(v2, (k,))
    for new, k, vec, nm in envjobs:
        if all(isnum(v) or type(v) is Poly for v in vec):
            M.register(vec, nm)
    for ro, k, sz, vec in jobs:
        ro.cells[k] = (sz, M.cell(vec, (k,)))
    for new, k, vec, nm in envjobs:
        new[k] = M.cell(vec, nm)
    return R


# ------------------------------------------------------------ loop heads
def widen(I, f, h, order, S0):
    base = I.push('w', f.name, h)
    cid = I.ctxid()
    I.nwiden += 1
    for s in S0:
        prune(I, s, h)
    H = head_join(I, f, h, cid, S0, [], None, 0)
    it = 0
    wctx = I.ctx
    while True:
        mark = len(I.events)
        I.loopstack.append({'h': -1, 'f': None, 'int': 0, 'sym': 0, 'flag': 0})
        I.ctx = wctx
        outs, backs, rets, throws = I.run_region(f, order, h, {}, [s.fork() for k, s in H])
        I.loopstack.pop()
        B = []
        for p, s in backs:
            s = I.do_phis(f, h, p, s)
            prune(I, s, h)
            B.append(s)
        N = head_join(I, f, h, cid, S0, B, H, it)
        if I.cfg['trace']:
            print('widen', I.m.loc(f.blocks[h][0][3]) if f.blocks[h][0][3] else f.short, 'ctx', cid, 'it', it, 'groups', len(N), 'backs', len(B), 'ev', len(I.events))
        if same(H, N):
            break
        if I.cfg['trace'] and it > 40:
            showdiff(H, N)
        H = N
        del I.events[mark:]
        it += 1
        if it > I.cfg['maxiter']:
            raise ToolError('no fixpoint at loop %s' % I.m.loc(f.blocks[h][0][3]))
    I.ctx = base
    bi = f.blocks[h]
    loc = next((I.m.loc(x[3]) for x in bi if x[3]), f.dem)
    I.heads[cid] = dict(fn=f, block=h, loc=loc, entries=S0, H=H, backs=B, ctx=wctx)
    return outs, rets, throws


def showdiff(H, N):
    hk = dict(H)
    for k, s in N:
        o = hk.get(k)
        if o is None:
            print('  new group', k)
            continue
        for oid in s.mem:
            if oid not in o.mem:
                print('  obj', oid)
                continue
            a, b = o.mem[oid], s.mem[oid]
            for c in set(a.cells) | set(b.cells):
                x, y = a.cells.get(c), b.cells.get(c)
                if x is None or y is None or vkey(x[1]) != vkey(y[1]):
                    print('  ', oid, c, x and x[1], '->', y and y[1])
        for fr, fo in zip(s.frames, o.frames):
            for c in fr:
                if c not in fo or vkeys(fr[c]) != vkeys(fo[c]):
                    print('  env', c, fo.get(c), '->', fr[c])


def vkeys(v):
    return vkey(v) if not isinstance(v, list) else tuple(str(x) for x in v)


def same(H, N):
    if len(H) != len(N):
        return False
    hk = dict(H)
    for k, s in N:
        o = hk.get(k)
        if o is None or o.pc != s.pc:
            return False
        if set(o.mem) != set(s.mem):
            return False
        for oid in s.mem:
            a, b = o.mem[oid], s.mem[oid]
            if a is b:
                continue
            if len(a.cells) != len(b.cells) or a.freed != b.freed:
                return False
            for c, (sz, v) in b.cells.items():
                x = a.cells.get(c)
                if x is None or x[0] != sz or (x[1] is not v and vkey(x[1]) != vkey(v)):
                    return False
        for fr, fo in zip(s.frames, o.frames):
            if fr is fo:
                continue
            if set(fr) != set(fo):
                return False
            for c in fr:
                if vkeys(fr[c]) != vkeys(fo[c]):
                    return False
    return True


def restrict_state(s, cond):
    """the part of the state where cond holds"""
    r = s.fork()
    r.pc = b_and(s.pc, cond)
    for oid, o in s.mem.items():
        ch = None
        for k, (sz, v) in o.cells.items():
            if type(v) is Poly and v.und or type(v) in (BV, PIte):
                w = simp(v, r.pc)
                if w is not v:
                    ch = ch or {}
                    ch[k] = (sz, w)
        if ch:
            r.wr(oid).cells.update(ch)
    for d, env in enumerate(s.frames):
        ch = {}
        for k, v in env.items():
            if type(v) is Poly and v.und or type(v) in (BV, PIte):
                w = simp(v, r.pc)
                if w is not v:
                    ch[k] = w
        if ch:
            r.frames[d] = dict(env)
            r.frames[d].update(ch)
    return r


def partly_undef(s):
    for o in s.mem.values():
        for sz, v in o.cells.values():
            if type(v) is Poly and v.undef and v.und and not isundef(v) and undef_under(v, s.pc):
                return True
    return False


def split_backs(I, B, Hprev):
    """backs, one per group of head states they come from"""
    if Hprev is None or len(Hprev) < 2:
        return B
    out = []
    for s in B:
        if not partly_undef(s):
            out.append(s)
            continue
        for k, h in Hprev:
            if b_and(s.pc, h.pc) != 0 and feasible(b_and(s.pc, h.pc)):
                out.append(restrict_state(s, h.pc))
    return out


def flag(v, pc):
    """a truth value (also one stored as an integer) that the path condition decides"""
    if type(v) is BV:
        n, t, e = v.n, True, False
    elif type(v) is Poly and len(v.terms) == 1:
        (m, c), = v.terms
        if len(m) != 1 or m[0][1] != 1:
            return v
        a = atoms[m[0][0]]
        if a.op != 'ite' or not isnum(a.args[1]) or not isnum(a.args[2]):
            return v
        n, t, e = a.args[0], mul(c, a.args[1]), mul(c, a.args[2])
    else:
        return v
    if b_and(pc, n) == 0:
        return e
    if b_and(pc, b_not(n)) == 0:
        return t
    return v


def decide_flags(s):
    for oid, o in list(s.mem.items()):
        ch = {}
        for k, (sz, v) in o.cells.items():
            w = flag(v, s.pc)
            if w is not v:
                ch[k] = (sz, w)
        if ch:
            s.wr(oid).cells.update(ch)
    for d, env in enumerate(s.frames):
        ch = {}
        for k, v in env.items():
            w = flag(v, s.pc)
            if w is not v:
                ch[k] = w
        if ch:
            s.frames[d] = dict(env)
            s.frames[d].update(ch)


def head_join(I, f, h, cid, S0, B, Hprev, it):
    allst = list(S0) + list(B)
    for s in B:
        decide_flags(s)
    if it >= I.cfg.get('accum', 20) and Hprev is not None:
        # no stable state so far: from here on only ever forget relations
        allst += [s.fork() for k, s in Hprev]
    for s in allst:
        gc(s)
    ref = S0[0]
    for s in allst[1:]:
        m = align_heap(ref, s)
        if m:
            rename(s, m)
    key, names = group_key(I, allst, True)
    groups = {}
    I.__dict__.setdefault('phiinc', {})[cid] = {}
    for i, s in enumerate(allst):
        groups.setdefault(key(s), []).append((s, i < len(S0)))
    if len(groups) > 64:
        raise ToolError('too many head partitions (%d): %s' % (len(groups), names[:8]))
    # name groups stably: only by the positions that matter
    pcs = 0
    for s in S0:
        pcs = b_or(pcs, s.pc)
    keys = sorted(groups, key=str)
    gname = {k: tuple(sorted((n, str(v)) for n, v in zip(names, k))) for k in keys}
    sels = {k: b_var('part', (cid, str(gname[k]))) for k in keys} if len(keys) > 1 else None
    out = []

    def stale(v):
        cs = ctxs_of(v)
        if not cs:
            return False
        return any(I.within(c, cid) for c in cs)
    for k in keys:
        g = groups[k]
        pc = pcs
        if sels:
            for k2 in keys:
                pc = b_and(pc, sels[k] if k2 == k else b_not(sels[k2]))
        sts = [s for s, e in g]
        I.phiinc[cid][gname[k]] = inc = dict(sts=list(g), phi={}, sel=sels[k] if sels else 1)
        out.append((gname[k], head_state(I, cid, sts, pc, stale, gname[k], inc['phi'])))
    return out


def guard_shape(g):
    """the comparisons of a condition, up to the constants in them"""
    out = set()
    for v in TM.b_support(g):
        kind, p = TM.bvars[v]
        if kind == 'ilt' and isinstance(p, Poly):
            p = frozenset((m, c) for m, c in p.terms if m != ())
        out.add((kind, p))
    return out


def derived_guard(I, cid, name, vec, sts, counters):
    """condition on the counters of the loop under which the cell may be indeterminate at its head, found from the
    conditions under which the incoming values are, and checked to be preserved"""
    def holds(G):
        for v, s, i in zip(vec, sts, range(len(sts))):
            if v is None:
                return False
            u = undef_cond(v, s.pc)
            if u == 0:
                continue
            mp = {c: cv[i] for c, cv in counters}
            Gi = TM.subst_bdd(G, lambda at: mp.get(at.id), {})
            if feasible(b_and(u, b_not(Gi))):
                return False
        return True
    memo = I.__dict__.setdefault('guardmemo', {})
    old = memo.get((cid, name))
    if old is not None and holds(old):
        return old
    if memo.get((cid, name, 'n'), 0) > 3:
        return None         # the same condition with ever new constants: no stable one in sight
    G = G2 = 0
    for i, (v, s) in enumerate(zip(vec, sts)):
        if v is None:
            return None
        u = undef_cond(v, s.pc)
        if u == 0:
            continue
        if any(isnum(cv[i]) for c, cv in counters):
            continue
        inv = {}
        for c, cv in counters:
            k = sub(cv[i], TM.atoms[c].pol)
            if isnum(k):
                inv[c] = sub(TM.atoms[c].pol, k)
        if not inv:
            return None

        def drop(var):
            kind, p = TM.bvars[var]
            if kind != 'ilt':
                return True
            at = TM.all_atoms(p)
            return not any(x in inv for x in at) or any(x not in inv and TM.atoms[x].ctxs and any(I.within(c, cid) for c in TM.atoms[x].ctxs) for x in at)
        G = b_or(G, TM.subst_bdd(TM.b_exists(u, drop), lambda at: inv.get(at.id), {}))
        G2 = b_or(G2, TM.subst_bdd(TM.b_exists(b_restrict(u, s.pc), drop), lambda at: inv.get(at.id), {}))
    for g in (G, G2):
        if g not in (0, 1) and holds(g):
            if old is not None and g != old and guard_shape(g) == guard_shape(old):
                memo[(cid, name, 'n')] = memo.get((cid, name, 'n'), 0) + 1
            memo[(cid, name)] = g
            return g
    return None


def head_state(I, cid, sts, pc, stale, gname, inc=None):
    R = sts[0].fork()
    R.pc = pc

    def leaf(vec, name):
        if all(isinstance(v, (Ptr, PIte)) for v in vec):
            if all(isinstance(v, Ptr) and v.obj == vec[0].obj for v in vec):
                off = leaf([v.off for v in vec], (name, 'off'))
                return Ptr(vec[0].obj, off)
            if len(vec) == 1 or all(vkey(v) == vkey(vec[0]) for v in vec):
                return vec[0] if not isinstance(vec[0], PIte) else phi(name, vec)
            return phi(('ptr', name), vec)
        if all(isinstance(v, (BV, bool)) for v in vec):
            return mkbv(b_var('phi', (cid, name)))
        return phi(name, vec)

    def phi(name, vec):
        u = False
        for v, s in zip(vec, sts):
            if v is None or undef_under(v, s.pc):
                u = True
                break
        d = atom('phi', (cid, name), ctx=cid)
        if inc is not None:
            inc[d.id] = list(vec)
        if u:
            p = atom('phi', (cid, name, 'U'), ctx=cid)
            if inc is not None:
                inc[p.id] = list(vec)
            p.undef = True
            if not p.pol.undef:
                p.pol.undef = True
            tot = 1
            used = set()
            for c, gs, G in guards:
                # defined whenever this counter has reached the threshold
                if c not in used and all(v is not None and not undef_under(v, b_and(s.pc, b_not(g))) for v, s, g in zip(vec, sts, gs)):
                    used.add(c)
                    tot = b_and(tot, G)
            G = derived_guard(I, cid, name, vec, sts, counters)
            if G is not None:
                tot = b_and(tot, G)
            if tot != 1:
                return ite(tot, p.pol, d.pol)
            return p.pol
        return d.pol
    M = Merger(leaf, stale)
    guards, counters = [], []
    jobs, envjobs = [], []
    ids = {}
    for s in sts:
        for o in s.mem:
            ids[o] = None
    for oid in ids:
        objs = [s.mem.get(oid) for s in sts]
        if any(o is None for o in objs):
            # present on some paths only
            if oid not in R.mem:
                R.mem[oid] = next(o for o in objs if o is not None)
            continue
        o0 = objs[0]
        allsame = all(o is o0 for o in objs)
        if allsame and not any(stale(c[1]) for c in o0.cells.values()):
            continue
        offs = {}
        for o in objs:
            for k in o.cells:
                offs[k] = None
        ro = R.wr(oid)
        for k in offs:
            cs = [o.cells.get(k) for o in objs]
            sz = next(c for c in cs if c is not None)[0]
            if any(c is not None and c[0] != sz for c in cs):
                ro.cells.pop(k, None)
                continue
            vec = [c[1] if c is not None else (0 if o.default == 'zero' else I.undef((str(oid), k))) for c, o in zip(cs, objs)]
            if all(isundef(v) for v in vec):
                ro.cells.pop(k, None)
                continue
            k0 = vkey(vec[0])
            if all(vkey(v) == k0 for v in vec[1:]) and not stale(vec[0]):
                if cs[0] is not None:
                    ro.cells[k] = cs[0]
                continue
            jobs.append((ro, k, sz, vec, (str(oid), k)))
    nf = len(R.frames)
    for d in range(nf):
        frs = [s.frames[d] for s in sts]
        if all(fr is frs[0] for fr in frs) and not any(not isinstance(v, list) and stale(v) for v in frs[0].values()):
            continue
        new = {}
        for k in frs[0]:
            if any(k not in fr for fr in frs):
                continue
            vs = [fr[k] for fr in frs]
            if k == '#al':
                new[k] = list(dict.fromkeys(x for v in vs for x in v))
                continue
            if isinstance(k, str) or vs[0] is None:
                new[k] = vs[0]
                continue
            k0 = vkey(vs[0])
            if all(vkey(v) == k0 for v in vs[1:]) and not stale(vs[0]):
                new[k] = vs[0]
            else:
                envjobs.append((new, k, vs, ('env', d, k)))
        R.frames[d] = new
    for ro, k, sz, vec, nm in jobs:
        v2 = [num(v) if isinstance(v, (BV, bool)) and sz != 1 else v for v in vec]
        if all(isnum(v) or type(v) is Poly for v in v2):
            M.register(v2, nm)
    for new, k, vec, nm in envjobs:
        if all(isnum(v) or type(v) is Poly for v in vec):
            M.register(vec, nm)
    for ro, k, sz, vec, nm in jobs:
        if sz == 4:
            v = M.cell(vec, nm)
            ro.cells[k] = (sz, v)
            if type(v) is Poly and all(isnum(x) or type(x) is Poly for x in vec) and not undef_of(v):
                a = single(v)
                if a is not None and a.op == 'phi' and a.args[0] == cid:
                    counters.append((a.id, vec))
                if not nm[0].startswith('ghost') and len(v.terms) == 1 and v.terms[0][1] in (1, -1):
                    for th in (1, 2, 3):
                        G = TM.lt0(sub(v, th), True)
                        if G > 1:
                            guards.append((v.id, [TM.lt0(sub(x, th), True) if type(x) is Poly else (1 if x < th else 0) for x in vec], G))
    for ro, k, sz, vec, nm in jobs:
        if sz != 4:
            ro.cells[k] = (sz, M.cell(vec, nm))
    for new, k, vec, nm in envjobs:
        new[k] = M.cell(vec, nm)
    return R
