"""Value domain of the analyser: hash-consed polynomials over atoms, and BDDs.

A numeric abstract value is a Python number or a Poly: a sum of monomials
(products of integer powers of atoms).  Atoms are hash-consed applications
(op, args); joins and loop heads introduce 'ite' and 'phi' atoms.  Arithmetic
is over the reals: rounding is ignored, coefficients equal up to 1e-12 relative
are identified.
"""
import math
import mpmath
from fractions import Fraction

mpf = mpmath.mpf
mpmath.mp.prec = 160


def isnum(v):
    return isinstance(v, (int, float, mpf)) and not isinstance(v, bool)


_rk = {}


def rkey(c):
    if isinstance(c, int):
        return c
    if isinstance(c, float):
        r = _rk.get(c)
        if r is None:
            if c != c or c in (math.inf, -math.inf):
                return repr(c)
            r = float('%.12g' % c)
            if r == int(r) if abs(r) < 1e15 else False:
                r = int(r)
            _rk[c] = r
        return r
    if c == int(c):
        return int(c)
    return mpmath.nstr(c, 30)


class Atom:
    __slots__ = ('id', 'op', 'args', 'ctxs', 'undef', 'und', 'pol')

    def __repr__(self):
        return show_atom(self)


class Poly:
    __slots__ = ('terms', 'id', 'ctxs', 'undef', 'und')

    def __repr__(self):
        return show(self)


class BV:
    """symbolic boolean: a BDD node"""
    __slots__ = ('n',)

    def __repr__(self):
        return 'B' + bdd_show(self.n)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.off == self.off

    def __hash__(self):
        return hash((self.obj, self.off))

    def __repr__(self):
        return '&%s+%s' % (self.obj, self.off)


class PIte:
    """pointer chosen by a condition"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __eq__(self, o):
        return isinstance(o, PIte) and (o.c, o.a, o.b) == (self.c, self.a, self.b)

    def __hash__(self):
        return hash((self.c, self.a, self.b))

    def __repr__(self):
        return 'pite(%s,%s,%s)' % (bdd_show(self.c), self.a, self.b)


class Fn:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'fn:' + self.name


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, o):
        return isinstance(o, Agg) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return 'agg%s' % (self.v,)


NULL = Ptr(None, 0)
EMPTY = frozenset()
atoms = []           # id -> Atom
_atab = {}
_ptab = {}
_bv = {}
# parent chain of phi contexts: ctx id -> parent ctx id
ctx_parent = {}


def vkey(v):
    t = type(v)
    if t is Poly:
        return ('p', v.id)
    if t is int:
        return v
    if t is float or t is mpf:
        return rkey(v)
    if t is bool:
        return ('b', v)
    if t is BV:
        return ('bv', v.n)
    if t is tuple:
        return tuple(vkey(x) for x in v)
    if t is Agg:
        return ('agg',) + tuple(vkey(x) for x in v.v)
    return v


def ctxs_of(v):
    t = type(v)
    if t is Poly:
        return v.ctxs
    if t is tuple:
        s = EMPTY
        for x in v:
            c = ctxs_of(x)
            if c:
                s = s | c
        return s
    if t is BV:
        return bdd_ctxs(v.n)
    if t is PIte:
        return bdd_ctxs(v.c) | ctxs_of(v.a) | ctxs_of(v.b)
    if t is Agg:
        return ctxs_of(v.v)
    return EMPTY


def has_ite(v):
    t = type(v)
    if t is Poly:
        return v.und
    if t is tuple:
        return any(has_ite(x) for x in v)
    return t is BV


def undef_of(v):
    t = type(v)
    if t is Poly:
        return v.undef
    if t is tuple:
        return any(undef_of(x) for x in v)
    if t is BV:
        return bdd_undef(v.n)
    if t is PIte:
        return bdd_undef(v.c) or undef_of(v.a) or undef_of(v.b)
    if t is Agg:
        return undef_of(v.v)
    return False


def atom(op, args, ctx=None):
    k = (op, vkey(args))
    a = _atab.get(k)
    if a is None:
        a = Atom()
        a.id = len(atoms)
        a.op = op
        a.args = args
        s = ctxs_of(args)
        if ctx is not None:
            s = s | {ctx}
        if op == 'ite':
            s = s | bdd_ctxs(args[0])
        a.ctxs = s
        a.und = op == 'ite' or has_ite(args)
        a.undef = op == 'undef' or undef_of(args) or (op == 'ite' and bdd_undef(args[0]))
        atoms.append(a)
        _atab[k] = a
        a.pol = _mk({((a.id, 1),): 1})
    return a


def app(op, *args):
    return atom(op, args).pol


def sym(name):
    return atom('sym', (name,)).pol


def _mk(d):
    """Poly (or number) from dict mono->coef"""
    if not d:
        return 0
    if len(d) == 1:
        if () in d:
            return d[()]
    items = sorted(d.items())
    k = tuple((m, rkey(c)) for m, c in items)
    p = _ptab.get(k)
    if p is None:
        p = Poly()
        p.terms = tuple(items)
        p.id = len(_ptab)
        s = EMPTY
        u = False
        for m, c in items:
            for a, e in m:
                at = atoms[a]
                if at.ctxs and not (at.ctxs <= s):
                    s = s | at.ctxs
                u = u or at.undef
        p.ctxs = s
        p.und = any(atoms[a].und for m, c in items for a, e in m)
        p.undef = u
        _ptab[k] = p
    return p


def num(v):
    """numeric view of a value (BV -> ite atom)"""
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, BV):
        return ite(v.n, 1, 0)
    return v


TOL = 1e-12


def _cadd(a, b):
    s = a + b
    if isinstance(s, int):
        return s
    m = abs(a)
    m2 = abs(b)
    if m2 > m:
        m = m2
    if isinstance(s, float):
        if abs(s) <= TOL * m:
            return 0
    elif abs(s) <= mpf(10) ** -30 * m:
        return 0
    return s


def add(a, b):
    ta, tb = type(a), type(b)
    if ta is not Poly:
        if tb is not Poly:
            return a + b
        if a == 0:
            return b
        a, b, ta, tb = b, a, tb, ta
    d = dict(a.terms)
    if tb is not Poly:
        if b == 0:
            return a
        items = (((), b),)
    else:
        items = b.terms
    for m, c in items:
        o = d.get(m)
        if o is None:
            d[m] = c
        else:
            s = _cadd(o, c)
            if s == 0:
                del d[m]
            else:
                d[m] = s
    return _mk(d)


def scale(a, c):
    if c == 0:
        return 0
    if type(a) is not Poly:
        return a * c
    if c == 1:
        return a
    return _mk({m: k * c for m, k in a.terms})


def neg(a):
    return scale(a, -1) if type(a) is Poly else -a


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items()))


MAXTERMS = 600


def _cancel(p, q):
    """p single monomial with den(..)^-k, q poly: cancel if possible -> (p',q')"""
    if len(p.terms) != 1 or len(q.terms) < 2:
        return p, q
    m, c = p.terms[0]
    for a, e in m:
        at = atoms[a]
        if at.op == 'den' and e < 0:
            d = at.args[0]
            r = ratio(q, d)
            if r is not None:
                m2 = _mmul(m, ((a, 1),))
                return _mk({m2: c}), r
    return p, q


def ratio(q, d):
    """q/d if it is a number, else None"""
    if type(q) is not Poly or type(d) is not Poly or len(q.terms) != len(d.terms):
        return None
    r = None
    for (m1, c1), (m2, c2) in zip(q.terms, d.terms):
        if m1 != m2:
            return None
        x = c1 / c2 if not (isinstance(c1, int) and isinstance(c2, int) and c1 % c2 == 0) else c1 // c2
        if r is None:
            r = x
        elif abs(x - r) > 1e-12 * abs(r):
            return None
    return r


_mulmemo = {}


def mul(a, b):
    ta, tb = type(a), type(b)
    if ta is not Poly:
        if tb is not Poly:
            return a * b
        return scale(b, a)
    if tb is not Poly:
        return scale(a, b)
    key = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulmemo.get(key)
    if r is not None:
        return r
    A, B = _cancel(a, b)
    if type(B) is Poly:
        B, A = _cancel(B, A)
    if type(A) is not Poly or type(B) is not Poly:
        r = mul(A, B)
        _mulmemo[key] = r
        return r
    if len(A.terms) * len(B.terms) > MAXTERMS:
        if len(A.terms) >= len(B.terms):
            A = app('frz', A)
        else:
            B = app('frz', B)
        r = mul(A, B)
        _mulmemo[key] = r
        return r
    d = {}
    for m1, c1 in A.terms:
        for m2, c2 in B.terms:
            m = _mmul(m1, m2)
            c = c1 * c2
            o = d.get(m)
            if o is None:
                d[m] = c
            else:
                s = _cadd(o, c)
                if s == 0:
                    del d[m]
                else:
                    d[m] = s
    r = _mk(d)
    # sqrt(p)^2 -> p
    r = _sqrtfix(r)
    _mulmemo[key] = r
    return r


def _sqrtfix(r):
    if type(r) is not Poly:
        return r
    for m, c in r.terms:
        for a, e in m:
            if (e >= 2 or e <= -2) and atoms[a].op == 'sqrt':
                out = 0
                for m, c in r.terms:
                    t = _mk({(): c})
                    for a, e in m:
                        if atoms[a].op == 'sqrt' and abs(e) >= 2:
                            k = abs(e) // 2
                            s = 1 if e > 0 else -1
                            base = atoms[a].args[0]
                            for _ in range(k):
                                t = mul(t, base) if s > 0 else div(t, base)
                            if abs(e) % 2:
                                t = mul(t, _mk({((a, s),): 1}))
                        else:
                            t = mul(t, _mk({((a, e),): 1}))
                    out = add(out, t)
                return out
    return r


def lead(p):
    return p.terms[-1][1]


def inv(b):
    if type(b) is not Poly:
        if b == 0:
            return app('inf0')
        if isinstance(b, int):
            return 1 if b == 1 else (-1 if b == -1 else 1.0 / b)
        return 1 / b
    if len(b.terms) == 1:
        m, c = b.terms[0]
        return _mk({tuple((a, -e) for a, e in m): (1.0 / c if isinstance(c, int) and c not in (1, -1) else 1 / c if not isinstance(c, int) else c)})
    # common monomial factor stays inside; normalise leading coefficient
    l = lead(b)
    q = scale(b, inv(l)) if l != 1 else b
    at = atom('den', (q,))
    return _mk({((at.id, -1),): inv(l)})


def div(a, b):
    if type(b) is not Poly:
        if b == 0:
            return app('div0', a)
        if type(a) is not Poly:
            if isinstance(a, int) and isinstance(b, int):
                return a // b if a % b == 0 else a / b
            return a / b
        return scale(a, inv(b))
    if type(a) is Poly:
        r = ratio(a, b)
        if r is not None:
            return r
    return mul(a, inv(b))


# ------------------------------------------------------------------ BDD
F, T = 0, 1
_bn = [(1 << 60, 0, 0), (1 << 60, 1, 1)]
_bt = {}
_bm = {}
bvars = []      # index -> (kind, payload) ; payload Poly etc.
_bvt = {}
_bctx = {0: EMPTY, 1: EMPTY}
_bund = {0: False, 1: False}


def bdd_node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _bt.get(k)
    if n is None:
        n = len(_bn)
        _bn.append(k)
        _bt[k] = n
    return n


def bdd_ite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _bm.get(k)
    if r is not None:
        return r
    vf, vg, vh = _bn[f][0], _bn[g][0], _bn[h][0]
    v = min(vf, vg, vh)
    f0, f1 = (_bn[f][1], _bn[f][2]) if vf == v else (f, f)
    g0, g1 = (_bn[g][1], _bn[g][2]) if vg == v else (g, g)
    h0, h1 = (_bn[h][1], _bn[h][2]) if vh == v else (h, h)
    r = bdd_node(v, bdd_ite(f0, g0, h0), bdd_ite(f1, g1, h1))
    _bm[k] = r
    return r


def b_and(a, b):
    return bdd_ite(a, b, 0)


def b_or(a, b):
    return bdd_ite(a, 1, b)


def b_not(a):
    return bdd_ite(a, 0, 1)


def b_xor(a, b):
    return bdd_ite(a, b_not(b), b)


def b_imp(a, b):
    """does a imply b (with comparison axioms)"""
    x = b_and(a, b_not(b))
    if x == 0:
        return True
    return not feasible(x)


def b_var(kind, payload):
    k = (kind, vkey(payload))
    i = _bvt.get(k)
    if i is None:
        i = len(bvars)
        bvars.append((kind, payload))
        _bvt[k] = i
    return bdd_node(i, 0, 1)


_rm = {}


def b_restrict(f, c):
    """Coudert-Madre restrict: simplify f assuming c"""
    if c == 0:
        return 0
    if f <= 1 or c == 1:
        return f
    k = (f, c)
    r = _rm.get(k)
    if r is not None:
        return r
    vf, vc = _bn[f][0], _bn[c][0]
    if vc < vf:
        r = b_restrict(f, b_or(_bn[c][1], _bn[c][2]))
    else:
        c0, c1 = (_bn[c][1], _bn[c][2]) if vc == vf else (c, c)
        if c0 == 0:
            r = b_restrict(_bn[f][2], c1)
        elif c1 == 0:
            r = b_restrict(_bn[f][1], c0)
        else:
            r = bdd_node(vf, b_restrict(_bn[f][1], c0), b_restrict(_bn[f][2], c1))
    _rm[k] = r
    return r


_sup = {0: frozenset(), 1: frozenset()}


def b_support(f):
    s = _sup.get(f)
    if s is None:
        v, lo, hi = _bn[f]
        s = b_support(lo) | b_support(hi) | {v}
        _sup[f] = s
    return s


def bdd_ctxs(n):
    r = _bctx.get(n)
    if r is None:
        s = EMPTY
        for v in b_support(n):
            k, p = bvars[v]
            s = s | ctxs_of(p)
            if k in ('phi', 'part', 'join'):
                s = s | {p[0]}
        r = _bctx[n] = s
    return r


def bdd_undef(n):
    r = _bund.get(n)
    if r is None:
        r = _bund[n] = any(undef_of(bvars[v][1]) or bvars[v][0] == 'undef' for v in b_support(n))
    return r


def bdd_undef_under(n, pc):
    if not bdd_undef(n):
        return False
    n = b_restrict(n, pc)
    if n <= 1 or not bdd_undef(n):
        return False
    return bdd_undef_cond(n, pc) != 0


_bucm = {}


def bdd_undef_cond(n, pc):
    """where the truth of n depends on something indeterminate"""
    if pc == 0 or n <= 1 or not bdd_undef(n):
        return 0
    r = _bucm.get((n, pc))
    if r is not None:
        return r
    r = 0
    for v in b_support(n):
        k, p = bvars[v]
        if k != 'undef' and not undef_of(p):
            continue
        x = bdd_node(v, 0, 1)
        d = b_and(pc, b_xor(b_restrict(n, x), b_restrict(n, b_not(x))))
        if d == 0 or not feasible(d):
            continue
        r = b_or(r, d if k == 'undef' else undef_cond(p, d))
    _bucm[(n, pc)] = r
    return r


def bdd_show(n, depth=4):
    if n <= 1:
        return str(bool(n))
    v, lo, hi = _bn[n]
    k, p = bvars[v]
    s = '%s(%s)' % (k, show(p) if isinstance(p, Poly) else p)
    if lo == 0 and hi == 1:
        return s
    if lo == 1 and hi == 0:
        return '!' + s
    if depth == 0:
        return '...'
    return '[%s?%s:%s]' % (s, bdd_show(hi, depth - 1), bdd_show(lo, depth - 1))


# comparison atoms: kinds 'ilt' (int poly <0), 'L' (poly<0), 'G' (poly>0)
_axm = {}


def _split_const(p):
    c = 0
    rest = []
    for m, k in p.terms:
        if m == ():
            c = k
        else:
            rest.append((m, k))
    return c, tuple((m, rkey(k)) for m, k in rest)


def pairax(i, j):
    """axiom BDD between two comparison vars or None"""
    if i > j:
        i, j = j, i
    k = (i, j)
    if k in _axm:
        return _axm[k]
    r = None
    ki, pi = bvars[i]
    kj, pj = bvars[j]
    cmpk = ('L', 'G', 'ilt')
    if ki in cmpk and kj in cmpk:
        ci, ri = _split_const(pi)
        cj, rj = _split_const(pj)
        if ri == rj:
            vi, vj = bdd_node(i, 0, 1), bdd_node(j, 0, 1)

            # condition: base + c < 0  i.e. base < -c  (L, ilt);  base > -c (G)
            def imp(a, b):
                return b_or(b_not(a), b)
            if ki in ('L', 'ilt') and kj in ('L', 'ilt'):
                r = imp(vi, vj) if -ci <= -cj else imp(vj, vi)
            elif ki == 'G' and kj == 'G':
                r = imp(vi, vj) if -ci >= -cj else imp(vj, vi)
            else:
                if ki == 'G':
                    vi, vj, ci, cj = vj, vi, cj, ci
                # vi: base < -ci ; vj: base > -cj
                if -ci <= -cj:
                    r = b_not(b_and(vi, vj))
                if -ci > -cj:
                    r = b_or(vi, vj) if r is None else r
    _axm[k] = r
    return r


_feas = {}


def feasible(n):
    """satisfiable together with the order axioms of its comparisons"""
    if n <= 1:
        return n == 1
    r = _feas.get(n)
    if r is not None:
        return r
    cur = n
    groups = {}
    for v in b_support(n):
        k, p = bvars[v]
        if k in ('L', 'G', 'ilt'):
            groups.setdefault(_split_const(p)[1], []).append(v)
    for g in groups.values():
        if len(g) > 1:
            g.sort()
            for x in range(len(g)):
                for y in range(x + 1, len(g)):
                    ax = pairax(g[x], g[y])
                    if ax is not None:
                        cur = b_and(cur, ax)
                        if cur == 0:
                            _feas[n] = False
                            return False
    # facts of the form  g(x)<0 where x known nonneg are left undecided
    r = _feas[n] = cur != 0
    return r


def mkbv(n):
    if n == 0:
        return False
    if n == 1:
        return True
    b = _bv.get(n)
    if b is None:
        b = BV()
        b.n = n
        _bv[n] = b
    return b


def bnode(v):
    """BDD node of an i1 value"""
    if isinstance(v, BV):
        return v.n
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, int):
        return 1 if v else 0
    if isinstance(v, Poly):
        # non-zero test of an integer-valued term
        return b_not(cmp_eq(v, 0, True))
    raise ValueError('not a boolean %r' % (v,))


def nonneg(p):
    """syntactic non-negativity of a value"""
    if type(p) is not Poly:
        return isnum(p) and p >= 0
    for m, c in p.terms:
        if c < 0:
            return False
        for a, e in m:
            if e % 2:
                if not atom_nonneg(atoms[a]):
                    return False
    return True


def positive(p):
    if type(p) is not Poly:
        return isnum(p) and p > 0
    if not nonneg(p):
        return False
    for m, c in p.terms:
        if all(atom_pos(atoms[a]) for a, e in m):
            return True
    return False


def atom_pos(at):
    op = at.op
    if op == 'sym' and isinstance(at.args[0], str) and at.args[0].startswith('+'):
        return True
    if op in ('max',):
        return any(positive(x) for x in at.args)
    if op == 'min':
        return all(positive(x) for x in at.args)
    if op == 'pow' or op == 'exp':
        return op == 'exp' or positive(at.args[0])
    if op == 'sqrt' or op == 'frz' or op == 'den':
        return positive(at.args[0])
    if op == 'ite':
        return positive(at.args[1]) and positive(at.args[2])
    return False


def atom_nonneg(at):
    op = at.op
    if op in ('sqrt', 'abs'):
        return True
    if op == 'sym' and isinstance(at.args[0], str) and at.args[0].startswith('+'):
        return True
    if op in ('exp', 'pow'):
        return op == 'exp' or nonneg(at.args[0])
    if op == 'max':
        return any(nonneg(x) for x in at.args)
    if op == 'min':
        return all(nonneg(x) for x in at.args)
    if op == 'ite':
        return nonneg(at.args[1]) and nonneg(at.args[2])
    if op in ('frz', 'den'):
        return nonneg(at.args[0])
    return False


def lt0(p, isint, depth=8):
    """BDD of p<0"""
    if type(p) is not Poly:
        return 1 if p < 0 else 0
    if nonneg(p):
        return 0
    if positive(neg(p)):
        return 1
    if isint:
        if depth and p.und:
            for m, c in p.terms:
                for a, e in m:
                    if atoms[a].op == 'ite':
                        c = atoms[a].args[0]
                        p1, p0 = simp(p, c), simp(p, b_not(c))
                        return b_or(b_and(c, lt0(p1, True, depth - 1)), b_and(b_not(c), lt0(p0, True, depth - 1)))
        l = lead(p)
        if l < 0:
            # p<0  <=> -p>0 <=> not(-p-1<0)
            return b_not(b_var('ilt', add(neg(p), -1)))
        return b_var('ilt', p)
    r = lt0_shape(p, depth)
    if r is not None:
        return r
    l = lead(p)
    q = p if l in (1, -1) else scale(p, 1.0 / abs(l))
    if lead(q) < 0:
        return b_var('G', neg(q))
    return b_var('L', q)


def lt0_shape(p, depth):
    """k*sqrt(q)+c<0, k*max(..)+c<0, k*min(..)+c<0 in terms of their arguments"""
    if len(p.terms) > 2 or depth <= 0:
        return None
    c0 = k = at = None
    for m, c in p.terms:
        if m == ():
            c0 = c
        elif len(m) == 1 and m[0][1] == 1:
            k, at = c, atoms[m[0][0]]
    if at is None or at.op not in ('sqrt', 'max', 'min') or (len(p.terms) == 2) != (c0 is not None):
        return None
    c0 = c0 or 0
    a = -c0 / k
    if at.op == 'sqrt':
        q = at.args[0]
        if isnum(q) or a < 0:
            return None
        d = sub(q, a * a)
        return lt0(d, False, depth - 1) if k > 0 else lt0(neg(d), False, depth - 1)
    if sum(not isnum(x) for x in at.args) > 1:
        return None
    every = (at.op == 'max') == (k > 0)
    r = 1 if every else 0
    for x in at.args:
        d = sub(x, a)
        t = cmp_lt(d, 0, False) if k > 0 else cmp_lt(neg(d), 0, False)
        r = b_and(r, t) if every else b_or(r, t)
    return r


def cmp_lt(a, b, isint):
    if isnum(a) and isnum(b):
        return 1 if a < b else 0
    return lt0(sub(a, b), isint)


def cmp_le(a, b, isint):
    return b_not(cmp_lt(b, a, isint))


def cmp_eq(a, b, isint):
    if isnum(a) and isnum(b):
        return 1 if a == b else 0
    d = sub(a, b)
    if type(d) is not Poly:
        return 1 if d == 0 else 0
    return b_and(b_not(lt0(d, isint)), b_not(lt0(neg(d), isint)))


# ------------------------------------------------------------ ite/min/max
def mx(op, a, b):
    if isnum(a) and isnum(b):
        return max(a, b) if op == 'max' else min(a, b)
    if vkey(a) == vkey(b):
        return a
    d = sub(a, b)
    if type(d) is not Poly:
        return (a if d > 0 else b) if op == 'max' else (a if d < 0 else b)
    if nonneg(d):
        return a if op == 'max' else b
    if nonneg(neg(d)):
        return b if op == 'max' else a
    args = []
    for x in (a, b):
        if type(x) is Poly and len(x.terms) == 1 and x.terms[0][1] == 1 and len(x.terms[0][0]) == 1 \
                and x.terms[0][0][0][1] == 1 and atoms[x.terms[0][0][0][0]].op == op:
            args.extend(atoms[x.terms[0][0][0][0]].args)
        else:
            args.append(x)
    cs = [x for x in args if isnum(x)]
    ps = {vkey(x): x for x in args if not isnum(x)}
    out = [ps[k] for k in sorted(ps)]
    if cs:
        out.append((max if op == 'max' else min)(cs))
    if len(out) == 1:
        return out[0]
    return app(op, *out)


def fabs_(a):
    if isnum(a):
        return abs(a)
    if nonneg(a):
        return a
    na = neg(a)
    if nonneg(na):
        return na
    if len(a.terms) == 1:
        m, c = a.terms[0]
        r = abs(c)
        out = _mk({(): r})
        for at, e in m:
            if e % 2 == 0 or atom_nonneg(atoms[at]):
                out = mul(out, _mk({((at, e),): 1}))
            else:
                out = mul(out, pw(app('abs', atoms[at].pol), e)) if atoms[at].op != 'abs' else mul(out, _mk({((at, e),): 1}))
        return out
    return app('abs', a if lead(a) > 0 else na)


def pw(a, e):
    """integer power"""
    if e == 0:
        return 1
    if e < 0:
        return inv(pw(a, -e))
    r = 1
    for _ in range(e):
        r = mul(r, a)
    return r


def sqrt_(a):
    if isnum(a):
        if isinstance(a, mpf):
            return mpmath.sqrt(a)
        return math.sqrt(a) if a >= 0 else app('sqrt', a)
    if len(a.terms) == 1:
        m, c = a.terms[0]
        if c > 0 and all(e % 2 == 0 for _, e in m):
            return mul(math.sqrt(c), fabs_(_mk({tuple((x, e // 2) for x, e in m): 1})))
    return app('sqrt', a)


def pow_(a, b):
    if isnum(a) and isnum(b):
        try:
            r = float(a) ** float(b) if not isinstance(a, mpf) and not isinstance(b, mpf) else mpf(a) ** mpf(b)
            if not isinstance(r, complex):
                return r
        except (OverflowError, ZeroDivisionError):
            pass
    if isnum(b):
        if b == int(b) and abs(b) <= 8:
            return pw(a, int(b))
        if b == 0.5:
            return sqrt_(a)
    return app('pow', a, b)


def single(v):
    """atom if the value is exactly one atom"""
    if type(v) is Poly and len(v.terms) == 1:
        m, c = v.terms[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return atoms[m[0][0]]
    return None


def ite(c, a, b):
    """value of c?a:b for numbers/polys"""
    if c == 1:
        return a
    if c == 0:
        return b
    if vkey(a) == vkey(b):
        return a
    if isinstance(a, (BV, bool)) and isinstance(b, (BV, bool)):
        return mkbv(bdd_ite(c, bnode(a), bnode(b)))
    if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
        if isinstance(a, PIte):
            if b_imp(c, a.c):
                return ite(c, a.a, b)
            if b_imp(c, b_not(a.c)):
                return ite(c, a.b, b)
        if isinstance(b, PIte):
            nc = b_not(c)
            if b_imp(nc, b.c):
                return ite(c, a, b.a)
            if b_imp(nc, b_not(b.c)):
                return ite(c, a, b.b)
        return PIte(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
        return Agg([ite(c, x, y) for x, y in zip(a.v, b.v)])
    a, b = num(a), num(b)
    if not (isnum(a) or isinstance(a, Poly)) or not (isnum(b) or isinstance(b, Poly)):
        return app('sym', 'ite?')
    # absorb nested ites decided by c
    sa = single(a)
    if sa is not None and sa.op == 'ite':
        if b_imp(c, sa.args[0]):
            return ite(c, sa.args[1], b)
        if b_imp(c, b_not(sa.args[0])):
            return ite(c, sa.args[2], b)
    sb = single(b)
    if sb is not None and sb.op == 'ite':
        nc = b_not(c)
        if b_imp(nc, sb.args[0]):
            return ite(c, a, sb.args[1])
        if b_imp(nc, b_not(sb.args[0])):
            return ite(c, a, sb.args[2])
    # min / max / abs
    d = sub(a, b)
    n = _bn[c]
    if n[1] <= 1 and n[2] <= 1:
        k, p = bvars[n[0]]
        if k in ('L', 'G', 'ilt') and type(d) is Poly:
            pos = (n[2] == 1)
            # c true iff (p<0)==pos for L/ilt ; p>0 for G
            r = ratio(d, p)
            if r is None and k == 'ilt':
                r = ratio(d, add(p, 1)) or ratio(d, p)
            if r is not None:
                less = (k in ('L', 'ilt')) == pos     # c true iff p<0 (or <=0)
                # when c true, d = r*p has sign -r if less
                chosen_small = (r > 0) == less
                if len(d.terms) >= 1 and vkey(a) == vkey(neg(b)):
                    v = fabs_(a)
                    return neg(v) if chosen_small else v
                return mx('min' if chosen_small else 'max', a, b)
    # canonical polarity
    if _allfalse(c):
        c, a, b = b_not(c), b, a
    return app_ite(c, a, b)


def _allfalse(n):
    while n > 1:
        n = _bn[n][1]
    return n == 1


def app_ite(c, a, b):
    # factor common part: ite(c,a,b) = common + ite(c,a-common,b-common)
    if type(a) is Poly and type(b) is Poly:
        da = dict(a.terms)
        com = {}
        for m, k in b.terms:
            o = da.get(m)
            if o is not None and rkey(o) == rkey(k):
                com[m] = o
        if com:
            cp = _mk(com)
            return add(cp, _ite_raw(c, sub(a, cp), sub(b, cp)))
        # common factor (single monomials with same coefficient structure)
    return _ite_raw(c, a, b)


def _ite_raw(c, a, b):
    return atom('ite', (c, a, b)).pol


# ------------------------------------------------------------ printing
def show_atom(a, depth=3):
    if a.op == 'sym':
        return str(a.args[0])
    if a.op == 'phi':
        return 'φ%s' % (a.id,)
    if depth <= 0:
        return '%s#%d' % (a.op, a.id)
    if a.op == 'ite':
        return 'ite(%s,%s,%s)' % (bdd_show(a.args[0], 2), show(a.args[1], depth - 1), show(a.args[2], depth - 1))
    return '%s(%s)' % (a.op, ','.join(show(x, depth - 1) for x in a.args[:8]))


def show(v, depth=3):
    if not isinstance(v, Poly):
        if isinstance(v, float):
            return '%.6g' % v
        return str(v)
    out = []
    for m, c in v.terms[:12]:
        s = '*'.join(show_atom(atoms[a], depth - 1) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if c == 1 and s:
            out.append(s)
        else:
            out.append('%.6g%s' % (float(c), '*' + s if s else ''))
    if len(v.terms) > 12:
        out.append('..(%d)' % len(v.terms))
    return ' + '.join(out)


# ------------------------------------------------------------ simplify
_simpmemo = {}


def simp(v, pc, memo=None):
    """resolve ite choices decided by pc"""
    t = type(v)
    if t is Poly:
        if not v.und:
            return v
        k = (v.id, pc)
        r = _simpmemo.get(k)
        if r is not None:
            return r
        out = v
        changed = {}
        for a in {a for m, c in v.terms for a, e in m if atoms[a].und}:
            at = atoms[a]
            if at.op == 'ite':
                c = at.args[0]
                if b_imp(pc, c):
                    changed[a] = simp(at.args[1], pc)
                elif b_imp(pc, b_not(c)):
                    changed[a] = simp(at.args[2], pc)
                else:
                    x = simp(at.args[1], b_and(pc, c))
                    y = simp(at.args[2], b_and(pc, b_not(c)))
                    if vkey(x) != vkey(at.args[1]) or vkey(y) != vkey(at.args[2]):
                        changed[a] = ite(c, x, y)
            else:
                na = tuple(simp(x, pc) if isinstance(x, (Poly, tuple, BV)) else x for x in at.args)
                if vkey(na) != vkey(at.args):
                    changed[a] = rebuild(at.op, na, at)
        if changed:
            out = subst_atoms(v, changed)
        if len(_simpmemo) > 2000000:
            _simpmemo.clear()
        _simpmemo[k] = out
        return out
    if t is tuple:
        return tuple(simp(x, pc) for x in v)
    if t is BV:
        if b_imp(pc, v.n):
            return True
        if b_imp(pc, b_not(v.n)):
            return False
        return mkbv(b_restrict(v.n, pc))
    if t is PIte:
        if b_imp(pc, v.c):
            return simp(v.a, pc)
        if b_imp(pc, b_not(v.c)):
            return simp(v.b, pc)
        return v
    return v


_undmemo = {}


def undef_cond(v, pc):
    """BDD (with pc) of where the value may be indeterminate; 0 when nowhere"""
    if pc == 0 or not undef_of(v):
        return 0
    t = type(v)
    if t is Poly:
        k = (v.id, pc)
        r = _undmemo.get(k)
        if r is not None:
            return r
        r = 0
        for a in {a for m, c in v.terms for a, e in m if atoms[a].undef}:
            at = atoms[a]
            if at.op in ('undef', 'phi'):
                r = pc if feasible(pc) else 0
            elif at.op == 'ite':
                c = at.args[0]
                p1, p0 = b_and(pc, c), b_and(pc, b_not(c))
                if p1 and not feasible(p1):
                    p1 = 0
                if p0 and not feasible(p0):
                    p0 = 0
                if p1 and p0:
                    r = b_or(r, bdd_undef_cond(b_restrict(c, pc), pc))
                r = b_or(r, b_or(undef_cond(at.args[1], p1), undef_cond(at.args[2], p0)))
            else:
                for x in at.args:
                    r = b_or(r, undef_cond(x, pc))
            if r == pc:
                break
        _undmemo[k] = r
        return r
    if t is tuple:
        r = 0
        for x in v:
            r = b_or(r, undef_cond(x, pc))
        return r
    if t is BV:
        if b_imp(pc, v.n) or b_imp(pc, b_not(v.n)):
            return 0
        return bdd_undef_cond(b_restrict(v.n, pc), pc)
    return pc if undef_of(simp(v, pc)) else 0


def undef_under(v, pc):
    """may the value be indeterminate where pc holds"""
    return undef_cond(v, pc) != 0


def b_exists(n, drop, memo=None):
    """quantify the variables for which drop(var) holds"""
    if n <= 1:
        return n
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is None:
        v, lo, hi = _bn[n]
        l, h = b_exists(lo, drop, memo), b_exists(hi, drop, memo)
        r = b_or(l, h) if drop(v) else bdd_ite(bdd_node(v, 0, 1), h, l)
        memo[n] = r
    return r


def subst_atoms(v, mp):
    out = 0
    for m, c in v.terms:
        t = c
        for a, e in m:
            x = mp.get(a)
            if x is None:
                t = mul(t, _mk({((a, e),): 1}))
            else:
                t = mul(t, pw(x, e))
        out = add(out, t)
    return out


def rebuild(op, args, at=None):
    if op == 'max' or op == 'min':
        r = args[0]
        for x in args[1:]:
            r = mx(op, r, x)
        return r
    if op == 'abs':
        return fabs_(args[0])
    if op == 'sqrt':
        return sqrt_(args[0])
    if op == 'pow':
        return pow_(*args)
    if op == 'den':
        return args[0]
    if op == 'frz':
        return args[0] if type(args[0]) is not Poly else app('frz', args[0])
    if op == 'ite':
        return ite(*args)
    return atom(op, args).pol


def subst(v, fn, memo=None):
    """rebuild v with fn(atom)->value or None for every atom, bottom-up"""
    if memo is None:
        memo = {}
    t = type(v)
    if t is Poly:
        mp = {}
        for m, c in v.terms:
            for a, e in m:
                if a in mp:
                    continue
                if a in memo:
                    r = memo[a]
                else:
                    at = atoms[a]
                    r = fn(at)
                    if r is None and at.op not in ('sym', 'phi', 'undef'):
                        if at.op == 'ite':
                            na = (subst_bdd(at.args[0], fn, memo), subst(at.args[1], fn, memo), subst(at.args[2], fn, memo))
                        else:
                            na = tuple(subst(x, fn, memo) if isinstance(x, (Poly, tuple, BV)) else x for x in at.args)
                        if vkey(na) != vkey(at.args):
                            r = rebuild(at.op, na, at)
                    memo[a] = r
                if r is not None:
                    mp[a] = r
        return subst_atoms(v, mp) if mp else v
    if t is tuple:
        return tuple(subst(x, fn, memo) for x in v)
    if t is BV:
        return mkbv(subst_bdd(v.n, fn, memo))
    return v


def subst_bdd(n, fn, memo):
    if n <= 1:
        return n
    k = ('B', n)
    if k in memo:
        return memo[k]
    v, lo, hi = _bn[n]
    kind, p = bvars[v]
    nb = bdd_node(v, 0, 1)
    if kind in ('L', 'G', 'ilt'):
        q = subst(p, fn, memo)
        if vkey(q) != vkey(p):
            nb = lt0(q, kind == 'ilt') if kind != 'G' else lt0(neg(q), False)
    r = bdd_ite(nb, subst_bdd(hi, fn, memo), subst_bdd(lo, fn, memo))
    memo[k] = r
    return r


def all_atoms(v, acc=None):
    """every atom reachable in the term"""
    if acc is None:
        acc = {}
    t = type(v)
    if t is Poly:
        for m, c in v.terms:
            for a, e in m:
                if a not in acc:
                    at = atoms[a]
                    acc[a] = at
                    if at.op == 'ite':
                        _bdd_atoms(at.args[0], acc)
                    for x in at.args:
                        all_atoms(x, acc)
    elif t is tuple:
        for x in v:
            all_atoms(x, acc)
    elif t is BV:
        _bdd_atoms(v.n, acc)
    return acc


def _bdd_atoms(n, acc):
    for x in b_support(n):
        all_atoms(bvars[x][1], acc)


def top_atoms(v):
    return {a for m, c in v.terms for a, e in m} if type(v) is Poly else set()


def coeff(v, at):
    """coefficient (a value) of atom at (degree one) in v, and the remainder"""
    if type(v) is not Poly:
        return 0, v
    co, rest = 0, 0
    for m, c in v.terms:
        d = dict(m)
        if d.get(at.id) == 1:
            del d[at.id]
            co = add(co, _mk({tuple(sorted(d.items())): c}))
        else:
            rest = add(rest, _mk({m: c}))
    return co, rest
