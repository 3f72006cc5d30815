"""C08: one step of the symplectic integrator is the implicit Runge-Kutta map, accepted on convergence only, with compensated summation"""
from explicit import *
import models
from steps import *
from scheme import *
from engine_check import Obs, run_configs
from c07 import tables

TECH = ('abstract interpretation of the compiled step with floating-point operations kept in program order; stage maps, convergence condition and compensated update '
        'read off the resulting terms, for fixed small and for unknown numbers of sweeps')
EXPL = ('SymplecticRK::step is interpreted for one, two and three sweeps and for an unknown maximum number of sweeps (loop-head fixpoint), with symbolic step and state, followed by a '
        'second step with the same or another step size, with and without extrapolated start. Each floating-point addition is kept as an operation of its own. In every returned state: '
        'a true result means u = u0 + (e0 + sum b_i h F_i) and carried error e0 + sum b_i h F_i + (u0 - u) with u the rounded value, the F_i being evaluated at stages that are either start '
        'values or u0 + sum a_ij h F_j of the sweep before, all stages of one sweep from the same sweep; the path condition of a true result bounds the sum of squared changes of all stages '
        'in the last sweep by a number below 1e-200. A false result leaves state and carried error. The tables are those the accessors of GaussianMethod give (C07).')

EXACT = dict(fadd=add, fsub=TM.sub, fmul=mul, fdiv=TM.div)


class Unround:
    """floating-point operations as exact ones, except those in keep"""

    def __init__(self, keep=()):
        self.keep = set(keep)
        self.memo = {}

    def __call__(self, v):
        if type(v) is tuple:
            return tuple(self(x) for x in v)
        if type(v) is not Poly:
            return v
        k = v.id
        if k in self.memo:
            return self.memo[k]
        out = 0
        for m, c in v.terms:
            t = c
            for a, e in m:
                t = mul(t, TM.pw(self.atom(TM.atoms[a]), e) if e != 1 else self.atom(TM.atoms[a]))
            out = add(out, t)
        self.memo[k] = out
        return out

    def atom(self, at):
        k = ('a', at.id)
        if k in self.memo:
            return self.memo[k]
        if at.id in self.keep or at.op in ('sym', 'phi', 'undef'):
            r = at.pol
        elif at.op in EXACT:
            r = EXACT[at.op](self(at.args[0]), self(at.args[1]))
        elif at.op.startswith('round_'):
            r = self(at.args[0])
        elif at.op == 'ite':
            r = atom('ite', (at.args[0], self(at.args[1]), self(at.args[2]))).pol
        else:
            n = tuple(self(x) if isinstance(x, (Poly, tuple)) else x for x in at.args)
            r = TM.rebuild(at.op, n, at) if vkey(n) != vkey(at.args) else at.pol
        self.memo[k] = r
        return r


def close(a, b, tol):
    d = TM.sub(a, b)
    if isnum(d):
        return abs(float(d)) <= tol
    return all(abs(float(c)) <= tol for m, c in d.terms)


class Step:
    """what one returned state says about the step before it"""

    def __init__(self, c, o, tabs, key, where):
        self.n, self.s = c['n'], c['s']
        self.tabs = tabs
        self.o = o
        self.key = key
        self.where = where
        self.tol = 1e-12
        self.U = Unround(c.get('keep', ()))

    def increments(self, d, h):
        """d[l] = sum_i w_i el(F_i, l): [(F atom, w/h)] or None; h is the step, a term or a number"""
        per = []
        for l in range(self.n):
            if isnum(d[l]):
                return None
            g = {}
            for m, c in d[l].terms:
                ms = dict(m)
                F = None
                for a, e in m:
                    t = TM.atoms[a]
                    if t.op == 'el' and t.args[1] == l and e == 1 and single(t.args[0]).op == 'F':
                        F = single(t.args[0])
                        del ms[a]
                if F is None:
                    return None
                r = TM._mk({tuple(sorted(ms.items())): c}) if ms else c
                if not isnum(h):
                    r = mul(r, TM.inv(h))
                elif h != 1:
                    r = mul(r, 1.0 / h)
                if not isnum(r):
                    return None
                g[F.id] = g.get(F.id, 0) + r
            per.append(g)
        for g in per[1:]:
            if set(g) != set(per[0]) or any(abs(float(g[k] - per[0][k])) > self.tol for k in g):
                return None
        return {k: float(v) for k, v in per[0].items()}


def find(rows, A, s, tol):
    """previous evaluations in the order of the stages, from rows of weights (all rows the same evaluations)"""
    ks = set(rows[0])
    if any(set(r) != ks for r in rows) or len(ks) != s:
        return None
    perm = [None] * s
    for k in ks:
        col = [r[k] for r in rows]
        hit = [j for j in range(s) if all(abs(col[i] - A[i][j]) <= tol for i in range(s))]
        hit = [j for j in hit if perm[j] is None]
        if not hit:
            return None
        perm[hit[0]] = k
    return perm


def hvals(h, pc, others):
    """terms the step may appear as under a path condition"""
    out = [h]
    for x in others:
        lt, gt = TM.cmp_lt(h, x, False), TM.cmp_lt(x, h, False)
        if not feasible(b_and(pc, lt)) and not feasible(b_and(pc, gt)):
            out.append(x)
    return out


def split(lst, h, others):
    # the step is compared with earlier ones: equal, or different
    for want, cond in lst:
        cs = [cond]
        for x in others:
            if vkey(x) == vkey(h) or isnum(x) and isnum(h):
                continue
            eq = b_not(b_or(TM.cmp_lt(h, x, False), TM.cmp_lt(x, h, False)))
            cs = [b_and(k, e) for k in cs for e in (eq, b_and(b_not(eq), TM.cmp_lt(h, x, False)), b_and(b_not(eq), TM.cmp_lt(x, h, False)))]
        for k in cs:
            if feasible(k):
                yield want, k


def analyse(c):
    o = Obs()
    c = dict(c, keep=set())
    a = GaussRun(c)
    n, s = c['n'], c['s']
    r0 = Run(a.r.I.m, dict(timeout=60))
    g = r0.obj('g', r0.const('h_gsize'), 16)
    r0.call('h_gctor', g)
    A, b = tables(r0, g, s, o, '')
    A = [[float(x) for x in l] for l in A]
    b = [float(x) for x in b]
    a.r.I.strict = True
    a.r.I.cfg['rhstag'] = True
    where = 'SymplecticRK<%d>::step' % s
    key = 's=%d %s' % (s, 'unknown sweeps' if c['itermax'] is None else '%d sweeps' % c['itermax'])
    tol = 1e-12

    def judge(st, val, u0, e0, h, others, nth):
        """check one returned state against the state before; returns (u terms, carried error)"""
        pc = st.pc
        k = '%s step %d' % (key, nth)
        u1 = a.xy(st)[1]
        rv = TM.simp(val, pc) if not isinstance(val, bool) else val
        n_ = b_truth(rv)
        out = []
        for want, cond in split(((True, b_and(pc, n_)), (False, b_and(pc, b_not(n_)))), h, others):
            us = [TM.simp(v, cond) for v in u1]
            if not want:
                o.ob('a step that did not converge leaves the state', all(vkey(x) == vkey(y) for x, y in zip(us, u0)), k + '/false state',
                     'step returns false but the state is %s' % show(us[0], 2)[:120], where)
                out.append((want, cond, us, e0))
                continue
            st_ = Step(c, o, (A, b), k, where)
            U = st_.U
            hs = hvals(h, cond, others)
            d = [TM.sub(U(us[l]), add(U(u0[l]) if False else u0[l], e0[l])) for l in range(n)]
            w = hh = None
            for x in hs:
                w = st_.increments(d, x)
                if w is not None and len(w) == s and all(min(abs(v - y) for y in b) <= tol for v in w.values()):
                    hh = x
                    break
            if not o.ob('update by the Gauss weights', hh is not None, k + '/update',
                        'the new state is not u + e + h sum b_i F_i: %s' % show(U(us[0]), 2)[:200], where):
                continue
            # the stages these were evaluated at
            Fs = [TM.atoms[x] for x in w]
            seq = order_of(st_, Fs, w, b, A, u0, hh, n, s, tol)
            ok = seq is not None
            o.ob('stages from the Gauss combination of the sweep before', ok, k + '/stages',
                 'the stages evaluated for the update are not u + h sum a_ij F_j of one sweep, nor start values', where)
            if ok:
                F, prev = seq
                # convergence: all changes of the last sweep enter the test
                D = 0
                for i in range(s):
                    for l in range(n):
                        new = u0[l]
                        for j in range(s):
                            new = add(new, mul(mul(A[i][j], hh), app('el', U.atom(F[j]), l)))
                        dd = TM.sub(new, U(F[i].args[l]))
                        D = add(D, mul(dd, dd))
                lits = []
                for x in sorted(b_support(cond)):
                    kind, p = TM.bvars[x]
                    if kind not in ('L', 'G') or type(p) is not Poly:
                        continue
                    pos = feasible(b_and(cond, TM.bdd_node(x, 0, 1)))
                    ng = feasible(b_and(cond, TM.bdd_node(x, 1, 0)))
                    if pos and ng:
                        continue
                    # truth of p<0 (L) or p>0 (G)
                    q = U(TM.simp(p, cond))
                    sg = -1 if (kind == 'L') == pos else 1          # p < 0 / >= 0
                    lits.append((sg, q))
                hit = False
                for sg, q in lits:
                    for f in (1, -1):
                        # sg*f*... : D - t <= 0
                        z = TM.sub(mul(f, q), D)
                        t = const_of(z, 1e-9)
                        if t is not None and t <= 0 and sg * f < 0 and -t < 1e-200:
                            hit = True
                o.ob('converged means no stage changed any more', hit, k + '/convergence',
                     'a step is accepted without a condition that the sum of squares of the changes of all stages in the last sweep is negligible', where)
            # carried error of the rounded sum
            ats = [single(x) for x in us]
            if any(x is None or x.op not in ('fadd', 'fsub') for x in ats):
                o.ob('the new state is a rounded sum', False, k + '/sum', 'the new state is not the result of one addition', where)
                continue
            inc = [add(e0[l], TM.sub(U(us[l]), add(u0[l], e0[l]))) for l in range(n)]
            # e1 = e0 + sum b h F + (u0 - u1)
            e1 = [TM.sub(add(inc[l], u0[l]), us[l]) for l in range(n)]
            for l in range(n):
                x, y = U(ats[l].args[0]), U(ats[l].args[1])
                good = any(close(p, u0[l], tol) and close(q, inc[l], tol) for p, q in ((x, y), (y, x))) and ats[l].op == 'fadd'
                o.ob('one addition of the whole increment to the state', good, k + '/addition', 'the new state is not the old one plus, in one addition, the increment with the carried error', where)
            out.append((want, cond, us, e1))
        return out

    def order_of(st_, Fs, w, b, A, u0, hh, n, s, tol):
        """(evaluations in stage order, kind) or None"""
        import itertools
        rows = {}
        for f in Fs:
            arg = [st_.U(x) for x in f.args[:n]]
            d = [TM.sub(arg[l], u0[l]) for l in range(n)]
            rows[f.id] = st_.increments(d, hh) if not all(isnum(x) and x == 0 for x in d) else {}
        cands = [[i for i in range(s) if abs(w[f.id] - b[i]) <= tol] for f in Fs]
        for pick in itertools.product(*cands):
            if len(set(pick)) < s:
                continue
            F = [None] * s
            for f, i in zip(Fs, pick):
                F[i] = f
            R = [rows[f.id] for f in F]
            if any(r is None for r in R) or any(r == {} for r in R) and s > 1:
                # start values: of the first sweep, or those of a loop head
                if start_values(R, F, u0):
                    return F, None
                continue
            p = find(R, A, s, tol)
            if p is not None:
                return F, p
            if start_values(R, F, u0):
                return F, None
        return None

    starts = []

    def start_values(R, F, u0):
        """the arguments are values from before the first sweep: of one group"""
        key_ = tuple(vkey(f.args[:n]) for f in F)
        if key_ in starts:
            return True
        if not cur['first'] and not any(x.op == 'phi' for f in F for v in f.args[:n] for x in atoms_of(v)) and \
                not any(x.op == 'F' and not (isnum(x.args[n]) and x.args[n] < cur['known']) for f in F for v in f.args[:n] for x in atoms_of(v)):
            return True         # extrapolated from evaluations of earlier steps
        return all(all(type(x) is Poly and single(x) is not None and single(x).op == 'phi' for x in f.args[:n]) for f in F) \
            and phi_ok(F, u0)

    heads = {}

    def phi_ok(F, u0):
        """stages that are values of a loop head: what flows in are start values or the Gauss combination of the head's own stages"""
        ids = [[single(x) for x in f.args[:n]] for f in F]
        k_ = tuple(tuple(x.id for x in l) for l in ids)
        if k_ in heads:
            return heads[k_]
        heads[k_] = True
        ok = True
        flows = [[a.incoming(x) for x in l] for l in ids]
        if len({len(x) for l in flows for x in l}) != 1:
            heads[k_] = False
            return False
        U = Unround(c['keep'])
        for q in range(len(flows[0][0])):
            sts, vals, entry = flows[0][0][q][0], [[x[q][1] for x in l] for l in flows], flows[0][0][q][2]
            if any(v is None for l in vals for v in l):
                ok = False
                continue
            if entry:
                if cur['first']:
                    o.ob('a first step starts from the state itself', all(close(U(x), y, tol) for l in vals for x, y in zip(l, u0)), key + '/start',
                         'the first sweep of a first step is evaluated at %s' % show(vals[0][0], 2)[:80], where)
                continue
            st_ = Step(c, o, (A, b), key, where)
            good = False
            for hh in hvals(cur['h'], sts.pc, cur['others']):
                R = []
                for l in vals:
                    d = [TM.sub(U(x), u0[j]) for j, x in enumerate(l)]
                    R.append(st_.increments(d, hh))
                if any(r is None for r in R):
                    continue
                p = find(R, A, s, tol)
                if p is not None and all(tuple(vkey(x) for x in TM.atoms[f].args[:n]) == tuple(x.pol.id if False else vkey(x.pol) for x in ids[j]) for j, f in enumerate(p)):
                    good = True
            o.ob('every sweep replaces all stages by the Gauss combination', good, key + '/sweep', 'a stage is carried over by something else than u + h sum a_ij F(Y_j)', where)
            ok = ok and good
        heads[k_] = ok
        return ok

    cur = {}
    u0 = a.y0
    zero = [0] * n
    h1 = 0.25 if c.get('second') or c['itermax'] is None else sym('h')
    cur.update(h=h1, others=[1], first=True)
    ne = len(a.events if hasattr(a, 'events') else [])
    a.step(h1)
    collect_starts(a, starts, s, n, u0, o, key, where, ne, first=True)
    states = []
    for st, v in zip(a.rets, a.vals):
        for want, cond, us, e1 in judge(st, v, u0, zero, h1, [1], 1):
            states.append((st, want, cond, us, e1))
    if not any(x[1] for x in states):
        o.skip('no converged step')
    if not any(not x[1] for x in states):
        o.skip('no unconverged step')
    if c.get('second'):
        h2 = h1 if c['second'] == 'same' else 0.125
        for st, want, cond, us, e1 in states:
            t = merge.restrict_state(st, cond)
            # the state is a value of its own from here on, the carried error what the first step made it
            c['keep'] = {x.id for x in map(single, us) if x is not None}
            us = [sym('z%d' % l) for l in range(n)]
            for l, v in enumerate(us):
                t.wr('u').cells[a.w * l] = (a.ld, v)
            t.wr('first').cells[0] = (1, bool(c.get('first', True)))
            a.r.rets = [t]
            ne = len(a.r.I.events)
            cur.update(h=h2, others=[1, h1], first=c.get('first', True), known=models.gget(t, 'rhs'))
            heads.clear()
            del starts[:]
            a.step(h2)
            collect_starts(a, starts, s, n, us, o, key, where, ne, first=c.get('first', True))
            for st2, v in zip(a.rets, a.vals):
                judge(st2, v, us, e1, h2, [1, h1], 2)
    return o


def atoms_of(v):
    """all atoms a term is made of"""
    seen, todo = {}, [v]
    while todo:
        x = todo.pop()
        if type(x) is tuple:
            todo.extend(x)
        elif type(x) is Poly:
            for m, _ in x.terms:
                for a, _ in m:
                    if a not in seen:
                        seen[a] = TM.atoms[a]
                        todo.extend(TM.atoms[a].args)
    return seen.values()


def b_truth(v):
    if isinstance(v, bool):
        return 1 if v else 0
    if isinstance(v, BV):
        return v.n
    if isnum(v):
        return 1 if v else 0
    return TM.b_not(TM.cmp_eq(v, 0, True))


def const_of(z, tol):
    """the constant term of z when all other coefficients are negligible"""
    if isnum(z):
        return float(z)
    k = 0.0
    for m, c in z.terms:
        if m == ():
            k = float(c)
        elif abs(float(c)) > tol:
            return None
    return k


def collect_starts(a, starts, s, n, u0, o, key, where, ne, first):
    """arguments of the first s evaluations of a step: its start values"""
    ev = [e for e in a.r.I.events[ne:] if e['kind'] == 'rhs']
    if len(ev) < s:
        o.skip('fewer evaluations than stages')
        return
    if any(at.op == 'phi' for e in ev[:s] for x in e['y'] if type(x) is Poly for at in [single(x)] if at is not None):
        return
    starts.append(tuple(vkey(tuple(e['y'])) for e in ev[:s]))
    if first:
        U = Unround()
        for i, e in enumerate(ev[:s]):
            o.ob('a first step starts from the state itself', all(close(U(x), y, 1e-12) for x, y in zip(e['y'], u0)), key + '/start',
                 'stage %d of the first sweep of a first step is evaluated at %s' % (i, show(e['y'][0], 2)[:80]), e['loc'])


def configs(tier):
    out = [mkg(n=2, s=2, itermax=k) for k in (1, 2, 3)]
    out += [mkg(n=1, s=s, itermax=2) for s in range(3, 17)]
    out += [mkg(n=2, s=2, itermax=None), mkg(n=1, s=3, itermax=None)]
    for sec in ('same', 'other'):
        for f in (True, False):
            out.append(mkg(n=1, s=2, itermax=2, second=sec, first=f))
    out += [mkg(n=2, s=s, itermax=2, long=True) for s in (2, 3)]
    return out


def run(tier):
    return run_configs('C08', tier, TECH, EXPL, analyse, configs(tier), lambda c: 's=%d n=%d%s sweeps=%s%s' % (
        c['s'], c['n'], ' long double' if c['long'] else '', c['itermax'] or 'unknown', ' then %s step first=%s' % (c['second'], c['first']) if c.get('second') else ''), 200)
