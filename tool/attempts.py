"""What decides whether an attempt is accepted: the error tests among the conditions of a path.

An error test is a comparison of a constant with a weighted norm: a sum of squares of combinations of solver or right-hand
side results over squared scales, or its square root, possibly chosen among several (a recomputed estimate, a lower bound)."""
from steps import *


def leafnorm(v, want):
    """v = c0 + k*N with N = sqrt(Q) or Q, Q = sum c*den^-2*q -> dict(c0, k, Q, root) or None"""
    if isnum(v):
        return dict(c0=float(v), k=None, Q=None, root=False)
    c0 = 0
    rest = []
    for m, c in v.terms:
        if not any(holds(TM.atoms[a].pol, want) or want(TM.atoms[a]) for a, e in m):
            c0 = add(c0, TM._mk({m: c}))
        else:
            rest.append((m, c))
    if not rest:
        return dict(c0=c0, k=None, Q=None, root=False)
    if len(rest) == 1:
        m, c = rest[0]
        sq = [(a, e) for a, e in m if TM.atoms[a].op == 'sqrt']
        if len(sq) == 1 and sq[0][1] == 1:
            oth = tuple(x for x in m if x != sq[0])
            if any(holds(TM.atoms[a].pol, want) for a, e in oth):
                # the contraction estimate of the iteration: positive factors
                pass
            q = quad(TM.atoms[sq[0][0]].args[0], want)
            if q is None:
                return None
            return dict(c0=c0, k=TM._mk({oth: c}), Q=q, root=True)
    q = quad(TM._mk(dict(rest)), want)
    return None if q is None else dict(c0=c0, k=1, Q=q, root=False)


def quad(p, want):
    """{scale argument (as atom id of its reciprocal): [(monomial, coefficient)]}; None if p is not of that form"""
    groups = {}
    if type(p) is not Poly:
        return None
    for m, c in p.terms:
        den = [(a, e) for a, e in m if TM.atoms[a].op == 'den']
        oth = tuple((a, e) for a, e in m if TM.atoms[a].op != 'den')
        # the scale: the squared denominator a tolerance is a summand of
        sc = [x for x in den if x[1] == -2 and isscale(TM.atoms[x[0]].args[0])]
        if len(sc) != 1 or not any(want(TM.atoms[a]) or holds(TM.atoms[a].pol, want) for a, e in oth):
            return None
        oth = tuple(x for x in m if x != sc[0])
        groups.setdefault(sc[0][0], []).append((oth, float(c)))
    return groups


def istol(t):
    return t.op == 'sym' and 'tol' in str(t.args[0])


def isscale(v):
    return type(v) is Poly and any(istol(TM.atoms[a]) for m, c in v.terms for a, e in m)


def normish(v, want, depth=0):
    """is v made of norms only: sums of squares over scales, roots, choices and bounds of such"""
    if isnum(v):
        return True
    if type(v) is not Poly or depth > 8:
        return False
    for m, c in v.terms:
        hold = [(a, e) for a, e in m if want(TM.atoms[a]) or holds(TM.atoms[a].pol, want)]
        if not hold:
            continue
        if any(TM.atoms[a].op == 'den' and e == -2 and isscale(TM.atoms[a].args[0]) for a, e in m):
            continue
        top = [(a, e) for a, e in hold if TM.atoms[a].op in ('sqrt', 'ite', 'max', 'min')]
        if not any(e == 1 and all(normish(x, want, depth + 1) for x in TM.atoms[a].args[(1 if TM.atoms[a].op == 'ite' else 0):] if isinstance(x, (Poly,)) or isnum(x))
                   and holds(TM.atoms[a].pol, istol) for a, e in top):
            return False
    return True


def err_tests(pc, want):
    """[dict(kind literal, p, pos)] the decided comparisons of norms in pc"""
    out = []
    for x, kind, p, pos in norm_literals(pc, want):
        if normish(p, want):
            out.append(dict(x=x, kind=kind, p=p, pos=pos))
    return out


def test_cases(t, pc, want, limit=64):
    """the test resolved into its cases: [(pc, leaf)], leaf['passed'] telling whether the norm was found small enough"""
    out = []
    for q, (p,) in opencases(pc, [t['p']], want, limit):
        p = TM.simp(p, q)
        f = leafnorm(p, want)
        if f is not None:
            # the norm must enter with a positive sign for 'less' to mean small
            sg = 1
            if f['k'] is not None and not isnum(f['k']):
                cs = [float(c) for m, c in f['k'].terms]
                sg = 1 if cs[0] > 0 else -1
            elif f['k'] is not None:
                sg = 1 if f['k'] > 0 else -1
            elif f['Q'] is not None:
                sg = 1 if next(iter(f['Q'].values()))[0][1] > 0 else -1
            f['passed'] = (t['pos'] == (t['kind'] == 'L')) == (sg > 0)
            f['sign'] = sg
        out.append((q, f))
    return out


class Hist:
    """an integrator analysed for all histories: its transitions and the tests that decide them"""

    def __init__(self, c):
        self.c = c
        self.n = c['n']
        if 'deg' in c:
            from explicit import Rock4Run
            self.which = 'rock4'
            self.want = isF
            self.a = Rock4Run(c).run()
            self.tr = Transitions(self.a, want=isF, timed=False)
        else:
            from implicit import scenario
            self.which = c['which']
            self.want = issolve
            n = self.n

            def view(st):
                o = st.mem.get('y')
                return dict(x=st.mem['x'].cells[0][1] if 'x' in st.mem else None, y=[o.cells[8 * i][1] for i in range(n)] if o is not None else None,
                            t=[st.mem['ghostt'].cells[8 * i][1] for i in range(3)], pc=st.pc)
            self.a = scenario(c, cfg=dict(rhstimes=True, viewfn=view))
            self.tr = Transitions(self.a, held=self.which == 'radau')
        self.tests = {}
        for d in self.tr.out:
            d['tests'] = self.tests_of(d['pc'])
            sol = set()
            if d['kind'] == 'step':
                for w in d['y1']:
                    sol |= {a for m, c2 in w.terms for a, e in m if self.want(TM.atoms[a])}
            d['direct'] = sol

    def tests_of(self, pc):
        """[(test, [(pc, leaf)], kind)]: kind 'newton' when the threshold holds a Newton criterion or complex solves are measured"""
        out = []
        for t in err_tests(pc, self.want):
            cs = test_cases(t, pc, self.want)
            kind = 'err'
            for q, f in cs:
                if f is not None and f['Q'] is not None and any(TM.atoms[a].op in ('elr', 'eli') for d, ts in f['Q'].items() for m, c in ts for a, e in m):
                    kind = 'newton'
            out.append((t, cs, kind))
        return out

    def verdict(self, tests, kind):
        """True/False/None: the tests of that kind were all passed / one failed / there is none or it is not readable"""
        v = None
        for t, cs, k in tests:
            if k != kind:
                continue
            for q, f in cs:
                if f is None:
                    return None
                if f['passed'] is False and f['Q'] is not None:
                    return False
                v = True if v is None else v
        return v

    def discards(self):
        """states at back edges of loops that start another attempt: [(state, head location, tests decided inside the loop)]"""
        out = []
        known = {id(d['state']) for d in self.tr.out}
        for cid, h in self.a.r.I.heads.items():
            sup = set()
            for s in h['entries']:
                sup |= {t['x'] for t in err_tests(s.pc, self.want)}
            for _, s in h['H']:
                sup |= {t['x'] for t in err_tests(s.pc, self.want)}
            for s in h['backs']:
                ts = [t for t in self.tests_of(s.pc) if t[0]['x'] not in sup]
                if ts:
                    out.append((s, h['loc'], ts, id(s) in known))
        return out
