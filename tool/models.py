"""What the analyser knows about code it does not see: the user's functions,
the linear algebra library, allocation, mathematics.  Everything here is an
uninterpreted function unless its meaning is fixed by its documentation."""
import re
from terms import *
import terms as TM
from ir import ToolError

GHOST = {'rhs': 0, 'jac': 8, 'fact': 16, 'factc': 24, 'solve': 32, 'solvec': 40, 'init': 48, 'apply': 56, 'hes': 64,
         'dft': 72, 'probe': 80}
WORKSIZE = 37


def ghost_init(I, st):
    p = I.newobj(st, 'ghost', 'ghost', 512, 8, 'static', 'ghost')
    I.newobj(st, 'ghostjac', 'ghost', 64 * 64 * 8, 8, 'static', 'ghostjac')
    o = st.wr('ghost')
    for off in GHOST.values():
        o.cells[off] = (8, 0)


def gget(st, k):
    o = st.mem.get('ghost')
    if o is None:
        return 0
    return o.cells[GHOST[k]][1]


def gput(st, k, v):
    if 'ghost' in st.mem:
        st.wr('ghost').cells[GHOST[k]] = (8, v)


def snap(I, st):
    """what the check wants to know about the state at a call"""
    f = I.cfg.get('viewfn')
    return f(st) if f else None


def count(st, k):
    if 'ghost' in st.mem:
        v = gget(st, k)
        gput(st, k, add(v, 1))
        return v


def ret(v, st):
    return [(v, st)], []


def c_int(I, st, p, ins, what):
    v = I.load(st, p, 4, ins)
    if type(v) is not int:
        v = simp(v, st.pc) if isinstance(v, (Poly, BV)) else v
    if type(v) is not int:
        I.ev('la-argument', ins, what=what, value=v)
    return v


def vec(I, st, p, n, size, ins, what):
    """n values at p; reports indeterminate ones"""
    out = []
    for i in range(n):
        v = I.load(st, padd(p, i * size), size, ins)
        v = num(v) if not isinstance(v, (Ptr, PIte, Fn, Agg)) else v
        if undef_under(v, st.pc):
            I.ev('undef-arg', ins, what=what, index=i, names=I.undef_names(simp(v, st.pc)))
        out.append(v)
    return out


def padd(p, off):
    from interp import padd as q
    return q(p, off)


def rng(st, I, p, nbytes, ins):
    return [(x.obj, x.off, nbytes) for c, x in I.resolve(st, p, ins, 'range') if TM.feasible(b_and(st.pc, c)) and x.obj is not None]


def overlap(a, b):
    return a[0] == b[0] and type(a[1]) is int and type(b[1]) is int and a[1] < b[1] + b[2] and b[1] < a[1] + a[2]


def check_alias(I, st, outp, outn, ins_list, ins, what):
    for o in rng(st, I, outp, outn, ins):
        for p, n in ins_list:
            for x in rng(st, I, p, n, ins):
                if overlap(o, x):
                    I.ev('alias-arg', ins, what=what, obj=o[0])
                    return


def scalar(I, st, v, ins, what):
    v = num(v)
    if undef_under(v, st.pc):
        I.ev('undef-arg', ins, what=what, index='scalar', names=I.undef_names(simp(v, st.pc)))
    return v


# ----------------------------------------------------------- user functions
def m_rhs(I, st, a, ins):
    n, t, y, r = a
    t = scalar(I, st, t, ins, 'time passed to the right-hand side')
    ys = vec(I, st, y, n, 8, ins, 'state passed to the right-hand side')
    check_alias(I, st, r, 8 * n, [(y, 8 * n)], ins, 'right-hand side')
    count(st, 'rhs')
    F = atom('F', (t,) + tuple(ys)).pol
    I.ev('rhs', ins, t=t, y=tuple(ys), pc=st.pc, F=F, snap=snap(I, st))
    if 'ghostt' in st.mem:
        c = st.mem['ghostt'].cells
        st.wr('ghostt').cells.update({0: (8, t), 8: c[0], 16: c[8]})
    for i in range(n):
        I.store(st, padd(r, 8 * i), app('el', F, i), 8, ins)
    return ret(None, st)


def m_rhs0(I, st, a, ins, size=8):
    n, y, r = a
    if type(n) is not int:
        I.ev('symbolic-size', ins)
        return ret(None, st)
    ys = vec(I, st, y, n, size, ins, 'state passed to the right-hand side')
    check_alias(I, st, r, size * n, [(y, size * n)], ins, 'right-hand side')
    k = count(st, 'rhs')
    F = atom('F', tuple(ys) + ((k,) if I.cfg.get('rhstag') and isnum(k) else ())).pol
    I.ev('rhs', ins, t=None, y=tuple(ys), pc=st.pc, F=F)
    for i in range(n):
        if I.cfg.get('rhsmodel'):
            v = I.cfg['rhsmodel'](ys, i)
        else:
            v = app('el', F, i)
        I.store(st, padd(r, size * i), v, size, ins)
    return ret(None, st)


def m_rhsl(I, st, a, ins):
    return m_rhs0(I, st, a, ins, 16)


def m_jac_call(I, st, a, ins):
    n, t, y, fy = a
    t = scalar(I, st, t, ins, 'time passed to the Jacobian')
    ys = vec(I, st, y, n, 8, ins, 'state passed to the Jacobian')
    fs = vec(I, st, fy, n, 8, ins, 'right-hand side value passed to the Jacobian')
    count(st, 'jac')
    I.ev('jac', ins, t=t, y=tuple(ys), fy=tuple(fs), pc=st.pc, snap=snap(I, st))
    return ret(None, st)


def m_jac(I, st, a, ins):
    i, j, n, t, y, fy = a
    ys = [num(I.load(st, padd(y, 8 * k), 8, ins)) for k in range(n)]
    v = app('el', atom('J', (num(t),) + tuple(ys)).pol, i, j)
    if type(i) is int and type(j) is int and 'ghostjac' in st.mem:
        st.wr('ghostjac').cells[8 * ((i - 1) * 64 + j - 1)] = (8, v)
    return ret(v, st)


def last_jac(st, n):
    """entries of the Jacobian evaluated last (None where it was not)"""
    c = st.mem['ghostjac'].cells
    return [[c[8 * (i * 64 + j)][1] if 8 * (i * 64 + j) in c else None for j in range(n)] for i in range(n)]


def m_dft(I, st, a, ins):
    n, t, y, d = a
    t = scalar(I, st, t, ins, 'time passed to the time derivative')
    ys = vec(I, st, y, n, 8, ins, 'state passed to the time derivative')
    check_alias(I, st, d, 8 * n, [(y, 8 * n)], ins, 'time derivative')
    count(st, 'dft')
    I.ev('dft', ins, t=t, y=tuple(ys), pc=st.pc)
    D = atom('FT', (t,) + tuple(ys)).pol
    for i in range(n):
        I.store(st, padd(d, 8 * i), app('el', D, i), 8, ins)
    return ret(None, st)


def m_rho(I, st, a, ins):
    v = I.cfg.get('rho')
    if v is None:
        v = sym('+rho')
    return ret(v, st)


def m_linop(I, st, a, ins):
    kind, n, x, s, ca, cb, cc, g, out = a
    what = 'linear right-hand side'
    xs = vec(I, st, x, n, 8, ins, what)
    ss = vec(I, st, s, n, 8, ins, what) if isinstance(s, PIte) or s.obj is not None else [0] * n
    gs = vec(I, st, g, n, 8, ins, what) if kind in (2, 4) else [0] * n
    lst = [(x, 8 * n), (s, 8 * n)] + ([(g, 8 * n)] if kind in (2, 4) else [])
    check_alias(I, st, out, 8 * n, lst, ins, what)
    for v in (ca, cb, cc):
        scalar(I, st, v, ins, what)
    count(st, 'apply')
    I.ev('linop', ins, akind=kind, a=num(ca), b=num(cb), c=num(cc), x=tuple(xs), s=tuple(ss), g=tuple(gs), pc=st.pc)
    AX = atom('AX', tuple(xs)).pol
    for i in range(n):
        # out = a (A in + g) + ..., as the interface is documented and as the shipped problems implement it
        v = mul(num(ca), add(app('el', AX, i), gs[i]))
        if kind in (1, 2):
            v = add(v, mul(num(cb), ss[i]))
        else:
            v = add(v, add(mul(num(cb), xs[i]), mul(num(cc), ss[i])))
        I.store(st, padd(out, 8 * i), v, 8, ins)
    return ret(None, st)


def m_op_init(I, st, a, ins):
    self, n, d = a
    d = scalar(I, st, d, ins, 'operator initialisation')
    count(st, 'init')
    I.ev('op-init', ins, n=n, d=d, op=self, pc=st.pc)
    o = st.mem.get('opstate')
    if o is None:
        I.newobj(st, 'opstate', 'ghost', 64, 8, 'static', 'opstate')
    st.wr('opstate').cells[0] = (8, d)
    return ret(None, st)


def m_op_apply(I, st, a, ins):
    self, n, x, out = a
    xs = vec(I, st, x, n, 8, ins, 'operator application')
    check_alias(I, st, out, 8 * n, [(x, 8 * n)], ins, 'operator application')
    d = st.mem['opstate'].cells[0][1] if 'opstate' in st.mem else None
    count(st, 'apply')
    I.ev('op-apply', ins, n=n, d=d, x=tuple(xs), op=self, pc=st.pc)
    S = atom('OP', (num(d) if d is not None else I.undef('operator not prepared'),) + tuple(xs)).pol
    for i in range(n):
        I.store(st, padd(out, 8 * i), app('el', S, i), 8, ins)
    return ret(None, st)


def m_probe(I, st, a, ins):
    I.ev('probe', ins, tag=a[0], v=a[1], pc=st.pc)
    return ret(None, st)


# ------------------------------------------------------------------- LAPACK
def la(I, ins, msg, **kw):
    I.ev('lapack', ins, msg=msg, **kw)


def full_size(I, st, p):
    return None


def geti(I, st, ps, ins, names):
    vs = [c_int(I, st, p, ins, nm) for p, nm in zip(ps, names)]
    return vs, all(type(v) is int for v in vs)


def cplx(I, st, p, i, ins, z, what):
    if not z:
        return vec(I, st, padd(p, 8 * i), 1, 8, ins, what)[0]
    r = vec(I, st, padd(p, 16 * i), 2, 8, ins, what)
    return tuple(r)


def m_getrf(z):
    def g(I, st, a, ins):
        (n, m, lda), ok = geti(I, st, (a[1], a[0], a[3]), ins, ('n', 'm', 'lda'))
        if not ok or n != m or lda < max(1, n):
            la(I, ins, 'factorisation called with n=%s m=%s lda=%s' % (n, m, lda))
            return havoc_info(I, st, a[5], ins)
        M = tuple(tuple(cplx(I, st, a[2], c * lda + r, ins, z, 'matrix to factorise') for c in range(n)) for r in range(n))
        tok = atom('LU', ('ge', 'z' if z else 'd', n, 0, 0, flat(M))).pol
        count(st, 'factc' if z else 'fact')
        I.ev('factor', ins, z=z, fkind='ge', M=M, tok=tok, pc=st.pc)
        for r in range(n):
            for c in range(n):
                put_lu(I, st, a[2], c * lda + r, tok, r, c, ins, z)
            I.store(st, padd(a[4], 4 * r), app('piv', tok, r), 4, ins)
        I.store(st, a[5], app('info', tok), 4, ins)
        if I.cfg.get('lafail'):
            return outcomes(st, None, app('info', tok), lambda q: [put_lu(I, q, a[2], c * lda + r, app('failed', tok), r, c, ins, z) for r in range(n) for c in range(n)])
        return ret(None, st)
    return g


def outcomes(st, v, info, spoil):
    """the call succeeded, or it failed and left nothing of use behind"""
    z = TM.cmp_eq(info, 0, True)
    out = []
    for c, bad in ((z, False), (TM.b_not(z), True)):
        q = st.fork()
        q.pc = TM.b_and(st.pc, c)
        if not TM.feasible(q.pc):
            continue
        if bad:
            spoil(q)
            if 'lamark' in q.mem:
                q.wr('lamark').cells[0] = (1, True)
        out.append((v, q))
    return out, []


def flat(M):
    out = []
    for r in M:
        for x in r:
            if isinstance(x, tuple):
                out.extend(x)
            else:
                out.append(x)
    return tuple(out)


def put_lu(I, st, p, i, tok, r, c, ins, z):
    if z:
        I.store(st, padd(p, 16 * i), app('lur', tok, r, c), 8, ins)
        I.store(st, padd(p, 16 * i + 8), app('lui', tok, r, c), 8, ins)
    else:
        I.store(st, padd(p, 8 * i), app('lu', tok, r, c), 8, ins)


def m_gbtrf(z):
    def g(I, st, a, ins):
        (m, n, kl, ku, ld), ok = geti(I, st, (a[0], a[1], a[2], a[3], a[5]), ins, ('m', 'n', 'kl', 'ku', 'ldab'))
        if not ok or n != m or kl < 0 or ku < 0 or ld < 2 * kl + ku + 1:
            la(I, ins, 'band factorisation called with n=%s m=%s kl=%s ku=%s ldab=%s' % (n, m, kl, ku, ld))
            return havoc_info(I, st, a[7], ins)
        zero = (0, 0) if z else 0
        M = [[zero] * n for _ in range(n)]
        for j in range(n):
            for i in range(max(0, j - ku), min(n - 1, j + kl) + 1):
                M[i][j] = cplx(I, st, a[4], kl + ku + i - j + j * ld, ins, z, 'band matrix to factorise')
        # the whole array, fill-in rows included, must exist
        I.load(st, padd(a[4], ((n - 1) * ld + 2 * kl + ku) * (16 if z else 8)), 8, ins)
        tok = atom('LU', ('gb', 'z' if z else 'd', n, kl, ku, flat(M))).pol
        count(st, 'factc' if z else 'fact')
        I.ev('factor', ins, z=z, fkind='gb', M=tuple(tuple(r) for r in M), tok=tok, pc=st.pc)
        for j in range(n):
            for r in range(2 * kl + ku + 1):
                put_lu(I, st, a[4], r + j * ld, tok, r, j, ins, z)
            I.store(st, padd(a[6], 4 * j), app('piv', tok, j), 4, ins)
        I.store(st, a[7], app('info', tok), 4, ins)
        if I.cfg.get('lafail'):
            return outcomes(st, None, app('info', tok), lambda q: [put_lu(I, q, a[4], r + j * ld, app('failed', tok), r, j, ins, z) for j in range(n) for r in range(2 * kl + ku + 1)])
        return ret(None, st)
    return g


def havoc_info(I, st, p, ins):
    I.store(st, p, I.fresh('info'), 4, ins)
    return ret(None, st)


def tok_of(v):
    p = single(v) if isinstance(v, Poly) else None
    if p is not None and p.op in ('lu', 'lur'):
        return p.args[0]
    return None


def solve(I, st, ins, z, A, B, n, nrhs, ldb, trans, cells, pivp, infop, kind, kl, ku):
    """cells: list of (index, r, c) where the factors must lie"""
    tr = I.load(st, trans, 1, ins)
    sz = 16 if z else 8
    bad = None
    if nrhs != 1 or ldb < max(1, n):
        bad = 'solve with nrhs=%s ldb=%s for n=%s' % (nrhs, ldb, n)
    tok = None
    first = I.load(st, padd(A, cells[0][0] * sz), 8, ins)
    tok = tok_of(first) or tok_of(simp(first, st.pc) if isinstance(first, Poly) else first)
    if tok is None:
        bad = bad or 'solve with a matrix that does not hold factors: %s' % show(first, 2)
    else:
        ta = single(tok)
        for i, r, c in cells:
            v = I.load(st, padd(A, i * sz), 8, ins)
            w = app('lur' if z else 'lu', tok, r, c)
            ok = same(v, w, st.pc)
            if z:
                ok = ok and same(I.load(st, padd(A, i * sz + 8), 8, ins), app('lui', tok, r, c), st.pc)
            if not ok:
                bad = bad or 'solve with factors that are not those of one factorisation (row %d, column %d)' % (r, c)
                break
        for r in range(n):
            if not same(I.load(st, padd(pivp, 4 * r), 4, ins), app('piv', tok, r), st.pc):
                bad = bad or 'solve with pivots of another factorisation'
                break
        if ta is None or ta.op != 'LU':
            bad = bad or 'solve with joined factors'
        elif (ta.args[0], ta.args[1], ta.args[2]) != (kind, 'z' if z else 'd', n) or (kind == 'gb' and (ta.args[3], ta.args[4]) != (kl, ku)):
            bad = bad or 'solve of kind %s n=%s kl=%s ku=%s with factors of %s' % (kind, n, kl, ku, ta.args[:5])
    if type(tr) is not int or chr(tr & 255) not in 'Nn':
        bad = bad or 'solve of the transposed system (trans=%s)' % (tr,)
    rhs = []
    for i in range(n):
        rhs.append(cplx(I, st, B, i, ins, z, 'right-hand side of a linear solve'))
    if bad:
        la(I, ins, bad)
        S = atom('badsolve', (flat([rhs]),)).pol
    else:
        S = atom('solve', (tok,) + flat([rhs])).pol
    count(st, 'solvec' if z else 'solve')
    I.ev('solve', ins, z=z, tok=tok, rhs=tuple(rhs), S=S, pc=st.pc, snap=snap(I, st))
    for i in range(n):
        if z:
            I.store(st, padd(B, 16 * i), app('elr', S, i), 8, ins)
            I.store(st, padd(B, 16 * i + 8), app('eli', S, i), 8, ins)
        else:
            I.store(st, padd(B, 8 * i), app('el', S, i), 8, ins)
    # the result of a solve with valid arguments; LAPACK reports info<0 only for invalid ones
    I.store(st, infop, app('sinfo', S), 4, ins)
    if I.cfg.get('lafail'):
        def spoil(q):
            for i in range(n):
                for k in range(2 if z else 1):
                    I.store(q, padd(B, (16 if z else 8) * i + 8 * k), app('el', app('failed', S), i, k), 8, ins)
        return outcomes(st, None, app('sinfo', S), spoil)
    return ret(None, st)


def same(a, b, pc):
    if vkey(a) == vkey(b):
        return True
    a = simp(a, pc) if isinstance(a, Poly) else a
    return vkey(a) == vkey(b)


def m_getrs(z):
    def g(I, st, a, ins):
        (n, nrhs, lda, ldb), ok = geti(I, st, (a[1], a[2], a[4], a[7]), ins, ('n', 'nrhs', 'lda', 'ldb'))
        if not ok or lda < n:
            la(I, ins, 'solve called with n=%s nrhs=%s lda=%s ldb=%s' % (n, nrhs, lda, ldb))
            return havoc_info(I, st, a[8], ins)
        cells = [(c * lda + r, r, c) for c in range(n) for r in range(n)]
        return solve(I, st, ins, z, a[3], a[6], n, nrhs, ldb, a[0], cells, a[5], a[8], 'ge', 0, 0)
    return g


def m_gbtrs(z):
    def g(I, st, a, ins):
        (n, kl, ku, nrhs, ld, ldb), ok = geti(I, st, (a[1], a[2], a[3], a[4], a[6], a[9]), ins, ('n', 'kl', 'ku', 'nrhs', 'ldab', 'ldb'))
        if not ok or kl < 0 or ku < 0 or ld < 2 * kl + ku + 1:
            la(I, ins, 'band solve called with n=%s kl=%s ku=%s nrhs=%s ldab=%s ldb=%s' % (n, kl, ku, nrhs, ld, ldb))
            return havoc_info(I, st, a[10], ins)
        cells = [(r + c * ld, r, c) for c in range(n) for r in range(2 * kl + ku + 1)]
        return solve(I, st, ins, z, a[5], a[8], n, nrhs, ldb, a[0], cells, a[7], a[10], 'gb', kl, ku)
    return g


def m_gehrd(I, st, a, ins):
    (n, ilo, ihi, lda, lw), ok = geti(I, st, (a[0], a[1], a[2], a[4], a[7]), ins, ('n', 'ilo', 'ihi', 'lda', 'lwork'))
    if not ok or ilo != 1 or ihi != n or lda < max(1, n):
        la(I, ins, 'reduction called with n=%s ilo=%s ihi=%s lda=%s lwork=%s' % (n, ilo, ihi, lda, lw))
        return havoc_info(I, st, a[8], ins)
    if lw == -1:
        I.store(st, a[6], float(WORKSIZE), 8, ins)
        I.store(st, a[8], 0, 4, ins)
        return ret(None, st)
    if lw < max(1, n):
        la(I, ins, 'reduction called with too small a work array (%s)' % lw)
    I.load(st, padd(a[6], 8 * (max(lw, 1) - 1)), 8, ins)
    M = tuple(tuple(cplx(I, st, a[3], c * lda + r, ins, False, 'matrix to reduce') for c in range(n)) for r in range(n))
    tok = atom('HES', (n, flat(M))).pol
    count(st, 'hes')
    I.ev('reduce', ins, M=M, tok=tok, pc=st.pc)
    for r in range(n):
        for c in range(n):
            I.store(st, padd(a[3], 8 * (c * lda + r)), app('hq', tok, r, c), 8, ins)
    for r in range(n - 1):
        I.store(st, padd(a[5], 8 * r), app('tau', tok, r), 8, ins)
    # contents of the work array on return are of no use
    I.store(st, a[8], app('info', tok), 4, ins)
    if I.cfg.get('lafail'):
        return outcomes(st, None, app('info', tok), lambda q: [I.store(q, padd(a[3], 8 * (c * lda + r)), app('hq', app('failed', tok), r, c), 8, ins) for r in range(n) for c in range(n)])
    return ret(None, st)


# --------------------------------- Hessenberg routines under their contract
def hes_cells(n):
    return [(c * n + r, r, c) for c in range(n) for r in range(min(n, c + 2))]


def m_dech(z):
    def g(I, st, a, ins):
        n, ip = a[0], a[3 if z else 2]
        M = [[(0, 0) if z else 0] * n for _ in range(n)]
        for i, r, c in hes_cells(n):
            x = tuple(vec(I, st, padd(p, 8 * i), 1, 8, ins, 'matrix to factorise')[0] for p in (a[1:3] if z else a[1:2]))
            M[r][c] = x if z else x[0]
        tok = atom('LU', ('hes', 'z' if z else 'd', n, 1, n - 1, flat(M))).pol
        count(st, 'factc' if z else 'fact')
        I.ev('factor', ins, z=z, fkind='hes', M=tuple(tuple(r) for r in M), tok=tok, pc=st.pc)
        for i, r, c in hes_cells(n):
            for p, o in zip(a[1:3] if z else a[1:2], ('lur', 'lui') if z else ('lu',)):
                I.store(st, padd(p, 8 * i), app(o, tok, r, c), 8, ins)
        for r in range(n):
            I.store(st, padd(ip, 4 * r), app('piv', tok, r), 4, ins)
        if I.cfg.get('lafail'):
            return outcomes(st, app('info', tok), app('info', tok), lambda q: [I.store(q, padd(p, 8 * i), app(o, app('failed', tok), r, c), 8, ins)
                                                                             for i, r, c in hes_cells(n) for p, o in zip(a[1:3] if z else a[1:2], ('lur', 'lui') if z else ('lu',))])
        return ret(app('info', tok), st)
    return g


def m_solh(z):
    def g(I, st, a, ins):
        n, A, ip, B = a[0], a[1:3] if z else a[1:2], a[3 if z else 2], a[4:6] if z else a[3:4]
        ops = ('lur', 'lui') if z else ('lu',)
        tok, bad = None, None
        first = I.load(st, A[0], 8, ins)
        tok = tok_of(first) or tok_of(simp(first, st.pc) if isinstance(first, Poly) else first)
        if tok is None:
            bad = 'solve with a matrix that does not hold factors: %s' % show(first, 2)
        elif single(tok) is not None and single(tok).op == 'failed':
            bad = 'solve with the factors of a failed factorisation'
        else:
            for i, r, c in hes_cells(n):
                if any(not same(I.load(st, padd(p, 8 * i), 8, ins), app(o, tok, r, c), st.pc) for p, o in zip(A, ops)):
                    bad = bad or 'solve with factors that are not those of one factorisation (row %d, column %d)' % (r, c)
            for r in range(n - 1):
                if not same(I.load(st, padd(ip, 4 * r), 4, ins), app('piv', tok, r), st.pc):
                    bad = bad or 'solve with pivots of another factorisation'
            ta = single(tok)
            if ta is None or ta.op != 'LU' or ta.args[:3] != ('hes', 'z' if z else 'd', n):
                bad = bad or 'solve with factors of something else'
        rhs = []
        for i in range(n):
            x = tuple(vec(I, st, padd(p, 8 * i), 1, 8, ins, 'right-hand side of a linear solve')[0] for p in B)
            rhs.append(x if z else x[0])
        if bad:
            la(I, ins, bad)
            S = atom('badsolve', (flat([rhs]),)).pol
        else:
            S = atom('solve', (tok,) + flat([rhs])).pol
        count(st, 'solvec' if z else 'solve')
        I.ev('solve', ins, z=z, tok=tok, rhs=tuple(rhs), S=S, pc=st.pc, hes=True, snap=snap(I, st))
        for i in range(n):
            for p, o in zip(B, ('elr', 'eli') if z else ('el',)):
                I.store(st, padd(p, 8 * i), app(o, S, i), 8, ins)
        return ret(None, st)
    return g


def unhes(n, xs, tok):
    """Q applied to the solution of (c I - H) u = Q^T b  ->  the solution of (c I - J) v = b, or None"""
    ops, S = None, None
    for i, x in enumerate(xs):
        a = single(x) if isinstance(x, Poly) else None
        if a is None or a.op not in ('el', 'elr', 'eli') or a.args[1] != i or (S is not None and (a.args[0].id != S.id or a.op != ops)):
            return None
        S, ops = a.args[0], a.op
    sa = single(S)
    if sa is None or sa.op != 'solve':
        return None
    lu = single(sa.args[0])
    if lu is None or lu.op != 'LU' or lu.args[0] != 'hes':
        return None
    z = lu.args[1] == 'z'
    w = 2 if z else 1
    fl = lu.args[5]
    J = single(tok).args[1]
    c = [None, None]
    for r in range(n):
        for k in range(n):
            for p in range(w):
                x = fl[(r * n + k) * w + p]
                hq = app('hq', tok, r, k) if p == 0 and r <= k + 1 else 0
                d = add(x, hq)
                if r == k:
                    if c[p] is None:
                        c[p] = d
                    elif vkey(d) != vkey(c[p]):
                        return None
                elif vkey(d) != vkey(0):
                    return None
    rhs = sa.args[1:]
    b = [None] * (n * w)
    for p in range(w):
        T = None
        for i in range(n):
            a = single(rhs[i * w + p]) if isinstance(rhs[i * w + p], Poly) else None
            if a is None or a.op != 'el' or a.args[1] != i:
                return None
            h = single(a.args[0])
            if h is None or h.op != 'hh' or h.args[0].id != tok.id or h.args[1] != 1 or (T is not None and T is not h):
                return None
            T = h
        for i in range(n):
            b[i * w + p] = T.args[2][i]
    M = []
    for r in range(n):
        for k in range(n):
            x = neg(J[r * n + k])
            M.append(add(x, c[0]) if r == k else x)
            if z:
                M.append(c[1] if r == k else 0)
    S2 = atom('solve', (atom('LU', ('ge', 'z' if z else 'd', n, 0, 0, tuple(M))).pol,) + tuple(b)).pol
    return [app(ops, S2, i) for i in range(n)]


def m_householder(I, st, a, ins):
    n, A, tau, X, Y, direct = a
    xs = vec(I, st, X, n, 8, ins, 'vector to transform')
    direct = num(direct)
    if not isnum(direct):
        raise ToolError('direction of an orthogonal transformation')
    if n <= 2:
        out = xs
    else:
        t0 = I.load(st, tau, 8, ins)
        p = single(t0) if isinstance(t0, Poly) else None
        if p is not None and p.op == 'ite':
            p = single(simp(t0, st.pc))
        if p is None or p.op != 'tau':
            la(I, ins, 'orthogonal transformation without the data of a reduction: %s' % show(t0, 2))
            out = [app('fresh', 'hh', ins[1] if ins else 0, i) for i in range(n)]
        else:
            tok = p.args[0]
            ok = all(same(I.load(st, padd(tau, 8 * r), 8, ins), app('tau', tok, r), st.pc) for r in range(n - 2))
            for c in range(n - 2):
                for r in range(c + 2, n):
                    ok = ok and same(I.load(st, padd(A, 8 * (c * n + r)), 8, ins), app('hq', tok, r, c), st.pc)
            if not ok:
                la(I, ins, 'orthogonal transformation with the data of different reductions')
            out = None
            if direct & 1 == 0 and single(tok) is not None and single(tok).op == 'HES':
                out = unhes(n, xs, tok)
            if out is None:
                h = atom('hh', (tok, direct & 1, tuple(xs))).pol
                out = [app('el', h, i) for i in range(n)]
    for i in range(n):
        I.store(st, padd(Y, 8 * i), out[i], 8, ins)
    return ret(None, st)


# ------------------------------------------------------------- memory, maths
def alloc(I, st, size, kind, align, ins):
    oid = ('heap', I.ctxid(), ins[1] if ins else 0)
    k = 0
    while oid in st.mem and k < 1000:
        k += 1
        oid = ('heap', I.ctxid(), ins[1] if ins else 0, k)
    if type(size) is not int:
        size = simp(size, st.pc) if isinstance(size, Poly) else size
    if type(size) is int and size < 0:
        I.ev('negative-allocation', ins, size=size)
    p = I.newobj(st, oid, 'heap', size, align, kind, '%s at %s' % (kind, I.m.loc(ins[3]) if ins else '?'), site=I.m.loc(ins[3]) if ins else '?')
    I.allocs.append((oid, kind, size))
    return p


def m_new(kind):
    def g(I, st, a, ins):
        return ret(alloc(I, st, a[0], kind, 16, ins), st)
    return g


def m_free(kind):
    def g(I, st, a, ins):
        p = a[0]
        alts = I.resolve(st, p, ins, 'free')
        if not alts:
            if type(p) is int and p == 0:
                return ret(None, st)
            if isinstance(p, Poly) and p.undef:
                I.ev('free-undef', ins)
            else:
                I.ev('free-unknown', ins, ptr=p)
            return ret(None, st)
        for c, x in alts:
            if not TM.feasible(b_and(st.pc, c)):
                continue
            if x.obj is None:
                continue
            o = st.mem.get(x.obj)
            if o is None:
                I.ev('free-dead', ins, obj=x.obj)
                continue
            if o.kind != 'heap':
                I.ev('free-nonheap', ins, obj=x.obj)
                continue
            if o.freed:
                I.ev('double-free', ins, obj=x.obj, name=o.name)
                continue
            if x.off != 0:
                I.ev('free-inside', ins, obj=x.obj)
            if o.alloc != kind:
                I.ev('free-mismatch', ins, obj=x.obj, alloc=o.alloc, free=kind, name=o.name)
            I.ev('free', ins, obj=x.obj)
            o = st.wr(x.obj)
            o.freed = True
            o.cells = {}
        return ret(None, st)
    return g


def m_memalign(I, st, a, ins):
    # int posix_memalign(void**, size_t align, size_t size); failure not modelled
    al = a[1] if type(a[1]) is int else 8
    p = alloc(I, st, a[2], 'malloc', al, ins)
    I.store(st, a[0], p, 8, ins)
    return ret(0, st)


def m_throw(I, st, a, ins):
    I.ev('throw', ins, pc=st.pc)
    return [], [st]


def m1(fn):
    return lambda I, st, a, ins: ret(fn(num(a[0])), st)


def m2(fn):
    return lambda I, st, a, ins: ret(fn(num(a[0]), num(a[1])), st)


def opq(name):
    def g(I, st, a, ins):
        return ret(app(name, *[num(x) for x in a]), st)
    return g


def fmuladd(I, st, a, ins):
    a = [num(x) for x in a]
    if I.strict:
        from interp import strict_op
        m = strict_op('fmul', a[0], a[1]) if not (isnum(a[0]) and isnum(a[1])) else a[0] * a[1]
        return ret(strict_op('fadd', m, a[2]) if not (isnum(m) and isnum(a[2])) else m + a[2], st)
    return ret(add(mul(a[0], a[1]), a[2]), st)


def m_max(op):
    return lambda I, st, a, ins: ret(mx(op, num(a[0]), num(a[1])), st)


def mulov(I, st, a, ins):
    return ret(Agg([mul(num(a[0]), num(a[1])), False]), st)


def nothing(I, st, a, ins):
    return ret(None, st)


def m_assume(I, st, a, ins):
    c = a[0] if a else True
    if isinstance(c, (BV, Poly)):
        n = bnode(c)
        if n not in (0, 1):
            I.ev('assume', ins, cond=n, pc=st.pc)
    return ret(None, st)


def m_catch(I, st, a, ins):
    return ret(a[0] if a else NULL, st)


EXACT = {
    'user_rhs': m_rhs, 'user_rhs0': m_rhs0, 'user_rhsl': m_rhsl, 'user_jac_call': m_jac_call, 'user_jac': m_jac, 'user_dft': m_dft,
    'user_rho': m_rho, 'user_linop': m_linop, 'user_op_init': m_op_init, 'user_op_apply': m_op_apply, 'probe': m_probe,
    'dgetrf_': m_getrf(False), 'zgetrf_': m_getrf(True), 'dgetrs_': m_getrs(False), 'zgetrs_': m_getrs(True),
    'dgbtrf_': m_gbtrf(False), 'zgbtrf_': m_gbtrf(True), 'dgbtrs_': m_gbtrs(False), 'zgbtrs_': m_gbtrs(True),
    'dgehrd_': m_gehrd,
    'user_dech': m_dech(False), 'user_dechc': m_dech(True), 'user_solh': m_solh(False), 'user_solhc': m_solh(True), 'user_householder': m_householder,
    '_Znwm': m_new('new'), '_Znam': m_new('new[]'), 'malloc': m_new('malloc'),
    '_ZdlPv': m_free('new'), '_ZdlPvm': m_free('new'), '_ZdaPv': m_free('new[]'), '_ZdaPvm': m_free('new[]'), 'free': m_free('malloc'),
    'posix_memalign': m_memalign, '__cxa_throw': m_throw, '__cxa_rethrow': m_throw,
    '__cxa_begin_catch': m_catch, '__cxa_end_catch': nothing, '__cxa_free_exception': nothing, '__cxa_atexit': nothing,
    'sqrt': m1(sqrt_), 'sqrtl': m1(sqrt_), 'sqrtf': m1(sqrt_), 'fabs': m1(fabs_), 'fabsl': m1(fabs_), 'pow': m2(pow_), 'powl': m2(pow_),
    'fmax': m_max('max'), 'fmin': m_max('min'), 'fmaxl': m_max('max'), 'fminl': m_max('min'),
    '__kmpc_for_static_fini': nothing, '__kmpc_barrier': nothing,
}


def fork_call(I, st, a, ins):
    """the outlined function of a parallel region, analysed for one thread that runs every iteration"""
    fn = a[2]
    tid = I.newobj(st, ('tid', I.ctxid()), 'stack', 4, 4, 'stack', 'gtid')
    st.wr(tid.obj).cells[0] = (4, 0)
    f = I.m.funcs[fn.name]
    I.ev('parallel', ins, fn2=fn.name)
    old = I.omp
    I.omp = {'private': {tid.obj}, 'log': [], 'inloop': False, 'iter': None, 'critical': False, 'depth': None}
    r = I.exec_func(f, [tid, tid] + a[3:], st, ins)
    I.ev('parallel-end', ins, log=I.omp['log'], fn2=fn.name)
    I.omp = old
    return r


def static_init(I, st, a, ins):
    # (loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk): one thread takes all iterations
    I.store(st, a[3], 1, 4, ins)
    if I.omp is not None:
        I.omp['depth'] = len(I.loopstack) + 1
        I.omp['inloop'] = True
    return ret(None, st)


def static_fini(I, st, a, ins):
    if I.omp is not None:
        I.omp['inloop'] = False
        I.omp['iter'] = None
        I.omp['depth'] = None
    return ret(None, st)


def reduce_start(I, st, a, ins):
    if I.omp is not None:
        I.omp['critical'] = True
    I.ev('omp-reduce', ins)
    return ret(1, st)


def reduce_end(I, st, a, ins):
    if I.omp is not None:
        I.omp['critical'] = False
    return ret(None, st)


EXACT.update({'__kmpc_fork_call': fork_call, '__kmpc_for_static_init_4': static_init, '__kmpc_for_static_init_4u': static_init,
              '__kmpc_for_static_init_8': static_init, '__kmpc_for_static_init_8u': static_init, '__kmpc_for_static_fini': static_fini,
              '__kmpc_reduce_nowait': reduce_start, '__kmpc_reduce': reduce_start, '__kmpc_critical': reduce_start,
              '__kmpc_end_reduce_nowait': reduce_end, '__kmpc_end_reduce': reduce_end, '__kmpc_end_critical': reduce_end})

INTRIN = [
    ('llvm.fabs', m1(fabs_)), ('llvm.sqrt', m1(sqrt_)), ('llvm.pow', m2(pow_)), ('llvm.powi', m2(pow_)), ('llvm.fmuladd', fmuladd), ('llvm.fma', fmuladd),
    ('llvm.maxnum', m_max('max')), ('llvm.minnum', m_max('min')), ('llvm.maximum', m_max('max')), ('llvm.minimum', m_max('min')),
    ('llvm.smax', m_max('max')), ('llvm.smin', m_max('min')), ('llvm.umax', m_max('max')), ('llvm.umin', m_max('min')),
    ('llvm.umul.with.overflow', mulov), ('llvm.assume', m_assume),
]
SILENT = ('llvm.lifetime', 'llvm.dbg', 'llvm.prefetch', 'llvm.donothing', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stackrestore')


def external(I, name, f, args, st, ins):
    m = I.cfg['models'].get(name) or EXACT.get(name)
    if m:
        return m(I, st, args, ins)
    if name.startswith('llvm.'):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = args[2]
            if type(n) is Poly:
                n = simp(n, st.pc)
            if name.startswith('llvm.memcpy') and type(n) is int and n > 0:
                for o in rng(st, I, args[0], n, ins):
                    for x in rng(st, I, args[1], n, ins):
                        if overlap(o, x) and not (o[1] == x[1]):
                            I.ev('memcpy-overlap', ins)
            I.memcpy(st, args[0], args[1], n, ins)
            return ret(None, st)
        if name.startswith('llvm.memset'):
            I.memset(st, args[0], args[1], args[2], ins)
            return ret(None, st)
        for p, g in INTRIN:
            if name.startswith(p + '.') or name == p:
                return g(I, st, args, ins)
        if name.startswith('llvm.lifetime'):
            p = args[-1]
            if isinstance(p, Ptr) and p.obj is not None and type(p.off) is int and p.off == 0:
                o = st.mem.get(p.obj)
                if o is not None and o.kind == 'stack' and o.cells:
                    st.wr(p.obj).cells = {}
            return ret(None, st)
        if name.startswith(SILENT):
            return ret(None, st)
        if name.startswith('llvm.abs'):
            return ret(fabs_(num(args[0])), st)
        if name.startswith('llvm.stacksave'):
            return ret(NULL, st)
        if name.startswith('llvm.expect'):
            return ret(args[0], st)
        if name.startswith('llvm.trap'):
            I.ev('trap', ins)
            return [], []
        I.ev('unknown-intrinsic', ins, name=name)
        return ret(I.fresh(name), st)
    if name == '__cxa_allocate_exception':
        return ret(alloc(I, st, args[0], 'exception', 16, ins), st)
    if name == '__cxa_guard_acquire':
        I.ev('static-guard', ins)
        return ret(1, st)
    if name in ('__cxa_guard_release', '__cxa_guard_abort'):
        return ret(None, st)
    if name == '__clang_call_terminate' or name == '_ZSt9terminatev' or name == 'abort':
        I.ev('terminate', ins)
        return [], []
    dem = f.dem if f is not None else name
    if f is not None and f.noreturn:
        if 'throw' in name:
            I.ev('throw', ins, pc=st.pc)
            return [], [st]
        I.ev('terminate', ins)
        return [], []
    if dem.startswith(('std::', 'odes::OdesException', 'odes::logger', '__gnu_cxx', 'void std::', 'bool std::')) or getattr(f, 'opq', False):
        return opaque(I, name, dem, f, args, st, ins)
    mm = re.match(r'^(exp|log|sin|cos|tan|atan|log10|cbrt|expm1|log1p|sinh|cosh|tanh|asin|acos|ceil|floor|trunc|round|log2|exp2|hypot|fmod|atan2)[lf]?$', name)
    if mm:
        return ret(app('fn:' + mm.group(1), *[num(x) for x in args]), st)
    I.ev('unknown-external', ins, name=name, dem=dem)
    return ret(I.fresh(name), st)


def opaque(I, name, dem, f, args, st, ins):
    """library code that is not analysed: it may do anything to the objects it is given by non-const
    reference, but those are streams, strings, lists and exceptions only"""
    I.ev('opaque', ins, name=dem)
    I.calls_seen[dem] = I.calls_seen.get(dem, 0) + 1
    for x in args:
        if isinstance(x, (int, float, Poly, BV, bool)) and undef_under(x, st.pc):
            I.ev('undef-to-library', ins, name=dem, names=I.undef_names(simp(num(x), st.pc)))
    return ret(I.fresh('opq:' + strip(dem)), st)


def strip(d):
    return d.split('(')[0][-40:]
