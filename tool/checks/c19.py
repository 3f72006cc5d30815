"""C19: settings stay in force"""
from attempts import *
import implicit
from implicit import mk, cfgname, Imp
from explicit import mk4, Rock4Run
from engine_check import Obs, run_configs

TECH = ('abstract interpretation with a symbol for every setting: the cells a setter writes are followed to every loop head, return and exception of the next integrations, and every '
        'tolerance, threshold and limit met in the conditions of the integration must be the symbol set last')
EXPL = ('Every setter is called with a symbol of its own, after construction and again between two integrations. The members a setter changes must hold the same value at every loop head, return and exception of '
        'the integrations that follow. No tolerance given earlier may occur in the conditions or values of an integration once new ones were set, and component i must use the tolerances at position i (position '
        '0 only, with equal tolerances). Each symbol must take part: the maximum number of steps decides an exception, the stopping criterion is the threshold of the Newton tests, the safety factor, the step-ratio limits and '
        'the reuse threshold enter the step sizes and conditions; in one-step mode every return follows exactly one accepted step.')

SET = {'radau': [('h_tol', None), ('h_safe', ['+safe']), ('h_nmax', ['nmax']), ('h_nit', [2]), ('h_thet', ['+thet']), ('h_fac', ['+facr', '+facl']), ('h_gus', [True]), ('h_fnewt', ['+fnewt']), ('h_one', [True])],
       'rodas': [('h_tol', None), ('h_safe', ['+safe']), ('h_nmax', ['nmax']), ('h_gus', [True]), ('h_one', [True])]}
WHAT = {'h_tol': 'the tolerances', 'h_safe': 'the safety factor', 'h_nmax': 'the maximum number of steps', 'h_nit': 'the maximum number of Newton iterations', 'h_thet': 'the Jacobian reuse threshold',
        'h_fac': 'the step-ratio limits', 'h_gus': 'the predictive control switch', 'h_fnewt': 'the Newton stopping criterion', 'h_one': 'the one-step mode'}


def cells(s):
    """what the object holds: its members and the blocks it has allocated"""
    return {(oid, k): v for oid, ob in s.mem.items() if oid == 'self' or ob.kind == 'heap' for k, v in ob.cells.items()}


def key1(v):
    return vkey(v) if type(v) is Poly else v if not isinstance(v, tuple) else tuple(key1(x) for x in v)


def put(o, a, fn, args, watch, same, tag):
    """call a setter on all states and note what it changed"""
    r = a.r
    before = [cells(s) for s in r.rets]
    if fn == 'h_tol':
        n = a.n
        at = r.doubles('atol' + tag, [sym('+%satol%d' % (tag, i)) for i in range(n)])
        rt = r.doubles('rtol' + tag, [sym('+%srtol%d' % (tag, i)) for i in range(n)])
        r.call(fn, a.self, same, at, rt)
    else:
        r.call(fn, a.self, *[sym(x) if isinstance(x, str) else x for x in args])
    s = r.rets[0]
    new = cells(s)
    old = before[0]
    ch = {k: v for k, v in new.items() if k not in old or key1(old[k]) != key1(v)}
    key = a.c['which'] + '/' + fn
    for off, (size, v) in sorted(ch.items(), key=str):
        names = set()
        if type(v) is not Poly:
            continue
        for at in TM.all_atoms(v):
            A = TM.atoms[at] if not hasattr(at, 'op') else at
            names.add(str(A.args[0]) if A.op == 'sym' else '(%s)' % A.op)
        if fn == 'h_tol':
            idx = {x[-1] for x in names if not x.startswith('(')}
            o.ob('a tolerance is taken from its own position', len(idx) <= 1, key + '/position', 'a value made of %s is stored by setting the tolerances' % ', '.join(sorted(x for x in names if not x.startswith('('))), 'setter')
        else:
            o.ob('the value given is the one stored', len(names) <= 1 and not any(x.startswith('(') and x != '(den)' for x in names), key + '/stored', '%s is stored as %s' % (WHAT[fn], show(v, 2)[:80]), 'setter')
    if args and isinstance(args[0], bool):
        r2 = s.fork()
        while len(r2.frames) > 1:
            r2.frames.pop()
        rs, ts = r.I.call(fn, [a.self, not args[0]], r2)
        o.ob('a switch has two positions', len(rs) == 1 and {k: key1(x) for k, x in cells(rs[0][1]).items()} != {k: key1(x) for k, x in new.items()}, key + '/switch', 'switching %s on and off makes no difference' % WHAT[fn], 'setter')
    for f in list(watch):
        watch[f] = {k: v for k, v in watch[f].items() if k not in ch}
    watch[fn] = ch


def syms_of(vals, out, seen):
    for v in vals:
        if type(v) is Poly:
            for at in TM.all_atoms(v):
                A = TM.atoms[at] if not hasattr(at, 'op') else at
                if A.op == 'sym':
                    out.add(str(A.args[0]))


def all_syms(a, states):
    """symbols in conditions, and in the values entering loop heads"""
    out = set()
    vs = set()
    for s in states:
        vs |= set(b_support(s.pc))
    for gs in a.r.I.phiinc.values():
        for q in gs.values():
            for vals in q['phi'].values():
                syms_of(vals, out, None)
            for s, e in q['sts']:
                vs |= set(b_support(s.pc))
    for x in vs:
        syms_of([TM.bvars[x][1]], out, None)
    for s in states:
        syms_of([c[1] for c in s.mem['self'].cells.values()], out, None)
    return out


def preserved(o, a, watch, key, when):
    held = {k[0] for ch in watch.values() for k in ch}
    for what, sts in (('return', a.rets), ('exception', a.throws), ('loop head', [s for h in a.r.I.heads.values() for _, s in h['H']])):
        for s in sts:
            if 'self' not in s.mem:
                continue
            cs = {(oid, k): v for oid in held for k, v in (s.mem[oid].cells.items() if oid in s.mem else ())}
            for fn, ch in watch.items():
                bad = [k for k, v in ch.items() if k not in cs or key1(cs[k]) != key1(v)]
                o.ob('a setting keeps the value given', not bad, key + '/' + fn, '%s set by the user has changed at a %s of the %s integration: %s instead of %s'
                     % (WHAT[fn], what, when, show(cs[bad[0]][1], 1)[:50] if bad and bad[0] in cs else '?', show(ch[bad[0]][1], 1)[:50] if bad else ''), what)


def analyse(c):
    o = Obs()
    if c['which'] == 'rock4':
        return rock4(c, o)
    w = c['which']
    n = c['n']
    key = w
    same = c.get('same', False)

    def view(st):
        return dict(x=st.mem['x'].cells[0][1] if 'x' in st.mem else None, y=[st.mem['y'].cells[8 * i][1] for i in range(n)] if 'y' in st.mem else None, t=None, pc=st.pc)
    a = Imp(c, cfg=dict(rhstimes=True, viewfn=view))
    watch = {}
    for fn, args in SET[w]:
        if fn in c.get('skip', ()):
            continue
        if fn in c.get('vals', {}):
            args = c['vals'][fn]
        put(o, a, fn, args, watch, same, 'u')
    a.run()
    preserved(o, a, watch, key, 'next')
    states = list(a.rets) + list(a.throws)
    S = all_syms(a, states)
    tols = {x for x in S if 'atol' in x or 'rtol' in x}
    ok = {('+u' + k + str(0 if same else i)) for k in ('atol', 'rtol') for i in range(n)}
    o.ob('only the tolerances set last are used', tols <= ok, key + '/old tolerances', 'the tolerances %s take part though others were set' % sorted(tols - ok)[:4], 'operator()')
    o.ob('the tolerances of every component are used', ok <= tols, key + '/tolerances', 'the tolerances %s take no part' % sorted(ok - tols)[:4], 'operator()')
    for fn, args in SET[w]:
        for x in (args or []):
            if isinstance(x, str) and fn not in c.get('skip', ()) and not (fn in ('h_thet', 'h_fac') and 'h_one' not in c.get('skip', ())):
                o.ob('a setting takes part in the integration', x in S, key + '/unused ' + fn, '%s takes no part in the integration' % WHAT[fn], 'operator()')
    if w == 'radau':
        H = Hist.__new__(Hist)
        H.c, H.n, H.which, H.want, H.a = c, n, w, issolve, a
        for s in a.rets:
            for t, cs, k in H.tests_of(s.pc):
                if k != 'newton':
                    continue
                for q, f in cs:
                    if f is None or f['Q'] is None:
                        continue
                    o.ob('the Newton tests use the stopping criterion set', type(f['c0']) is Poly and vkey(neg(f['c0'])) == vkey(sym('+fnewt')), key + '/fnewt',
                         'a Newton test compares with %s instead of the stopping criterion set' % show(f['c0'], 2)[:80], 'return')
    if 'h_one' not in c.get('skip', ()) and c.get('vals', {}).get('h_one', [True]) == [True]:
        for s in a.rets:
            q = s.fork()
            while len(q.frames) > 1:
                q.frames.pop()
            rs, ts = a.r.I.call('h_naccpt', [a.self], q)
            v = TM.simp(rs[0][0], s.pc)
            o.ob('one-step mode returns after one accepted step', isnum(v) and v == 1 or type(v) is Poly and leaves(v, s.pc) == {1}, key + '/one step', 'a return in one-step mode follows %s accepted steps' % show(v, 2)[:60], 'return')
    else:
        return o
    # again, between integrations
    rets = a.rets
    a.r.rets = [s for v, s in a.r.I.merge_rets([(None, s) for s in rets])] if len(rets) > 1 else list(rets)
    put(o, a, 'h_tol', None, watch, same, 'v')
    if w == 'radau':
        put(o, a, 'h_fnewt', ['+fnewt2'], watch, same, 'v')
    put(o, a, 'h_safe', ['+safe2'], watch, same, 'v')
    for s in a.r.rets:
        for i in range(n):
            s.wr('y').cells[8 * i] = (8, sym('w%d' % i))
        s.wr('x').cells[0] = (8, sym('t0'))
        s.pc = 1
    a.r.I.phiinc.clear()
    a.r.I.heads.clear()
    a.r.call('h_run', a.self, sym('g0'), a.x, sym('tend'), a.y)
    a.rets, a.throws = a.r.rets, a.r.last_throws
    preserved(o, a, watch, key, 'second')
    out = set()
    vs = set()
    for gs in a.r.I.phiinc.values():
        for q in gs.values():
            for s, e in q['sts']:
                vs |= set(b_support(s.pc))
    for s in list(a.rets) + list(a.throws):
        vs |= set(b_support(s.pc))
    for x in vs:
        syms_of([TM.bvars[x][1]], out, None)
    tols = {x for x in out if 'atol' in x or 'rtol' in x}
    ok = {('+v' + k + str(0 if same else i)) for k in ('atol', 'rtol') for i in range(n)}
    o.ob('only the tolerances set last are used', tols <= ok, key + '/old tolerances', 'the tolerances %s decide in a second integration though others were set' % sorted(tols - ok)[:4], 'operator()')
    o.ob('the tolerances of every component are used', ok <= tols, key + '/tolerances', 'the tolerances %s take no part in a second integration' % sorted(ok - tols)[:4], 'operator()')
    return o


def leaves(v, pc, limit=32):
    if isnum(v):
        return {v}
    cnd = topites(v, [])
    if not cnd or limit <= 1:
        return {None}
    out = set()
    for q in (b_and(pc, cnd[0]), b_and(pc, b_not(cnd[0]))):
        if q != 0 and feasible(q):
            out |= leaves(TM.simp(v, q), q, limit // 2)
    return out


def rock4(c, o):
    a = Rock4Run(c)
    r = a.r
    before = cells(r.rets[0])
    r.call('h_tol', a.self, sym('+uatol'), sym('+urtol'))
    ch = {k: v for k, v in cells(r.rets[0]).items() if k not in before or key1(before[k]) != key1(v)}
    a.run()
    preserved(o, a, {'h_tol': ch}, 'rock4', 'next')
    S = all_syms(a, list(a.rets) + list(a.throws))
    tols = {x for x in S if 'atol' in x or 'rtol' in x}
    o.ob('only the tolerances set last are used', tols == {'+uatol', '+urtol'}, 'rock4/tolerances', 'the tolerances %s are used instead of those set last' % sorted(tols), 'operator()')
    return o


def configs(tier):
    out = []
    for w in ('rodas', 'radau'):
        for same in (False, True):
            out.append(mk(which=w, same=same, n=3 if not same else 2))
    out += [mk(which='rodas', skip=('h_one',)), mk(which='radau', nit=2, skip=('h_one',)), mk(which='rodas', vals={'h_gus': [False]}), mk(which='radau', vals={'h_gus': [False]}), mk4(deg=5)]
    return out


def name(c):
    return 'Rock4 %d stages' % c['deg'] if c['which'] == 'rock4' else cfgname(c) + (' equal tolerances' if c.get('same') else '') + (' until the end' if c.get('skip') else ' one step') + (' without predictive control' if c.get('vals') else '')


def run(tier):
    return run_configs('C19', tier, TECH, EXPL, analyse, configs(tier), name, 600 if tier == 'thorough' else 200)
