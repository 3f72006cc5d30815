"""C11: the number of attempts is bounded"""
from implicit import *
from steps import *
from c18 import getter, allcases, split
from engine_check import Obs, run_configs
import models

TECH = ('abstract interpretation for all histories; ranking argument at every loop back edge: the counter of attempts has grown and was within the configured maximum, or the counter of the inner '
        'iteration has grown and is not at its maximum')
EXPL = ('Rodas and Radau are interpreted abstractly with symbolic problem, history and limits, every loop that is not completely unrolled being brought to a fixpoint at its head. At every back edge of every such loop '
        'the number of attempted steps must exceed its value at a loop head by at least one while the condition of the path implies that this value was not above the maximum; otherwise some counter '
        'of the loop itself must have grown by one without having reached the maximum number of Newton iterations. Hence every cycle is finite whatever makes attempts fail. Some exception must be reached with the maximum passed.')


def eq0(p):
    return b_and(TM.lt0(sub(p, 1), True), b_not(TM.lt0(p, True)))


def analyse(c):
    o = Obs()
    key = c['which']
    a = scenario(c)
    nmax = sym('nmax')
    nit = c['nit'] if c.get('nit') else sym('nit')
    nl = 0
    for cid, h in a.r.I.heads.items():
        loc = h['loc']
        if not any('self' in s.mem for s in h['backs']):
            continue
        phis = set()
        for gs in a.r.I.phiinc.get(cid, {}).values():
            phis |= set(gs['phi'])
        hv = {vkey(TM.simp(getter(a, s, 'h_nstep'), s.pc)) for _, s in h['H'] if 'self' in s.mem}
        # counters of this loop: values at the head that grow by one around it
        cnts = {}
        for gs in a.r.I.phiinc.get(cid, {}).values():
            for pid, vals in gs['phi'].items():
                P = TM.atoms[pid].pol
                bk = [(s, v) for (s, e), v in zip(gs['sts'], vals) if not e]
                if bk and all(v is not None and not isinstance(v, bool) and isnum1(sub(v, P)) for s, v in bk if type(v) is Poly or isnum(v)) and all(type(v) is Poly for s, v in bk):
                    cnts[pid] = P
        for s in h['backs']:
            nl += 1
            v0 = TM.simp(getter(a, s, 'h_nstep'), s.pc)
            for pc, (v,) in allcases(s.pc, [v0], 256):
                r = split(v)
                if r is None:
                    o.ob('attempts are counted by increments', False, key + '/form', 'the number of attempts is %s at the end of a cycle' % show(v, 2)[:100], 'back edge ' + loc)
                    continue
                ph, k = r
                prev = ph.pol if ph is not None else k - 1
                if k >= 1 and vkey(v) not in hv:
                    lim = sub(prev, nmax) if ph is not None else sub(k - 1, nmax)
                    ok = implies(pc, b_not(TM.lt0(neg(lim), True)))
                    o.ob('an attempt is made only while the maximum has not been passed', ok, key + '/maximum', 'an attempt is made without a decision that the number of attempts %s is within the maximum' % show(prev, 1)[:60], 'back edge ' + loc)
                    continue
                # no further attempt: the loop must be bounded by a counter of its own
                ok = any(not feasible(b_and(pc, eq0(sub(add(P, 1), nit)))) for P in cnts.values())
                o.ob('a cycle within an attempt is bounded', ok, key + '/cycle', 'a cycle at %s neither counts an attempt nor a Newton iteration below its maximum' % loc, 'back edge ' + loc)
    passed = False
    for s in a.throws:
        v = TM.simp(getter(a, s, 'h_nstep'), s.pc) if 'self' in s.mem else 0
        for pc, (w,) in allcases(s.pc, [v], 64):
            if feasible(pc) and implies(pc, TM.lt0(sub(nmax, w), True)):
                passed = True
    o.ob('passing the maximum ends in an exception', passed, key + '/exception', 'no exception is reached with the maximum number of attempts passed', 'exception')
    if not nl:
        o.skip('no loop met')
    return o


def isnum1(d):
    return isnum(d) and d == 1


def configs(tier):
    out = [mk(), mk(method=2, aut=False), mk(n=4, sub=1, sup=2, numj=True), mk(n=3, hess=True, stub=True), mk(which='radau'), mk(which='radau', nit=2), mk(which='radau', nit=3), mk(which='radau', n=3, hess=True, stub=True, nit=2), mk(which='radau', numj=True, nit=2)]
    if tier == 'thorough':
        out += [mk(n=3), mk(method=3, aut=False, dft=True), mk(which='radau', n=4, sub=1, sup=2)]
    return out


def run(tier):
    return run_configs('C11', tier, TECH, EXPL, analyse, configs(tier), cfgname, 600 if tier == 'thorough' else 300)
