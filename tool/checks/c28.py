"""C28: logging records what happens and changes nothing"""
import collections
import re
import ir
from report import Check
from insts import inrepo
from jobs import pmap

TECH = ('effect slicing on LLVM IR: both builds are compiled; everything the logging build adds must consist of calls of the logger with values only, and of computations nothing else uses')
EXPL = ('Each integrator with a logging option is compiled with and without it. In every library function of the logging build the calls of the logger are removed together with the computations whose results '
        'nothing else uses (exceptional edges, which only release memory, aside); what remains must be the function of the plain build, instruction by instruction, up to the place of members '
        'behind the logger in the object. The functions of the logger that are called take values or constant references only, and write nothing but the logger.')
PURE = {'getelementptr', 'load', 'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'icmp', 'fcmp', 'select', 'phi', 'sext', 'zext', 'trunc', 'fpext', 'fptrunc',
        'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'extractvalue', 'insertvalue', 'landingpad', 'alloca', 'freeze'}
MATH = {'fabs', 'sqrt', 'pow', 'exp', 'log', 'floor', 'ceil', 'fmin', 'fmax', 'abs'}


def islogger(m, f):
    c = m.funcs.get(f)
    return c is not None and ('odes::logger::' in c.dem.split('(')[0] or f in getattr(m, 'onlylogs', ()))


def operands(ins):
    """[value ids used]"""
    op = ins[0]
    if op == 'alloca':
        v = [ins[5]]
    elif op == 'load':
        v = [ins[4]]
    elif op == 'store':
        v = [ins[4], ins[5]]
    elif op == 'getelementptr':
        v = [ins[4]] + [p[0] for p in (ins[6] if len(ins) > 6 and isinstance(ins[6], list) else [])]
    elif op == 'phi':
        v = [p[1] for p in ins[4]]
    elif op == 'br':
        v = [ins[4]] if ins[4] is not None else []
    elif op == 'switch':
        v = [ins[4]]
    elif op in ('icmp', 'fcmp'):
        v = [ins[5], ins[6]]
    elif op in ('call', 'invoke'):
        v = list(ins[5]) + ([ins[4]] if type(ins[4]) is int else [])
    elif op in ('extractvalue',):
        v = [ins[4]]
    elif op == 'insertvalue':
        v = [ins[4], ins[5]]
    elif op == 'landingpad':
        v = []
    elif op == 'atomicrmw':
        v = [ins[5], ins[6]]
    else:
        v = list(ins[4]) if len(ins) > 4 and isinstance(ins[4], list) else []
    return [x for x in v if type(x) is int]


def body(m, f, strip):
    """the blocks of f without logging, dead computations and exceptional edges, trivially linked blocks joined"""
    bl = []
    removed = 0
    for b in f.blocks:
        nb = []
        for ins in b:
            op = ins[0]
            if op in ('call', 'invoke'):
                callee = ins[4] if type(ins[4]) is str else None
                gone = callee is not None and (callee.startswith('llvm.lifetime') or callee.startswith('llvm.dbg') or strip and islogger(m, callee))
                if gone:
                    removed += callee is not None and islogger(m, callee)
                    if op == 'invoke':
                        nb.append(['br', -1, 'void', ins[3], None, ins[6]])
                    continue
                if op == 'invoke':
                    nb.append(['call'] + ins[1:6] + [None, None] + ins[8:])
                    nb.append(['br', -1, 'void', ins[3], None, ins[6]])
                    continue
            nb.append(ins)
        bl.append(nb)
    # reachable blocks
    seen, st = {0}, [0]
    while st:
        for s in ir.succs(bl[st.pop()][-1]):
            if s not in seen:
                seen.add(s)
                st.append(s)
    for _ in range(4):
        # dead computations; cells only written
        while True:
            used = collections.Counter()
            stores = collections.defaultdict(list)
            for i in seen:
                for ins in bl[i]:
                    vs = operands(ins)
                    if ins[0] == 'store' and type(ins[5]) is int:
                        stores[ins[5]].append(ins)
                        vs = [x for x in vs[:-1]] if type(ins[4]) is int else []
                    for v in vs:
                        used[v] += 1
            allocas = {ins[1] for i in seen for ins in bl[i] if ins[0] == 'alloca'}
            ch = False
            for i in seen:
                keep = []
                for ins in bl[i]:
                    op = ins[0]
                    dead = op in PURE and not used[ins[1]] and not (stores.get(ins[1]) if op != 'alloca' else False)
                    if op == 'alloca' and not used[ins[1]]:
                        dead = True
                    if op == 'store' and ins[5] in allocas and not used[ins[5]]:
                        dead = True
                    if op == 'call' and type(ins[4]) is str and ins[1] >= 0 and not used[ins[1]]:
                        nm = m.funcs[ins[4]].short if ins[4] in m.funcs else ins[4]
                        if ins[4].startswith('llvm.fabs') or ins[4].startswith('llvm.sqrt') or (nm in MATH or ins[4] in MATH) and ins[2] in ('double', 'i32'):
                            dead = True
                    if dead:
                        ch = True
                    else:
                        keep.append(ins)
                bl[i] = keep
            if not ch:
                break
        # join blocks linked by the only edge
        while True:
            for i in seen:
                t = bl[i][-1]
                if t[0] == 'br' and t[4] is not None and t[5] == t[6]:
                    bl[i][-1] = t[:4] + [None, t[5]] + t[7:]
            preds = collections.defaultdict(list)
            for i in seen:
                for s in dict.fromkeys(ir.succs(bl[i][-1])):
                    preds[s].append(i)
            ch = False
            for i in sorted(seen):
                t = bl[i][-1]
                if t[0] == 'br' and t[4] is None:
                    s = t[5]
                    if s != i and preds[s] == [i] and s != 0:
                        head = [x for x in bl[s] if x[0] == 'phi']
                        if head:
                            continue
                        bl[i] = bl[i][:-1] + bl[s]
                        for q in seen:
                            for k, x in enumerate(bl[q]):
                                if x[0] == 'phi':
                                    bl[q][k] = x[:4] + [[[i if p[0] == s else p[0], p[1]] for p in x[4]]]
                        seen.discard(s)
                        ch = True
                        break
                    if len(bl[i]) == 1 and i != 0 and s != i and not any(x[0] == 'phi' for x in bl[s]):
                        # an empty block
                        for q in seen:
                            tt = list(bl[q][-1])
                            if tt[0] == 'br':
                                if tt[4] is None:
                                    tt[5] = s if tt[5] == i else tt[5]
                                else:
                                    tt[5] = s if tt[5] == i else tt[5]
                                    tt[6] = s if tt[6] == i else tt[6]
                            elif tt[0] == 'switch':
                                tt[5] = s if tt[5] == i else tt[5]
                                tt[6] = [[c[0], s if c[1] == i else c[1]] for c in tt[6]]
                            bl[q][-1] = tt
                        seen.discard(i)
                        ch = True
                        break
            if not ch:
                break
    # blocks in depth-first order
    order, st, num = [], [0], {}
    while st:
        b = st.pop()
        if b in num:
            continue
        num[b] = len(order)
        order.append(b)
        st.extend(reversed(ir.succs(bl[b][-1])))
    names = {}
    for k, a in enumerate(f.args):
        names[k] = 'a%d' % k
    return [bl[b] for b in order], num, removed


def canon(ins, num, val):
    """comparable form of an instruction, the constant offset of an address apart"""
    def v(x):
        if type(x) is int:
            return val(x)
        if isinstance(x, list) and len(x) > 1 and x[0] == 'g' and isinstance(x[1], str) and x[1].startswith(('.str', '__const', '.L')):
            g = val.module.globals.get(x[1])
            return 'string %s %s %s' % (g.get('size'), g.get('init'), x[2:])
        return str(x)
    op = ins[0]
    if op == 'alloca':
        return (op, ins[4])
    if op == 'load':
        return (op, ins[2], v(ins[4]), ins[5])
    if op == 'store':
        return (op, v(ins[4]), v(ins[5]), ins[6], ins[7])
    if op == 'getelementptr':
        return (op, v(ins[4]), tuple((v(a), s) for a, s in (ins[6] if isinstance(ins[6], list) else [])))
    if op == 'phi':
        return (op, ins[2], tuple(sorted((num.get(p[0], -1), v(p[1])) for p in ins[4] if p[0] in num)))
    if op == 'br':
        return (op, None, num[ins[5]]) if ins[4] is None else (op, v(ins[4]), num[ins[5]], num[ins[6]])
    if op == 'switch':
        return (op, v(ins[4]), num[ins[5]], tuple((c[0], num[c[1]]) for c in ins[6]))
    if op in ('icmp', 'fcmp'):
        return (op, ins[4], v(ins[5]), v(ins[6]))
    if op in ('call', 'invoke'):
        return ('call', v(ins[4]), tuple(v(x) for x in ins[5]))
    if op == 'extractvalue':
        return (op, v(ins[4]), str(ins[5]))
    if op == 'insertvalue':
        return (op, v(ins[4]), v(ins[5]), str(ins[6]))
    if op == 'landingpad':
        return (op,)
    return (op, ins[2], tuple(v(x) for x in ins[4]) if len(ins) > 4 and isinstance(ins[4], list) else ())


def compare(mp, ml, fp, fl, shift):
    """None or (message, location): fl without logging is fp; shift: consistent renaming of member offsets"""
    bp, np_, _ = body(mp, fp, False)
    bl, nl, removed = body(ml, fl, True)
    vp, vl = {}, {}

    def namer(d, f, m):
        na = len(f.args)

        def val(x):
            return d.get(x, 'a%d' % x if x < na else '?%d' % x)
        val.module = m
        return val
    # values are numbered by their place
    for bs, d in ((bp, vp), (bl, vl)):
        k = 0
        for b in bs:
            for ins in b:
                if ins[1] is not None and ins[1] >= 0 and ins[0] not in ('store', 'br', 'ret'):
                    d[ins[1]] = 'v%d' % k
                k += 1
    a, b = namer(vp, fp, mp), namer(vl, fl, ml)
    for x, y in zip(bp, bl):
        for i, j in zip(x, y):
            ci, cj = canon(i, np_, a), canon(j, nl, b)
            if ci != cj:
                return ('differs from the build without it beyond calls of the logger', ml.loc(j[3]) if j[3] else ml.loc(i[3])), removed
            if i[0] == 'getelementptr' and i[5] != j[5]:
                if i[4] != 0 or j[4] != 0:
                    return ('addresses a different element', ml.loc(j[3])), removed
                if shift.setdefault(i[5], j[5]) != j[5]:
                    return ('addresses a different member', ml.loc(j[3])), removed
        if len(x) != len(y):
            k = min(len(x), len(y))
            extra = (y if len(y) > len(x) else x)[k]
            return ('differs from the build without it beyond calls of the logger', ml.loc(extra[3])), removed
    if len(bp) != len(bl):
        return ('has a different control flow', '%s:%s' % (fl.file, fl.line)), removed
    return None, removed


def job(c):
    harness, defs, log, floor, cls = c
    extra = []
    mp = ir.compile_ir(harness, defs, 'c++14', extra)
    ml = ir.compile_ir(harness, defs + [log], 'c++14', extra)
    # functions of the logging build alone which, the logger aside, do nothing
    ml.onlylogs = set()
    while True:
        more = [k for k, f in ml.funcs.items() if not f.decl and k not in mp.funcs and k not in ml.onlylogs and f.file and inrepo(f.file) and f.ret == 'void'
                and (lambda b: len(b) == 1 and len(b[0]) == 1 and b[0][0][0] == 'ret')(body(ml, f, True)[0])]
        if not more:
            break
        ml.onlylogs.update(more)
    out, n, rem = [], 0, 0
    shift = {}
    for name, fl in ml.funcs.items():
        if fl.decl or not fl.file or not inrepo(fl.file) or 'logger' in fl.file.split('/')[-1]:
            continue
        fp = mp.funcs.get(name)
        if fp is None or fp.decl:
            continue
        n += 1
        r, k = compare(mp, ml, fp, fl, shift)
        rem += k
        if r is not None:
            out.append(('%s/%s' % (log, fl.short), 'with %s defined %s %s' % (log, fl.dem[:100], r[0]), r[1]))
    back = collections.Counter(shift.values())
    for o, k in back.items():
        if k > 1:
            out.append((log + '/members', 'two members share a place with %s defined' % log, '?'))
    # the logger itself: nothing but values goes in, nothing but the logger is written
    called = set()
    for f in ml.funcs.values():
        if f.decl or not f.file or not inrepo(f.file) or 'logger' in f.file.split('/')[-1]:
            continue
        for b in f.blocks:
            for ins in b:
                if ins[0] in ('call', 'invoke') and type(ins[4]) is str and islogger(ml, ins[4]):
                    called.add(ins[4])
    for g in sorted(called):
        f = ml.funcs[g]
        sig = f.dem[f.dem.index('('):] if '(' in f.dem else ''
        for p in split(sig):
            if p.endswith('&') and not ('const' in p) or p.endswith('*') and 'const' not in p:
                out.append((log + '/' + str(f.short), 'the logger is given something it may change: %s' % f.dem[:100], '%s:%s' % (f.file, f.line)))
        # static or global data written
        for b in f.blocks if not f.decl else ():
            for ins in b:
                if ins[0] == 'store' and isinstance(ins[5], list) and ins[5][0] == 'g':
                    out.append((log + '/' + str(f.short), 'the logger writes shared data in %s' % f.dem[:100], ml.loc(ins[3])))
    return dict(n=n, removed=rem, called=len(called), out=out, log=log, floor=floor)


def split(sig):
    d, cur, out = 0, '', []
    for ch in sig[1:]:
        if ch in '(<':
            d += 1
        if ch == ')' and d == 0:
            break
        if ch in ')>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def configs():
    import os
    H = os.path.join(ir.VERIF, 'harness')
    im = ['GCC', 'N_=2', 'SUB_=1', 'SUP_=1', 'HESS_=false']
    ib = ['GCC', 'N_=4', 'SUB_=1', 'SUP_=2', 'HESS_=false']
    ih = ['GCC', 'N_=3', 'SUB_=2', 'SUP_=2', 'HESS_=true']
    out = []
    for d in (im, ib, ih):
        for num in ('false', 'true'):
            out.append((H + '/eng_implicit.cpp', d + ['NUMJ_=' + num, 'RADAU'], 'LOGRADAU5', 5, 'Radau5cc'))
            out.append((H + '/eng_implicit.cpp', d + ['NUMJ_=' + num], 'LOGRODAS', 2, 'Rodascc'))
    out.append((H + '/eng_rock4.cpp', ['ALIGN_BLOCKED'], 'LOGROCK4', 2, 'Rock4'))
    return out


def run(tier):
    C = Check('C28', tier, TECH, EXPL)
    res = pmap(job, configs(), 200)
    for c, (st, r) in zip(configs(), res):
        if st != 'ok':
            raise RuntimeError('%s: %s' % (c[2], r))
        C.floor('library functions compared, %s %s' % (r['log'], ' '.join(c[1][1:])), r['n'], 20)
        C.floor('logging calls removed, %s' % r['log'], r['removed'], r['floor'])
        C.obl += r['n'] + r['called']
        C.counts['functions compared'] = C.counts.get('functions compared', 0) + r['n']
        C.counts['logging calls'] = C.counts.get('logging calls', 0) + r['removed']
        for k, msg, loc in r['out']:
            C.viol(k, 'logging changes nothing: ' + msg, loc)
    return C.finish()
