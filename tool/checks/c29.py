"""C29: no value of the long double integrator passes through a shorter floating type."""
import os
import tempfile
import ir
from insts import modules, inrepo
from report import Check

ARITH = ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg')
SHORT = ('double', 'float')


def callees(m, f):
    for b in f.blocks:
        for ins in b:
            if ins[0] in ('call', 'invoke') and type(ins[4]) is str:
                yield ins[4], ins


def reach(m, roots):
    seen, work = {}, list(roots)
    for r in roots:
        seen[r] = None
    while work:
        n = work.pop()
        f = m.funcs.get(n)
        if f is None or f.decl:
            continue
        for c, ins in callees(m, f):
            if c not in seen:
                seen[c] = n
                work.append(c)
    return seen


def rounded(hexs):
    """an extended constant that is a double but not a short binary fraction"""
    mant = int(hexs, 16) & ((1 << 64) - 1)
    return mant != 0 and mant & 0x7ff == 0 and mant & ((1 << 40) - 1) != 0


def analyse(m, roots, lib):
    """list of (key, message, loc)"""
    out = []
    cnt = {'conversions': 0, 'arithmetic': 0, 'calls': 0, 'functions': 0, 'long double operations': 0}
    R = reach(m, roots)
    for n in R:
        f = m.funcs.get(n)
        if f is None or f.decl or not lib(f):
            continue
        cnt['functions'] += 1
        for b in f.blocks:
            for ins in b:
                op = ins[0]
                loc = m.loc(ins[3]) if ins[3] else f.dem
                if op == 'fptrunc':
                    cnt['conversions'] += 1
                    if ins[5] == 'x86_fp80' or True:
                        out.append(('trunc:%s' % f.short, 'a %s value is rounded to %s in %s' % (ins[5], ins[2], f.dem), loc))
                elif op == 'fpext' and type(ins[4][0]) is int:
                    cnt['conversions'] += 1
                    out.append(('held:%s' % f.short, 'a value held in %s is used as long double in %s' % (ins[5], f.dem), loc))
                elif op in ARITH:
                    cnt['arithmetic'] += 1
                    if ins[2] in SHORT:
                        out.append(('arith:%s' % f.short, '%s is computed in %s in %s' % (op, ins[2], f.dem), loc))
                    else:
                        cnt['long double operations'] += 1
                        for o in ins[4]:
                            if isinstance(o, list) and o[0] == 'f' and o[1] == 'x86_fp80' and rounded(o[2]):
                                out.append(('const:%s' % f.short, 'a constant rounded to double is used in %s' % f.dem, loc))
                elif op in ('sitofp', 'uitofp') and ins[2] in SHORT:
                    cnt['conversions'] += 1
                    out.append(('int:%s' % f.short, 'an integer is converted to %s in %s' % (ins[2], f.dem), loc))
                elif op in ('call', 'invoke') and type(ins[4]) is str:
                    cnt['calls'] += 1
                    c = m.funcs.get(ins[4])
                    if c is not None and any(a[1] in SHORT for a in c.args) and c.decl:
                        out.append(('call:%s' % f.short, '%s is called with a %s argument in %s' % (c.dem, 'double', f.dem), loc))
                elif op in ('fptosi', 'fptoui') and ins[5] == 'x86_fp80':
                    cnt['conversions'] += 1
                    out.append(('toint:%s' % f.short, 'a long double value is cut to an integer in %s' % f.dem, loc))
    return out, cnt


def run(tier):
    C = Check('C29', tier, 'type-flow query on LLVM IR over everything reachable from the long double instantiation',
              'For all stage numbers 2..16 the functions reachable from the members of SymplecticRK<F,s,long double> are '
              'enumerated through the call graph. None may convert a long double to a shorter type, use a value held in '
              'a shorter type, or compute in one.')
    for h, d, m in modules(['inst_gauss']):
        roots = [n for n, f in m.funcs.items() if not f.decl and inrepo(f.file) and 'odes::SymplecticRK<GaussProblemL' in f.dem]
        C.floor('root functions ' + ' '.join(d), len(roots), 60)
        v, cnt = analyse(m, roots, lambda f: True)
        C.sample('%s %s: %s' % (h, d, cnt))
        C.floor('reachable library functions', cnt['functions'], 100)
        C.floor('long double operations', cnt['long double operations'], 100)
        for k, n in cnt.items():
            C.counts[k] = C.counts.get(k, 0) + n
            C.obl += n
        for k, msg, loc in v:
            C.viol(k, 'no shorter type: ' + msg, loc)
    with tempfile.TemporaryDirectory(dir=ir.BUILD) as d:
        src = os.path.join(d, 'p.cpp')
        open(src, 'w').write('#include <cmath>\nstruct S{ double held; long double f(long double a){ double x=a; held=x; return held*a; }\n'
                             'long double g(long double a,int n){ return a*(1.0/n)+::fabs((double)a)+a*0.1; } };\n'
                             'long double h(S&s,long double a){ return s.f(a)+s.g(a,3); }\n')
        m = ir.compile_ir(src, [], 'c++14', [], incs=[])
        v, cnt = analyse(m, [n for n in m.funcs if 'S1f' in n or 'S1g' in n], lambda f: True)
        kinds = {k.split(':')[0] for k, a, b in v}
        if not {'trunc', 'held', 'arith', 'const'} <= kinds:
            raise ir.ToolError('positive examples not seen: %s' % kinds)
    return C.finish()
