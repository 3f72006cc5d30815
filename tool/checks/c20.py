"""C20: no library code writes to, or leaks, mutable data with static storage duration."""
import os
import tempfile
import ir
from insts import modules, inrepo
from report import Check

HIDDEN = {'rand', 'srand', 'drand48', 'srand48', 'random', 'srandom', 'strtok', 'localtime', 'gmtime', 'asctime', 'ctime',
          'lgamma', 'setlocale', 'setenv', 'putenv', 'signal', 'erand48', 'lrand48', 'mrand48', 'fesetround'}
INTERNAL = (7, 8)


def gfile(g):
    if 'file' not in g:
        return None
    p = g['file'] if g['file'].startswith('/') else os.path.join(g['dir'], g['file'])
    return os.path.normpath(p)


class Escape:
    """flow-insensitive interprocedural use analysis of pointers to the watched globals"""

    def __init__(self, mod):
        self.m = mod
        self.hits = []        # (global, kind, loc, function)
        self.done = set()
        self.globals = {}
        self.reads = 0

    def watch(self, name, is_const):
        self.globals[name] = is_const

    def roots(self, o):
        if isinstance(o, list) and o[0] == 'g':
            return {o[1]} if o[1] in self.globals else set()
        if isinstance(o, list) and o[0] == 'agg':
            r = set()
            for x in o[1:]:
                r |= self.roots(x)
            return r
        return set()

    def run(self):
        self.ptg = {}          # function -> {ssa id: set(global)}
        changed = True
        funcs = [f for f in self.m.funcs.values() if not f.decl]
        for f in funcs:
            self.ptg[f.name] = {}
        self.retg = {}
        while changed:
            changed = False
            for f in funcs:
                changed |= self.flow(f)
        for f in funcs:
            self.uses(f)
        return self.hits

    def get(self, f, o):
        if type(o) is int:
            return self.ptg[f.name].get(o, set())
        return self.roots(o)

    def upd(self, f, i, s):
        if not s:
            return False
        d = self.ptg[f.name]
        o = d.setdefault(i, set())
        n = len(o)
        o |= s
        return len(o) != n

    def flow(self, f):
        ch = False
        for b in f.blocks:
            for ins in b:
                op = ins[0]
                if op in ('getelementptr',):
                    ch |= self.upd(f, ins[1], self.get(f, ins[4]))
                elif op == 'phi':
                    for p, o in ins[4]:
                        ch |= self.upd(f, ins[1], self.get(f, o))
                elif op in ('select', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast'):
                    for o in ins[4]:
                        ch |= self.upd(f, ins[1], self.get(f, o))
                elif op in ('insertvalue',):
                    ch |= self.upd(f, ins[1], self.get(f, ins[4]) | self.get(f, ins[5]))
                elif op == 'extractvalue':
                    ch |= self.upd(f, ins[1], self.get(f, ins[4]))
                elif op in ('call', 'invoke') and type(ins[4]) is str:
                    c = self.m.funcs.get(ins[4])
                    if c is not None and not c.decl:
                        for i, a in enumerate(ins[5][:len(c.args)]):
                            ch |= self.upd(c, i, self.get(f, a))
                        ch |= self.upd(f, ins[1], self.retg.get(c.name, set()))
                elif op == 'ret' and ins[4]:
                    s = self.get(f, ins[4][0])
                    if s - self.retg.get(f.name, set()):
                        self.retg.setdefault(f.name, set()).update(s)
                        ch = True
        return ch

    def uses(self, f):
        for b in f.blocks:
            for ins in b:
                op = ins[0]
                loc = self.m.loc(ins[3]) if ins[3] else f.dem
                if op == 'load':
                    self.reads += len(self.get(f, ins[4]))
                if op == 'store':
                    for g in self.get(f, ins[5]):
                        self.hits.append((g, 'written', loc, f))
                    for g in self.get(f, ins[4]):
                        self.hits.append((g, 'address stored', loc, f))
                elif op in ('atomicrmw', 'cmpxchg'):
                    for g in self.get(f, ins[5] if op == 'atomicrmw' else ins[4][0]):
                        self.hits.append((g, 'written', loc, f))
                elif op in ('call', 'invoke'):
                    n = ins[4] if type(ins[4]) is str else None
                    c = self.m.funcs.get(n) if n else None
                    if c is not None and not c.decl:
                        continue
                    for i, a in enumerate(ins[5]):
                        for g in self.get(f, a):
                            if n and (n.startswith('llvm.memcpy') or n.startswith('llvm.memmove')) and i == 1:
                                continue
                            if n and (n.startswith('llvm.lifetime') or n.startswith('llvm.assume') or n.startswith('llvm.dbg')
                                      or n.startswith('llvm.invariant') or n.startswith('llvm.prefetch')):
                                continue
                            if n and n.startswith('__cxa_guard'):
                                continue
                            if n in ('__cxa_atexit', 'memcmp', 'strlen', 'bcmp', '__cxa_throw'):
                                continue
                            self.hits.append((g, 'handed to %s' % (n or 'an indirect call'), loc, f))


def watched(mod):
    out = {}
    for n, g in mod.globals.items():
        if g['decl'] or g['const']:
            continue
        p = gfile(g)
        if p is None or not p.startswith(ir.REPO + '/'):
            continue
        if g['tls']:
            out[n] = ('tls', g)
        elif g.get('constq'):
            out[n] = ('const', g)
        else:
            out[n] = ('mutable', g)
    return out


def analyse(mod):
    W = watched(mod)
    E = Escape(mod)
    for n, (k, g) in W.items():
        if k == 'mutable':
            E.watch(n, False)
    hits = E.run() if E.globals else []
    return W, hits


def slice_args(f, o, defs, seen):
    """does operand o depend on an argument of f"""
    if type(o) is not int:
        return False
    if o < len(f.args):
        return True
    if o in seen:
        return False
    seen.add(o)
    ins = defs.get(o)
    if ins is None:
        return False
    if ins[0] == 'phi':
        return any(slice_args(f, x, defs, seen) for p, x in ins[4])
    if ins[0] == 'alloca':
        # values stored into the local object
        for b in f.blocks:
            for i2 in b:
                if i2[0] == 'store' and root(i2[5], defs) == o and slice_args(f, i2[4], defs, seen):
                    return True
        return False
    from merge import operands
    return any(slice_args(f, x, defs, seen) for x in operands(ins))


def root(o, defs):
    while type(o) is int:
        i = defs.get(o)
        if i is None or i[0] not in ('getelementptr', 'bitcast'):
            return o
        o = i[4] if i[0] == 'getelementptr' else i[4][0]
    return o


def frozen_statics(mod):
    """const function-local statics initialised from the data of the first caller"""
    out = []
    for n, (k, g) in watched(mod).items():
        if k != 'const':
            continue
        for f in mod.funcs.values():
            if f.decl:
                continue
            defs = {i[1]: i for b in f.blocks for i in b}
            for b in f.blocks:
                for ins in b:
                    vals = []
                    if ins[0] == 'store':
                        r = root(ins[5], defs)
                        if isinstance(r, list) and r[:2] == ['g', n]:
                            vals = [ins[4]]
                    elif ins[0] in ('call', 'invoke') and ins[5]:
                        r = root(ins[5][0], defs)
                        if isinstance(r, list) and r[:2] == ['g', n] and not str(ins[4]).startswith('__cxa_guard'):
                            vals = ins[5][1:]
                    if any(slice_args(f, v, defs, set()) for v in vals):
                        out.append((n, g, mod.loc(ins[3]) if ins[3] else f.dem, f))
    return out


def run(tier):
    C = Check('C20', tier, 'interprocedural effect analysis on LLVM IR: who writes to or leaks static-storage data',
              'All integrators are instantiated with every kind of template argument and configuration; every object with '
              'static storage duration defined by the library is classified (constant, const-qualified, thread-local, '
              'mutable) and every use of a mutable one, followed through calls, must be a read. Calls of C library '
              'functions with hidden shared state are violations too.')
    nf, ng, ncalls = 0, 0, 0
    seen = set()
    for h, d, m in modules():
        W, hits = analyse(m)
        lib = [f for f in m.funcs.values() if not f.decl and inrepo(f.file)]
        nf += len(lib)
        C.sample('%s %s: %d library functions' % (h, ' '.join(d) or 'default', len(lib)))
        for n, g in m.globals.items():
            p = gfile(g)
            if p and p.startswith(ir.REPO + '/') and not g['decl']:
                ng += 1
                C.ob('static-storage object is never written', True)
        for g, kind, loc, f in hits:
            k, gg = W[g]
            if f.dem.startswith('__cxx_global_var_init') or f.dem.startswith('_GLOBAL__sub_I'):
                continue
            nm = gg['dem']
            if (nm, kind) in seen:
                continue
            seen.add((nm, kind))
            C.ob('static-storage object is never written', False, 'static:' + nm, '%s (%s:%s) has static storage and is %s at %s in %s: '
                 'shared by all integrator objects' % (nm, os.path.relpath(gfile(gg), ir.REPO), gg['line'], kind, loc, f.dem), loc)
        for n, g, loc, f in frozen_statics(m):
            C.ob('static constants do not depend on one object', False, 'frozen:' + g['dem'],
                 '%s is initialised once, at %s, from the arguments of the first call of %s, and then used by all objects'
                 % (g['dem'], loc, f.dem), loc)
        for n, g in m.globals.items():
            p = gfile(g)
            if p and p.startswith(ir.REPO + '/') and g['tls']:
                C.ob('no thread-local state survives between objects', False, 'tls:' + g['dem'],
                     '%s is shared by all objects of a thread' % g['dem'], '%s:%s' % (p, g['line']))
        for f in lib:
            for b in f.blocks:
                for ins in b:
                    if ins[0] in ('call', 'invoke') and type(ins[4]) is str:
                        ncalls += 1
                        if ins[4] in HIDDEN:
                            C.ob('no hidden shared state', False, 'hidden:%s:%s' % (ins[4], f.dem),
                                 '%s calls %s' % (f.dem, ins[4]), m.loc(ins[3]))
    C.floor('library functions', nf, 1500)
    C.counts['calls inspected'] = ncalls
    C.obl += ncalls
    # positive examples
    with tempfile.TemporaryDirectory(dir=ir.BUILD) as d:
        src = os.path.join(d, 'p.cpp')
        open(src, 'w').write('struct S{ static int count; double tab[3]; double f(){ static double acc=0; acc+=1; return acc+(++count);} };\n'
                             'int S::count=0; double ext_tab[3]={1,2,3}; static void w(double*p){p[1]=0;}\n'
                             'double g(S&s){ w(ext_tab); return s.f(); }\n'
                             'double h(double*y){ static const double first=y[0]*2; return first; }\n')
        old = ir.REPO
        m = ir.compile_ir(src, [], 'c++14', [], incs=[])
        ir.REPO = d
        try:
            W, hits = analyse(m)
        finally:
            ir.REPO = old
        got = {W[g][1]['dem'] for g, k, l, f in hits}
        ir.REPO = d
        fr = frozen_statics(m)
        ir.REPO = old
        if len(got) != 3 or len(fr) != 1:
            raise ir.ToolError('positive examples not seen: %s %s' % (got, fr))
    return C.finish()
