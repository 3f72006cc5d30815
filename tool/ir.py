"""Loading of LLVM IR (through build/irdump) and per-function CFG facts."""
import json
import os
import struct
import subprocess
import hashlib
import mpmath

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ODES_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
INC = ['common/include', 'Radau5-NG/include', 'Rodas-NG/include', 'Rock4-NG/include',
       'Rock4-L/include', 'SDIRKL/include', 'SymplecticRK/include', 'SymplecticRK/sage']


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def ensure_irdump():
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'irdump')
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    flags = sh(['llvm-config-18', '--cxxflags']).stdout.split()
    ld = sh(['llvm-config-18', '--ldflags']).stdout.split()
    tmp = exe + '.%d' % os.getpid()
    r = sh(['clang++-18', '-O0'] + flags + ['-fno-exceptions', '-w', src, '-o', tmp] + ld + ['-lLLVM-18'])
    if r.returncode:
        raise ToolError('irdump does not build: ' + r.stderr[:2000])
    os.replace(tmp, exe)
    return exe


def compile_ir(harness, defs=(), std='c++14', extra=(), passes='sroa', incs=INC, lang=None):
    """compile a harness TU against /repo's current headers; return Module"""
    exe = ensure_irdump()
    import tempfile
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        ll = os.path.join(d, 'a.bc')
        cmd = ['clang++-18', '-std=' + std, '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-emit-llvm', '-c',
               '-ffp-contract=off', '-DGCC', '-w']
        cmd += ['-D' + x for x in defs] + ['-I' + os.path.join(REPO, x) for x in incs]
        cmd += ['-I' + os.path.join(VERIF, 'harness')] + list(extra) + [harness, '-o', ll]
        r = sh(cmd)
        if r.returncode:
            raise ToolError('harness %s does not compile:\n%s' % (os.path.basename(harness), r.stderr[:3000]))
        ll2 = os.path.join(d, 'b.bc')
        if passes:
            r = sh(['opt-18', '-passes=' + passes, ll, '-o', ll2])
            if r.returncode:
                raise ToolError('opt failed: ' + r.stderr[:2000])
        else:
            ll2 = ll
        r = subprocess.run([exe, ll2], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise ToolError('irdump failed: ' + r.stderr.decode()[:2000])
        return Module(json.loads(r.stdout), ' '.join(cmd))


def decode_fp(ty, hexs):
    n = int(hexs, 16)
    if ty == 'double':
        return struct.unpack('<d', n.to_bytes(8, 'little'))[0]
    if ty == 'float':
        return struct.unpack('<f', n.to_bytes(4, 'little'))[0]
    if ty == 'x86_fp80':
        mant = n & ((1 << 64) - 1)
        e = (n >> 64) & 0x7fff
        s = -1 if (n >> 79) & 1 else 1
        if mant == 0:
            return mpmath.mpf(0)
        return s * mpmath.ldexp(mpmath.mpf(mant), e - 16383 - 63)
    raise ToolError('float type ' + ty)


class Func:
    pass


class Module:
    def __init__(self, js, cmd):
        self.cmd = cmd
        self.globals = js['globals']
        self.files = js['files']
        self.records = js['records']
        self.funcs = {}
        for name, f in js['functions'].items():
            o = Func()
            o.name = name
            o.dem = f['dem']
            o.decl = f['decl']
            o.linkage = f['linkage']
            o.args = f['args']
            o.blocks = f['blocks']
            o.ret = f['ret']
            o.comdat = f.get('comdat')
            o.nounwind = f['nounwind']
            o.noreturn = f['noreturn']
            o.file = js['files'][f['file']] if 'file' in f else None
            o.line = f.get('line')
            o.short = f.get('name')
            o.artificial = f.get('artificial')
            o.cfg = None
            self.funcs[name] = o

    def fileof(self, fid):
        return self.files[fid]

    def loc(self, d):
        if not d:
            return '?'
        f = os.path.normpath(self.files[d[1]])
        if f.startswith(REPO + '/'):
            f = f[len(REPO) + 1:]
        elif f.startswith('/repo/'):
            f = f[6:]
        return '%s:%d' % (f, d[0])

    def cfg(self, f):
        if f.cfg is None:
            f.cfg = CFG(f)
        return f.cfg


def succs(ins):
    op = ins[0]
    if op == 'br':
        return [ins[5]] if ins[4] is None else [ins[5], ins[6]]
    if op == 'switch':
        return [ins[5]] + [c[1] for c in ins[6]]
    if op == 'invoke':
        return [ins[6], ins[7]]
    return []


class CFG:
    def __init__(self, f):
        n = len(f.blocks)
        self.succ = [list(dict.fromkeys(succs(b[-1]))) for b in f.blocks]
        # rpo
        seen = set()
        post = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(self.pred[x])
        self.order = {}
        for h, body in self.loops.items():
            self.order[h] = [b for b in self.rpo if b in body]
        # innermost loop of each block
        self.inner = {}
        for b in self.rpo:
            best = None
            for h, body in self.loops.items():
                if b in body and (best is None or len(body) < len(self.loops[best])):
                    best = h
            self.inner[b] = best

    def _inter(self, idom, a, b):
        while a != b:
            while self.idx[a] > self.idx[b]:
                a = idom[a]
            while self.idx[b] > self.idx[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.rpo[0]:
                return False
            b = self.idom[b]
