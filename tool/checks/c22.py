"""C22: linkage of everything the library headers define, stand-alone compilation of every header."""
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import ir
from report import Check

CONFIGS = [('default', []), ('aligned', ['-DALIGN_BLOCKED']),
           ('logging', ['-DLOGRADAU5', '-DLOGRODAS', '-DLOGROCK4']),
           ('openmp', ['-DALIGN_BLOCKED', '-DROCK4_OMP', '-fopenmp'])]
# left-over drafts no other file includes (unterminated #ifndef, header of another project): not public headers
ABANDONED = ('Rock4-L/include/rock4.hpp', 'SymplecticRK/include/extrap.hpp')
STRONG = {0}            # llvm ExternalLinkage


def headers():
    out = []
    for top in sorted(os.listdir(ir.REPO)):
        for sub in ('include', 'sage'):
            d = os.path.join(ir.REPO, top, sub)
            if os.path.isdir(d):
                for f in sorted(os.listdir(d)):
                    if f.endswith(('.hpp', '.h')):
                        out.append(os.path.join(d, f))
    return out


def guarded(path):
    t = open(path, errors='replace').read()
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    t = re.sub(r'//[^\n]*', '', t)
    if re.search(r'^\s*#\s*pragma\s+once', t, re.M):
        return True
    m = re.match(r'\s*#\s*(?:ifndef\s+(\w+)|if\s+!\s*defined\s*\(?\s*(\w+)\s*\)?)', t)
    if not m:
        return False
    g = m.group(1) or m.group(2)
    return re.search(r'#\s*define\s+' + g + r'\b', t) is not None


def incs(first):
    l = [first] + [os.path.join(ir.REPO, x) for x in ir.INC if x != first]
    return ['-I' + x for x in l]


def run(tier):
    C = Check('C22', tier, 'linkage query over the LLVM IR of every header, compiled alone with all its declarations emitted',
              'Every header is compiled alone, in every configuration, by both compilers; every function and object '
              'definition it produces (inline ones included) is enumerated in the IR and must not be a strong external '
              'symbol; one name may come from one place only, over all headers; all headers together in both orders.')
    ir.ensure_irdump()
    hs = headers()
    full = [h for h in hs if guarded(h) and os.path.relpath(h, ir.REPO) not in ABANDONED]
    C.floor('headers', len(full), 30)
    C.sample('headers: ' + ' '.join(os.path.relpath(h, ir.REPO) for h in full))
    C.sample('textual fragments (no include guard): ' + ' '.join(os.path.relpath(h, ir.REPO) for h in hs if h not in full))
    origin = {}
    ndef = [0]
    with tempfile.TemporaryDirectory(dir=ir.BUILD) as d:
        def one(job):
            i, h, (cn, opts) = job
            src = os.path.join(d, 't%d.cpp' % i)
            with open(src, 'w') as f:
                f.write('#include "%s"\n' % h)
            base = ['-std=c++14', '-DGCC', '-w'] + incs(os.path.dirname(h)) + opts
            r = ir.sh(['g++', '-fsyntax-only'] + base + [src])
            r2 = ir.sh(['clang++-18', '-fsyntax-only'] + base + [src])
            mod = None
            err = None
            if r2.returncode == 0:
                try:
                    mod = ir.compile_ir(src, [], 'c++14', ['-femit-all-decls'] + base[1:], passes=None, incs=[])
                except ir.ToolError as e:
                    err = str(e)
            return h, cn, r, r2, mod, err
        jobs = [(i, h, c) for i, (h, c) in enumerate((h, c) for h in full for c in CONFIGS)]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
        for h, cn, r, r2, mod, err in res:
            rel = os.path.relpath(h, ir.REPO)
            for nm, x in (('g++', r), ('clang++', r2)):
                C.ob('header compiles alone', x.returncode == 0, 'alone:%s:%s' % (rel, cn),
                     '%s included alone (%s, %s) does not compile: %s' % (rel, cn, nm, x.stderr[:300]), rel)
            if mod is None:
                if err:
                    raise ir.ToolError(err)
                continue
            for n, f in mod.funcs.items():
                if f.decl or not f.file:
                    continue
                p = os.path.normpath(f.file)
                if not p.startswith(ir.REPO + '/'):
                    continue
                ndef[0] += 1
                where = '%s:%s' % (os.path.relpath(p, ir.REPO), f.line)
                C.ob('function definition in a header is not a strong symbol', f.linkage not in STRONG,
                     'strong:' + f.dem, '%s is defined in %s with external linkage and without inline: two source '
                     'files including %s do not link' % (f.dem, where, rel), where)
                if f.linkage not in (7, 8):
                    origin.setdefault((cn, n), {}).setdefault(p, (f.dem, where))
            for n, g in mod.globals.items():
                if g['decl'] or 'file' not in g:
                    continue
                p = g['file'] if g['file'].startswith('/') else os.path.join(g['dir'], g['file'])
                p = os.path.normpath(p)
                if not p.startswith(ir.REPO + '/'):
                    continue
                ndef[0] += 1
                where = '%s:%s' % (os.path.relpath(p, ir.REPO), g['line'])
                C.ob('object definition in a header is not a strong symbol', g['linkage'] not in STRONG,
                     'strong:' + g['dem'], '%s is defined in %s with external linkage' % (g['dem'], where), where)
                if g['linkage'] not in (7, 8):
                    origin.setdefault((cn, n), {}).setdefault(p, (g['dem'], where))
        for (cn, n), ps in sorted(origin.items()):
            C.ob('one definition place per symbol', len(ps) == 1, 'odr:' + n,
                 '%s is defined in several places: %s' % (list(ps.values())[0][0], ', '.join(w for _, w in ps.values())))
        # all headers in one translation unit, both orders
        pub = full
        for cn, opts in CONFIGS:
            for nm, l in (('forward', pub), ('backward', pub[::-1])):
                src = os.path.join(d, 'all_%s_%s.cpp' % (cn, nm))
                with open(src, 'w') as f:
                    for h in l:
                        f.write('#include "%s"\n' % h)
                r = ir.sh(['clang++-18', '-fsyntax-only', '-std=c++14', '-DGCC', '-w', '-ferror-limit=3'] + incs(os.path.dirname(l[0])) + opts + [src])
                C.ob('all headers together', r.returncode == 0, 'all:%s:%s' % (cn, nm),
                     'all headers included in one file (%s, %s order) do not compile: %s' % (cn, nm, r.stderr[:300]))
        # the rule must see a strong symbol
        t = os.path.join(d, 'pos.hpp')
        open(t, 'w').write('int strong_one(){return 1;}\ninline int weak_one(){return 2;}\nint strong_obj=3;\n')
        src = os.path.join(d, 'pos.cpp')
        open(src, 'w').write('#include "%s"\n' % t)
        m = ir.compile_ir(src, [], 'c++14', ['-femit-all-decls'], passes=None, incs=[])
        st = sorted([f.short for f in m.funcs.values() if not f.decl and f.linkage in STRONG] +
                    [n for n, g in m.globals.items() if not g['decl'] and g['linkage'] in STRONG])
        if st != ['strong_obj', 'strong_one']:
            raise ir.ToolError('positive example not seen: %s' % st)
    C.floor('definitions', ndef[0], 400)
    C.counts['definitions enumerated'] = ndef[0]
    return C.finish()
