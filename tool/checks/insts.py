"""the instantiation harnesses: every public class with every kind of template argument"""
import os
from concurrent.futures import ThreadPoolExecutor
import ir

CONF = {'inst_radau': [[], ['ALIGN_BLOCKED'], ['LOGRADAU5'], ['DEBUG']],
        'inst_rodas': [[], ['ALIGN_BLOCKED'], ['LOGRODAS'], ['DEBUG']],
        'inst_rock4': [[], ['ALIGN_BLOCKED'], ['ALIGN_BLOCKED', 'LOGROCK4'], ['ALIGN_BLOCKED', 'ROCK4_OMP']],
        'inst_rock4l': [[], ['ALIGN_BLOCKED']],
        'inst_sdirk': [[], ['ALIGN_BLOCKED']],
        'inst_gauss': [[], ['ALIGN_BLOCKED']]}


def modules(only=None, passes='sroa'):
    ir.ensure_irdump()
    jobs = [(h, d) for h, ds in CONF.items() if only is None or h in only for d in ds]

    def one(j):
        h, d = j
        ex = ['-fopenmp'] if 'ROCK4_OMP' in d else []
        return h, d, ir.compile_ir(os.path.join(ir.VERIF, 'harness', h + '.cpp'), d, 'c++14', ['-femit-all-decls'] + ex, passes)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, jobs))


def inrepo(path):
    return path is not None and os.path.normpath(path).startswith(ir.REPO + '/')
