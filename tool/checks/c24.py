"""C24: every block released exactly once by the matching routine"""
from implicit import *
from safety import *
from engine_check import Obs, run_configs

TECH = 'abstract interpretation with an allocation-site typestate (owned / released, by which routine) on every normal and exceptional exit'
EXPL = ('Each integrator is constructed, configured, run (all histories, loops at fixpoints) and destroyed symbolically; every exceptional exit of a run is '
        'followed by the destructor too. Every block must then be released, once, by the routine matching its allocation.')


def analyse(c):
    o = Obs()
    if 'own' in c:
        import owning
        owning.check(o, owning.TYPES[c['own']])
        return o
    a = scenario(c)
    ownership(o, a)
    return o


def configs(tier):
    out = [mk(), mk(method=2, aut=False, n=4, sub=1, sup=2), mk(which='radau', nit=2), mk(which='radau', nit=2, n=4, sub=1, sup=2), mk(n=3, hess=True, stub=True),
           mk(scen='twice'), mk(which='radau', nit=2, scen='twice'), mk(numj=True)]
    if tier == 'thorough':
        out += [mk(which='radau'), mk(which='radau', numj=True), mk(which='radau', n=4, sub=1, sup=2), mk(which='radau', n=3, hess=True, stub=True), mk(hess=True)]
    return out


def name(c):
    if 'own' in c:
        import owning
        return 'object ' + owning.TYPES[c['own']][0]
    return cfgname(c)


def run(tier):
    import owning
    return run_configs('C24', tier, TECH, EXPL, analyse, configs(tier) + [dict(own=i) for i in range(len(owning.TYPES))], name, 800 if tier == 'thorough' else 200)
