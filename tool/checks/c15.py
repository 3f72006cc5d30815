"""C15: consistent linear-algebra calls"""
from implicit import *
from safety import *
import suites
from engine_check import Obs, run_configs

TECH = 'abstract interpretation with models of the LAPACK and Hessenberg calls that check every argument against the array it points to'
EXPL = ('Every LAPACK call reached on any path (all loops at fixpoints, symbolic state, step and pivots) is checked: dimensions, bandwidths and leading dimensions are constants that fit the block passed, the factors, pivots and layout given to a solve are those one factorisation of the same kind left there, and every entry of the factorised matrix has been set.')


def analyse(c):
    o = Obs()
    a = suites.build(c)
    events(o, a, LA, 'linear-algebra arguments fit')
    events(o, a, ('undef-arg',), 'linear-algebra arguments fit', lambda e: not callback(e))
    for e in a.r.I.events:
        if e['kind'] in ('factor', 'solve'):
            o.ob('%s call with fitting arguments' % e['kind'])
    return o


def run(tier):
    return run_configs('C15', tier, TECH, EXPL, analyse, suites.configs(tier), suites.name, 800 if tier == 'thorough' else 240)
