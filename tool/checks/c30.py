"""C30: callbacks get initialised, non-overlapping vectors"""
from implicit import *
from safety import *
import suites
from engine_check import Obs, run_configs

TECH = 'abstract interpretation: arguments of every user callback checked for definedness, size and overlap'
EXPL = ('At every call of a user function (right-hand side, Jacobian, time derivative, spectral radius, linear operator) on any path, each input component is defined, the output block has the length of the problem and does not overlap an input; what the output held before never influences a result (it counts as undefined until written).')


def analyse(c):
    o = Obs()
    a = suites.build(c)
    events(o, a, CALLBACK, 'callback arguments', callback)
    events(o, a, ('out-of-bounds',), 'callback arguments', lambda e: 'prob_' in str(e['loc']))
    count_calls(o, a, 'callback')
    return o


def run(tier):
    return run_configs('C30', tier, TECH, EXPL, analyse, suites.configs(tier), suites.name, 800 if tier == 'thorough' else 240)
