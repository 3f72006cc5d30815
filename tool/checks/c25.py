"""C25: accesses inside arrays"""
from implicit import *
from safety import *
import suites
from engine_check import Obs, run_configs

TECH = 'abstract interpretation with object-exact pointers: every load, store and library access is checked against the size of the block'
EXPL = ('Every memory access executed abstractly (construction, configuration, integration with all histories, loops at fixpoints) hits the block its pointer was derived from inside its bounds.')


def analyse(c):
    o = Obs()
    a = suites.build(c)
    events(o, a, BOUNDS, 'access inside its array')
    count_calls(o, a, 'arguments inside arrays')
    o.ob('instructions checked', True)
    return o


def run(tier):
    return run_configs('C25', tier, TECH, EXPL, analyse, suites.configs(tier), suites.name, 800 if tier == 'thorough' else 240)
