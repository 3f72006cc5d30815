"""C26: nothing depends on uninitialised data"""
from implicit import *
from safety import *
import suites
from engine_check import Obs, run_configs

TECH = 'abstract interpretation with definedness tracking (value-level, path-sensitive through BDD conditions and loop-head invariants on counters)'
EXPL = ('Every branch condition, right-hand side and linear-algebra argument, returned value and statistic is checked not to depend on memory that was never given a value, on every path from construction to return, in the first and in later calls.')


def analyse(c):
    o = Obs()
    a = suites.build(c)
    events(o, a, INIT, 'no use of uninitialised data')
    results_defined(o, a)
    count_calls(o, a, 'defined arguments')
    return o


def run(tier):
    return run_configs('C26', tier, TECH, EXPL, analyse, suites.configs(tier), suites.name, 800 if tier == 'thorough' else 240)
