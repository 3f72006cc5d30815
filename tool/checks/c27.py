"""C27: promises to the compiler"""
from implicit import *
from safety import *
import suites
from engine_check import Obs, run_configs

TECH = 'abstract interpretation: overlap of the objects behind restrict-qualified parameters, and alignment assumptions'
EXPL = ('At every call with restrict-qualified pointer parameters the arguments reaching it on any path point to different arrays if one of them is written during the call; alignment assumptions hold for the address actually used; memcpy ranges do not overlap.')


def analyse(c):
    o = Obs()
    a = suites.build(c)
    events(o, a, PROMISE, 'promises hold')
    for k in range(a.r.I.__dict__.get('nrestrict', 0)):
        o.ob('restrict parameter checked')
    count_calls(o, a, 'call')
    return o


def run(tier):
    return run_configs('C27', tier, TECH, EXPL, analyse, suites.configs(tier), suites.name, 800 if tier == 'thorough' else 240)
