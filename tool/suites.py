"""The configurations on which the memory and calling-convention checks run."""
from implicit import *


def configs(tier):
    out = [mk(which='radau', nit=2), mk(which='radau', n=4, sub=1, sup=2, nit=2, numj=True), mk(which='radau', n=3, hess=True, stub=True, nit=2),
           mk(which='radau', n=4, sub=2, sup=1, nit=2, scen='twice'),
           mk(n=3, hess=True, stub=True), mk(n=4, sub=1, sup=2, method=2, aut=False), mk(method=3, aut=False, dft=True, numj=True),
           mk(method=1, scen='twice'), mk(n=4, sub=2, sup=1, numj=True, method=3, scen='twice')]
    if tier == 'thorough':
        out += [mk(which='radau'), mk(hess=True), mk(which='radau', numj=True), mk(which='radau', n=4, sub=1, sup=2), mk(which='radau', n=3, hess=True, stub=True), mk(which='radau', n=3),
                mk(which='radau', n=5, sub=2, sup=1, nit=2), mk(n=5, sub=1, sup=3), mk(n=3), mk(n=3, numj=True), mk(which='radau', scen='twice'),
                mk(n=1), mk(which='radau', n=1)]
    return out


def build(c):
    return scenario(c)


def name(c):
    return cfgname(c)
