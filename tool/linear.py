"""Evaluation of the map a linear step applies: terms over the user's linear operator A, or its resolvent, become functions of
one eigenvalue."""
import numpy as np
from terms import *
import terms as TM
LD = float
from scheme import Bad


def evaluate(v, env, ax=None, memo=None):
    """value of a term; env(atom) gives numbers or arrays for leaves, ax(atom, values of the arguments) for operator applications"""
    memo = {} if memo is None else memo

    def poly(v):
        if isnum(v):
            return LD(float(v))
        if type(v) is not Poly:
            raise Bad('not a number: %s' % str(v)[:60])
        k = v.id
        if k in memo:
            return memo[k]
        r = LD(0)
        for m, c in v.terms:
            t = LD(float(c))
            for a, e in m:
                x = at(TM.atoms[a])
                t = t * (x if e == 1 else x ** e)
            r = r + t
        memo[k] = r
        return r

    def bdd(n):
        while n > 1:
            var, lo, hi = TM._bn[n]
            kind, p = TM.bvars[var]
            if kind not in ('L', 'G', 'ilt'):
                raise Bad('condition not understood')
            x = poly(p)
            n = hi if (x > 0 if kind == 'G' else x < 0) else lo
        return n == 1

    def at(a):
        k = ('a', a.id)
        if k in memo:
            return memo[k]
        op = a.op
        if op == 'el':
            S = single(a.args[0])
            if S.op in ('AX', 'OP'):
                # diagonal operator: component i of the result from component i of the argument
                o = 1 if S.op == 'OP' else 0
                r = ax(S, poly(S.args[o + a.args[1]]), poly(S.args[0]) if o else None)
            else:
                raise Bad('unexpected vector %s' % S.op)
        elif op == 'ite':
            r = poly(a.args[1]) if bdd(a.args[0]) else poly(a.args[2])
        elif op == 'den' or op == 'abs':
            x = poly(a.args[0])
            r = abs(x) if op == 'abs' else x
        elif op in ('min', 'max'):
            r = (min if op == 'min' else max)(poly(x) for x in a.args)
        elif op == 'sqrt':
            r = poly(a.args[0]) ** .5
        else:
            r = env(a)
            if r is None:
                raise Bad('the step depends on %s' % show(a.pol, 1)[:60])
        memo[k] = r
        return r
    return poly(v)


def taylor(f, n=12, r=0.5):
    """Taylor coefficients of an analytic function given on arrays"""
    N = 64
    z = r * np.exp(2j * np.pi * np.arange(N) / N)
    c = np.fft.fft(f(z)) / N
    return [(c[k] / r**k).real for k in range(n)]
