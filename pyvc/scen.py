"""Scenario registry shared by the symbolic verifier and the concrete runner.

A scenario is a function of one argument V.  It declares universally
quantified variables (V.var, V.pvar), builds arguments, calls functions of the
code under verification through V.call and states postconditions (V.eq, ...).
The same text is used twice:
  * symbolically (verify.py): every path of the real source is executed with
    symbolic values; each stated postcondition on each path is an obligation;
  * concretely (concrete.py, CPython + the installed numpy): the variables are
    given random values; used to replay counterexamples and as a cross check.
"""
SCENARIOS = []


class Scenario:
    def __init__(self, pid, name, fn, **opts):
        self.pid, self.name, self.fn, self.opts = pid, name, fn, opts
        self.key = pid + ':' + name


def scenario(pid, name, **opts):
    def deco(fn):
        SCENARIOS.append(Scenario(pid, name, fn, **opts))
        return fn
    return deco


class Skip(Exception):
    """sample rejected (an assumption is false)"""


# call-site contracts: qualname -> fn(V-independent helpers, bound args)
CALL_CONTRACTS = {}
# uninterpreted function symbols: name -> closed form (terms -> term)
UNFOLD = {}


# function symbols known by contract only: name -> fn(get, *floats) -> float,
# used on the concrete side (get(qual) is the real function); symbolically the
# symbol is uninterpreted and evaluated as some fixed smooth function
OPAQUE = {}


def opaque(name, conc):
    OPAQUE[name] = conc


def call_contract(qual):
    def deco(fn):
        CALL_CONTRACTS[qual] = fn
        return fn
    return deco


def spec_function(name):
    """declare an uninterpreted function symbol with its closed form"""
    def deco(fn):
        UNFOLD[name] = fn
        return fn
    return deco


def load_all(dirname=None):
    import importlib
    import os
    import sys
    d = dirname or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
    root = os.path.dirname(d)
    if root not in sys.path:
        sys.path.insert(0, root)
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('contracts.' + f[:-3])
    return SCENARIOS
