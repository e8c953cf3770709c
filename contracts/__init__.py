"""Registry of contracts and property lemmas.

A lemma is a function of a context c.  It draws inputs from c, calls the code of
/repo, and states what must hold.  The same text is used twice: with symbolic
inputs, where every statement becomes a proof obligation over all inputs, and
with concrete inputs, where it is evaluated by CPython on the real code (replay
of counterexamples, cross-check of the generator, bounded stand-in).
"""
import importlib

LEMMAS = {}       # property -> [Lemma]
CONTRACTS = {}    # function id -> Contract

PROPERTIES = ['C%02d' % i for i in range(1, 21)]


class Lemma(object):

  def __init__(self, prop, fn, functions, sym, cases, weight, budget, uses, bounded):
    self.prop = prop
    self.fn = fn
    self.name = fn.__name__
    self.text = ' '.join((fn.__doc__ or '').split())
    self.functions = functions
    self.sym = sym
    self.cases = cases
    self.weight = weight
    self.budget = budget
    self.uses = uses
    self.bounded = bounded


class Contract(object):

  def __init__(self, fid, spec, domain, pre, verify):
    self.fid = fid
    self.verify = verify
    self.spec = spec
    self.domain = domain
    self.pre = pre
    self.text = ' '.join((spec.__doc__ or '').split())


def lemma(prop, functions=(), sym=True, cases=60, weight=1, budget=120, uses='*', bounded=''):
  """functions: functions of /repo the lemma is about; sym: also run with
  symbolic inputs; cases: concrete cases in the quick tier; uses: which
  contracts replace calls ('*' = all except the functions of the lemma)."""
  def deco(fn):
    LEMMAS.setdefault(prop, []).append(
        Lemma(prop, fn, list(functions), sym, cases, weight, budget, uses, bounded))
    return fn
  return deco


def contract(fid, domain, pre=None, verify=None):
  """verify(c, run, args, spec): how the body is verified, if not by comparing the results."""
  def deco(fn):
    CONTRACTS[fid] = Contract(fid, fn, domain, pre, verify)
    return fn
  return deco


def load(prop):
  importlib.import_module('contracts.fn')
  importlib.import_module('contracts.' + prop.lower())
  return LEMMAS.get(prop, [])
