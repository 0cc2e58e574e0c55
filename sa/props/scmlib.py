"""Structural causal models with given graphs and arbitrary mechanisms."""
import itertools

import terms as t
from drive import Ctx, S
from program import AnalysisError

NAMES = ('u', 'z', 'x', 'y')


def lit(c, v):
  """A Python literal in the state of an evaluation; terms stay as they are."""
  I, st = c.I, c.st
  if isinstance(v, t.T):
    return v
  if v is None:
    return t.NONE
  if isinstance(v, bool):
    return t.TRUE if v else t.FALSE
  if isinstance(v, str):
    return t.string(v)
  if isinstance(v, (int, float)):
    return t.num(v)
  if isinstance(v, dict):
    return I.new_dict(st, [(lit(c, k), lit(c, x)) for k, x in v.items()])
  if isinstance(v, list):
    return I.alloc(st, 'list', content=t.seq('list', [lit(c, x) for x in v]))
  if isinstance(v, tuple):
    return t.seq('tuple', [lit(c, x) for x in v])
  raise AnalysisError(f'no literal for {v!r}')


def graphs(names):
  """All the graphs in which the parents of a variable come before it.

  The parents are listed in different orders.
  """
  sets = []
  for i, _ in enumerate(names):
    before = names[:i]
    sets.append([tuple(p) for r in range(i + 1)
                 for p in itertools.combinations(before, r)])
  for k, ps in enumerate(itertools.product(*sets)):
    yield {v: list(p if (k + j) % 2 else reversed(p))
           for j, (v, p) in enumerate(zip(names, ps))}


def mechanism(v):
  """An arbitrary function that samples a variable."""
  return S(f'cpd_{v}', 'fn')


def model(c, parents, cov, treatment, response, names=None, cpds=None):
  """The arguments of the constructor."""
  names = list(names if names is not None else parents)
  return dict(
      name=t.string('scm'), var_names=lit(c, names), parents=lit(c, parents),
      cpds=lit(c, cpds if cpds is not None else {
          v: mechanism(v) for v in names}),
      cov_variables=lit(c, list(cov)), treatment_variable=lit(c, treatment),
      response_variable=lit(c, response))
