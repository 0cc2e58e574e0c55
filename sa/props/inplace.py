"""In-place modifications of what functions and objects were given."""
import ast

from owner import Ownership
from program import AnalysisError

# The functions that users call, by module or class.  Others are helpers if the
# package calls them: what they modify counts where they are called.
API = {
    'arms.BootstrapArm': '__init__ get_num_units update'.split(),
    'arms.SampleSplittingArm': '__init__ get_num_units reset update'.split(),
    'arms.VarianceEstimatorArm': ('__init__ ate ci eta get_num_units name num_pulled reset update '
        'var_est ').split(),
    'bandits.BAIBanditAlgorithm': '__init__ collect_bounds reset'.split(),
    'bandits.LUCBAlgorithm': '__init__ run select_arms'.split(),
    'bandits.SuccessiveEliminationAlgorithm': '__init__ run'.split(),
    'bandits.UniformAlgorithm': 'run'.split(),
    'data': ('get_coordinate_mask_fn get_identity_fn get_remove_coordinates_fn ').split(),
    'data.DataGenerator': '__init__ generate'.split(),
    'data.ExpData': ('__getitem__ __init__ __len__ __str__ append k_fold subsample ').split(),
    'data.LinearDataGenerator': '__init__ beta gamma generate tau'.split(),
    'data.TabularCPD': ('__init__ __str__ fit predict support_size x_support z_support ').split(),
    'example_scm': 'back_door_scm frontdoor_scm'.split(),
    'nonlinear_utils': 'generate_random_nd_function softmax'.split(),
    'paper_utils': ('generate_example_from_cpd get_section_5_1_cpds '
        'get_section_5_1_example get_section_5_2_cpds '
        'get_section_5_2_example softmax ').split(),
    'parameters.AIPW': ('__init__ calculate_cs_width calculate_score fit has_enough_samples '
        'reset set_to_truth transform ').split(),
    'parameters.AIPWKernelGradientBoosting': '__init__'.split(),
    'parameters.AIPWKernelRidgeLogistic': '__init__'.split(),
    'parameters.AIPWLinearLogistic': ('__init__ get_response_parameters ').split(),
    'parameters.FrontDoorLinearFiniteZ': ('__init__ calculate_cs_width calculate_score fit has_enough_samples '
        'reset transform ').split(),
    'parameters.LinearParameterBinaryTreatment': ('__init__ calculate_score fit has_enough_samples reset set_to_truth '
        'transform ').split(),
    'parameters.LinearRegressionParameter': ('__init__ calculate_score fit has_enough_samples reset transform ').split(),
    'parameters.NuisanceParameter': ('calculate_cs_width calculate_score fit has_enough_samples reset '
        'set_to_truth transform ').split(),
    'parameters.Predictor': 'fit predict'.split(),
    'parameters.ProbPredictor': 'fit predict_proba'.split(),
    'plotting_utils': 'plot_3d_function plot_bandit_results'.split(),
    'scm': ('add_gaussian_noise categorical_conditioning deterministic_cpd '
        'logistic_bernoulli_cpd logistic_linear_bernoulli_cpd normal_cpd '
        'structural_equation_with_noise transformed_normal_cpd ').split(),
    'scm.SCM': '__init__ compute_treatment_effect generate'.split(),
    'test_utils': 'estimate_true_variance run_single_arm softmax'.split(),
}


def internal(f):
  """A method of a class of the package's own."""
  owner = f.qual.rsplit('.', 1)[0]
  return owner.split('.')[-1].startswith('_') and owner not in API


def helper(prog, o, f):
  if f.outer is not None:
    # only called, so not handed out
    name = getattr(f.node, 'name', None)
    calls = {id(x.func) for x in ast.walk(f.outer.node) if isinstance(x, ast.Call)}
    uses = [x for x in ast.walk(f.outer.node)
            if isinstance(x, ast.Name) and x.id == name]
    return bool(uses) and all(id(x) in calls for x in uses)
  if internal(f):
    return True
  owner = f.qual.rsplit('.', 1)[0]
  if f.name in API.get(owner, []) or f.name.startswith('__'):
    return False
  if any(f.name in API.get(c.qual, []) for c in (
      f.cls.mro() if f.cls is not None else ())):
    return False
  return any(isinstance(x, ast.Call) and f.name in (
      getattr(x.func, 'attr', None), getattr(x.func, 'id', None))
             for m in prog.modules.values() for x in ast.walk(m.tree))


_own = {}


def ownership(prog):
  if id(prog) not in _own:
    _own[id(prog)] = Ownership(prog)
  return _own[id(prog)]


def findings(prog):
  """(function, given, held, module-level, own): what each modifies in place."""
  o = ownership(prog)
  held = {}
  for (c, attr), src in o.borrowed.items():
    held.setdefault(attr, []).append((c, src))
  for f in o.fns:
    me = f.params[0] if f.cls is not None and f.params and \
        f.name not in f.cls.static else None
    bad, glob, kept, own = [], [], [], []
    for r, l in f.muts.items():
      if r.startswith('global '):
        glob.append((r, l[0]))
      elif '.' in r:
        own.append((r, l[0]))
        attr = r.split('.', 1)[1]
        for c, src in held.get(attr, []):
          if f.cls is not None and (f.cls.is_subclass(c) or c.is_subclass(f.cls)):
            kept.append((r, l[0], src[0]))
      elif r != me:
        bad.append((r, l[0]))
      else:
        own.append((r, l[0]))
    if bad and helper(prog, o, f):
      bad = []
    if internal(f):
      kept = []
    yield f, bad, kept if me is not None else None, glob, own


def given(bad):
  return '; '.join(f'line {l}: {what} (storage of the argument {r})'
                   for r, (l, what) in bad)


def lent(kept):
  return '; '.join(f'line {l}: {what} ({r} is the {s[1]} given to {s[0]})'
                   for r, (l, what), s in kept)


def storage(rep, prog, places, least, pure=()):
  """The functions of the places (modules or classes) keep what they are given.

  Those named in pure do not modify storage of their own object either.
  """
  rep.rule('storage', 'no storage that is given to a function or object is '
           'modified in place', least)
  for f, bad, kept, _, own in findings(prog):
    if not any((f.qual + '.').startswith(p + '.') for p in places):
      continue
    rep.check('storage', f.qual, not bad and not kept,
              '; '.join(x for x in (given(bad), lent(kept or [])) if x))
    if f.name in pure and f.outer is None:
      rep.check('storage', f.qual + ' [own]', not own, '; '.join(
          f'line {l}: {what} (storage of {r})' for r, (l, what) in own))
