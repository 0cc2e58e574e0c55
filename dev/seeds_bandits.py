B = 'bandits.py'
ARM = '''
import numpy as np
from causal_effect_bandits import arms, bandits, data, example_scm


class FakeArm(arms.VarianceEstimatorArm):
  """Constant estimate; interval of half-width width(n)."""

  def __init__(self, name, var, width, cost=1):
    self._name, self._var_est, self.width, self.cost = name, var, width, cost
    self.n, self.deltas, self.batches = 0, [], []
    self._ci = (0, np.inf)

  def update(self, new_data, delta):
    self.n += len(new_data)
    self.deltas.append(delta)
    self.batches.append(new_data)
    w = self.width(self.n)
    self._ci = (self._var_est - w, self._var_est + w)
    return self._ci

  def get_num_units(self):
    return self.n


GEN = example_scm.frontdoor_scm()[0]
'''
SEEDS = [
('b01-delta-of-survivors', 'B01', [(B, """        arm.update(new_samples, self.error_prob / len(self._arms))

      total_samples += len(candidate_arms)""", """        arm.update(new_samples, self.error_prob / len(candidate_arms))

      total_samples += len(candidate_arms)""")],
 'an elimination followed by another round',
 'after an elimination the surviving arms get error_prob / survivors, so the union bound over all the arms no longer holds',
 ARM + '''
al = [FakeArm('a', 1., lambda n: 20 / n), FakeArm('b', 1.9, lambda n: 20 / n),
      FakeArm('c', 6., lambda n: 20 / n)]
bandits.SuccessiveEliminationAlgorithm(al, GEN, error_prob=.06, confidence=.05,
                                       sample_limit=2000,
                                       units_per_round=10).run()
assert len(al[0].deltas) > len(al[2].deltas)
for a in al:
  assert np.allclose(a.deltas, .02), (a._name, a.deltas)
'''),
('b06-bar-of-any-arm', 'B06', [(B, '''          for i, arm in enumerate(candidate_arms)
          if low_var_mask[i]
      ])''', '''          for i, arm in enumerate(candidate_arms)
          if low_var_mask[i] or lcb_by_arm[arm][-1] > lowest_var
      ])''')],
 'an arm whose lower bound is above the lowest variance estimate and whose upper bound is below that of the leader',
 'arms are eliminated by the upper bound of an arm that is not the leader',
 ARM + '''
W = {'a': 9., 'b': .5, 'c': .5}
al = [FakeArm(c, v, lambda n, c=c: W[c]) for c, v in
      (('a', 1.), ('b', 2.), ('c', 4.))]
r = bandits.SuccessiveEliminationAlgorithm(al, GEN, confidence=.05,
                                           sample_limit=100,
                                           units_per_round=10).run()
assert r.samples_by_arm[al[2]] == r.samples_by_arm[al[0]], r.samples_by_arm
'''),
('b09-lucb-shares-batch', 'B09', [(B, """      for arm in arms_to_update:
        if not stable_order:
          new_samples = self._prob_model.generate(self.units_per_round)
        else:
          n_start""", """      for arm in arms_to_update:
        if stable_order:
          n_start""")],
 'a LUCB run on generated data with more than one round',
 'LUCB keeps giving the arms the batch that was generated before the first round, so the samples of different rounds are not independent',
 ARM + '''
al = [FakeArm(str(i), 1. + i, lambda n: 30 / n) for i in range(3)]
bandits.LUCBAlgorithm(al, GEN, confidence=.05, sample_limit=200,
                      units_per_round=10).run()
for a in al:
  assert len({id(b) for b in a.batches}) == len(a.batches), a._name
'''),
('b05-some-ucb-infinite', 'B05', [(B, """    if any(np.isinf(ucbs)):  # one of the ucbs is infinity
      return (False, [])
""", """    if all(np.isinf(ucbs)):  # no arm has a bound yet
      return (False, [])
""")],
 'one arm that has not enough samples while the others have',
 'a run ends although the interval of some arm is still infinite', ARM + '''
al = [FakeArm('a', 1., lambda n: 1. / n), FakeArm('b', 5., lambda n: 1. / n),
      FakeArm('c', 9., lambda n: 1. / n if n > 40 else np.inf)]
al[2].update_ = al[2].update
def upd(d, delta):
  al[2].update_(d, delta)
  if al[2].n <= 40:
    al[2]._ci = (9., np.inf)
al[2].update = upd
r = bandits.UniformAlgorithm(al, GEN, confidence=.05, sample_limit=10**4,
                             units_per_round=10).run()
assert not np.isinf([r.ucb_by_arm[a][-1] for a in al]).any()
'''),
('b03-total-after-trim', 'B03', [(B, '''      total_samples += len(candidate_arms) * self.units_per_round

      # Record the arm outputs
      cum_samples.append(total_samples)
''', '''      # Record the arm outputs
'''), (B, '''      # Check end condition
      if len(candidate_arms) == 1:
        break
''', '''      total_samples += len(candidate_arms) * self.units_per_round
      cum_samples.append(total_samples)

      # Check end condition
      if len(candidate_arms) == 1:
        break
''')],
 'a round in which an arm is eliminated',
 'the samples of the arms eliminated in a round are missing from the cumulative count',
 ARM + '''
al = [FakeArm('a', 1., lambda n: 20 / n), FakeArm('b', 4., lambda n: 20 / n),
      FakeArm('c', 6., lambda n: 20 / n)]
r = bandits.SuccessiveEliminationAlgorithm(al, GEN, confidence=.05,
                                           sample_limit=2000,
                                           units_per_round=10).run()
tot = sum(np.cumsum(r.samples_by_arm[a]) for a in al)
assert list(tot) == list(r.cum_samples), (list(tot), r.cum_samples)
'''),
('b07-leader-lowest-ucb', 'B07', [(B, "    high_ucb = max(ucbs[best_arm_mask])", "    high_ucb = min(ucbs[best_arm_mask])")],
 'two arms that share the lowest variance estimate but have different upper bounds',
 'LUCB samples the leader that needs it least', ARM + '''
al = [FakeArm('a', 1., None), FakeArm('b', 1., None), FakeArm('c', 3., None)]
for a, ci in zip(al, [(0., 3.), (.5, 1.5), (.2, 8.)]):
  a._ci = ci
b = bandits.LUCBAlgorithm(al, GEN, confidence=.05, sample_limit=200)
assert [a._name for a in b.select_arms()] == ['a', 'c']
'''),
('b02-unscaled-bound', 'B02', [(B, '''      # Record the arm outputs
      for arm in self._arms:
        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(self.units_per_round if''', '''      # Record the arm outputs
      for arm in self._arms:
        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(self.units_per_round if''')],
 'a LUCB run with an arm whose cost is not one, after the first round',
 'the upper bounds in the history are not scaled by the cost',
 ARM + '''
al = [FakeArm('a', 1., lambda n: 2 / n, 3), FakeArm('b', 2., lambda n: 20 / n),
      FakeArm('c', 2.1, lambda n: 20 / n, 2)]
r = bandits.LUCBAlgorithm(al, GEN, confidence=.05, sample_limit=200,
                          units_per_round=5).run()
for a in al:
  assert np.isclose(r.ucb_by_arm[a][-1], a.cost * a.ci[1]), a._name
'''),
('b11-run-uses-up-limit', 'B11', [(B, '''    return BanditData(lcb_by_arm, ucb_by_arm, var_est_by_arm, samples_by_arm,
                      cum_samples, best_arms)''', '''    self.sample_limit -= total_samples
    return BanditData(lcb_by_arm, ucb_by_arm, var_est_by_arm, samples_by_arm,
                      cum_samples, best_arms)''')],
 'running the same uniform bandit twice (with a reset in between)',
 'a run reduces the sample limit of the bandit, so the next run stops early',
 ARM + '''
al = [FakeArm('a', 1., lambda n: 9.), FakeArm('b', 4., lambda n: 9.)]
b = bandits.UniformAlgorithm(al, GEN, confidence=.05, sample_limit=100,
                             units_per_round=10)
n = len(b.run().cum_samples)
assert len(b.run().cum_samples) == n
'''),
('b08-limit-tolerance', 'B08', [(B, '''            [v == min(var_ests) for v in var_ests])
        break

      # Check end condition
      if self.error_prob is not None:  # This is a fixed confidence bandit
        (game_ends, best_arms) = self._check_fixed_conf_end_condition()
''', '''            [v <= min(var_ests) + self.error_tol for v in var_ests])
        break

      # Check end condition
      if self.error_prob is not None:  # This is a fixed confidence bandit
        (game_ends, best_arms) = self._check_fixed_conf_end_condition()
''')],
 'a positive error tolerance and a run ended by the sample limit',
 'at the limit the uniform bandit also returns arms within the tolerance',
 ARM + '''
al = [FakeArm('a', 1., lambda n: 9.), FakeArm('b', 1.5, lambda n: 9.)]
r = bandits.UniformAlgorithm(al, GEN, confidence=.05, error_tol=1.,
                             sample_limit=50, units_per_round=10).run()
assert r.best_arm == [al[0]], [a._name for a in r.best_arm]
'''),
('b10-confidence-unchecked', 'B10', [(B, "      if not 0 < confidence < 1:", "      if not 0 < confidence <= 1:")],
 'confidence=1', 'a confidence of 1 is accepted', ARM + '''
try:
  bandits.UniformAlgorithm([FakeArm('a', 1., None)], GEN, confidence=1.)
except ValueError:
  pass
else:
  raise AssertionError('confidence 1 accepted')
'''),
('b04-uniform-overrun', 'B04', [(B, '''      if total_samples > self.sample_limit:
        _, _, var_ests = self.collect_bounds()
        # Select the arms with the lowest var estimates.
        best_arms = ''', '''      if total_samples - self.units_per_round > self.sample_limit:
        _, _, var_ests = self.collect_bounds()
        # Select the arms with the lowest var estimates.
        best_arms = ''')],
 'a sample limit that is exceeded by less than units_per_round', 'a uniform run plays one more round although the limit is exceeded',
 ARM + '''
al = [FakeArm(c, v, lambda n: 9.) for c, v in (('a', 1.), ('b', 2.), ('c', 3.))]
r = bandits.UniformAlgorithm(al, GEN, confidence=.05, sample_limit=85,
                             units_per_round=10).run()
assert r.cum_samples == [30, 60, 90], r.cum_samples
'''),
]
