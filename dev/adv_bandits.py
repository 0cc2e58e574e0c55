"""Bugs written from the statements of the properties of the bandits."""
B = 'bandits.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(B,) + tuple(e) for e in edits], ids))


SEUPD = '''        arm.update(new_samples, self.error_prob / len(self._arms))

      total_samples += len(candidate_arms) * self.units_per_round
'''
LUCBUPD = '''        arm.update(new_samples, self.error_prob / len(self._arms))

      # Record the arm outputs
'''
LUCB0 = '''      arm.update(new_samples, self.error_prob / len(self._arms))
      lcb_by_arm[arm].append(arm.cost * arm.ci[0])
'''
UNI = '''        arm.update(new_samples, self.error_prob / len(self._arms))
        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
'''
# B01
m('m-b01-min', 'B01', (SEUPD, SEUPD.replace('len(self._arms)', 'min(len(self._arms), epoch)')))
m('m-b01-first', 'B01', (LUCB0, LUCB0.replace('self.error_prob / len(self._arms)', 'self.error_prob')))
m('m-b01-pair', 'B01', (LUCBUPD, LUCBUPD.replace('len(self._arms)', 'max(2, len(arms_to_update))')))
m('m-b01-shrink', 'B01', ('      candidate_arms = new_candidate_arms\n', '      candidate_arms = new_candidate_arms\n      self._num_arms = len(candidate_arms)\n'),
  (SEUPD, SEUPD.replace('len(self._arms)', 'self._num_arms')))
m('m-b01-rebudget', 'B01', (SEUPD, SEUPD.replace('self.error_prob / len(self._arms)', 'self.error_prob / len(self._arms) if total_samples else self.error_prob / 2')))
m('m-b01-reset-elim', 'B01', ('          new_candidate_arms.append(arm)\n', '          new_candidate_arms.append(arm)\n        else:\n          arm.reset()\n'))
m('m-b01-numarms', 'B01', ('    self._num_arms = len(self._arms)\n', '    self._num_arms = len(set(a.name for a in self._arms))\n'), (UNI, UNI.replace('len(self._arms)', 'self._num_arms')))
m('m-b01-conf', 'B01', (UNI, UNI.replace('self.error_prob', '(self.confidence or self.error_prob)')))
# B02
REC = '''        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(self.units_per_round if arm in
                                   arms_to_update else 0)
'''
m('m-b02-skip', 'B02', (REC, '        if arm not in arms_to_update and total_samples > 1000:\n          continue\n' + REC))
m('m-b02-nocost', 'B02', (REC, REC.replace('arm.cost * arm.var_est', 'arm.var_est')))
m('m-b02-inf', 'B02', (REC, REC.replace('arm.cost * arm.ci[1]', '(arm.cost * arm.ci[1] if np.isfinite(arm.ci[1]) else ucb_by_arm[arm][-1])')))
SEREC = '''      for arm in self._arms:
        lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
        samples_by_arm[arm].append(0)
'''
m('m-b02-se-lagged', 'B02', (SEREC, SEREC.replace('lcb_by_arm[arm].append(arm.cost * arm.ci[0])', 'lcb_by_arm[arm].append(arm.cost * arm.ci[0] if arm in candidate_arms else 0.)')))
m('m-b02-se-final', 'B02', ('''      # Check end condition
      if len(candidate_arms) == 1:
        break
''', '''      # Check end condition
      if len(candidate_arms) == 1:
        cum_samples.append(total_samples)
        break
'''))
m('m-b02-shared', 'B02', ('    lcb_by_arm = {a: [] for a in self._arms}\n', '    lcb_by_arm = dict.fromkeys(self._arms, [])\n'))
m('m-b02-order', 'B02', (UNI, UNI.split('\n')[1] + '\n' + UNI.split('\n')[0] + '\n'))
m('m-b02-mon', 'B02', (REC, REC.replace('lcb_by_arm[arm].append(arm.cost * arm.ci[0])', 'lcb_by_arm[arm].append(max(arm.cost * arm.ci[0], lcb_by_arm[arm][-1]))')))
# B03
m('m-b03-unscaled', 'B03', ('total_samples += 2 * self.units_per_round', 'total_samples += self.units_per_round'))
m('m-b03-se-elim', 'B03', ('''      total_samples += len(candidate_arms) * self.units_per_round

''', '\n'), ('''      candidate_arms = new_candidate_arms

''', '''      candidate_arms = new_candidate_arms
      total_samples += len(candidate_arms) * self.units_per_round

'''))
m('m-b03-len', 'B03', ('samples_by_arm[arm][-1] = self.units_per_round', 'samples_by_arm[arm][-1] = len(new_samples)'))
m('m-b03-after', 'B03', ('''      for arm in candidate_arms:
        samples_by_arm[arm][-1] = self.units_per_round

''', ''), ('''      candidate_arms = new_candidate_arms

''', '''      candidate_arms = new_candidate_arms
      for arm in candidate_arms:
        samples_by_arm[arm][-1] = self.units_per_round

'''))
m('m-b03-zero', 'B03', ('        samples_by_arm[arm][-1] = self.units_per_round', '        samples_by_arm[arm][0] = self.units_per_round'))
# B04
m('m-b04-cap', 'B04', ('      epoch += 1\n', '      epoch += 1\n      if epoch > 10000:\n        break\n'))
m('m-b04-lucb-late', 'B04', ('''      arms_to_update = self.select_arms()
''', '''      arms_to_update = self.select_arms()
      if len(cum_samples) == 1 and np.isinf(self.sample_limit):
        arms_to_update = list(self._arms)[:2]
'''), ('    while True:\n      if total_samples > self.sample_limit:\n        _, _, var_ests = self.collect_bounds()\n        # Select the arms with the lowest var estimates.\n        best_arm =', '    while True:\n      if total_samples - self.units_per_round > self.sample_limit:\n        _, _, var_ests = self.collect_bounds()\n        # Select the arms with the lowest var estimates.\n        best_arm ='))
m('m-b04-data', 'B04', ('        new_samples = all_data[n_start:n_start + self.units_per_round]\n      else:', '        new_samples = all_data[n_start:n_start + self.units_per_round]\n        if len(new_samples) < self.units_per_round:\n          best_arms = list(self._arms)\n          break\n      else:'))
m('m-b04-or', 'B04', ('      if total_samples > self.sample_limit:\n        var_ests', '      if total_samples > self.sample_limit and self.confidence is not None:\n        var_ests'))
m('m-b04-none', 'B04', ('      sample_limit = np.inf\n', '      sample_limit = 1e9\n'))
m('m-b04-nan', 'B04', ('      lowest_var = min(candidate_var_ests)\n', '      if all(np.isnan(candidate_var_ests)):\n        break\n      lowest_var = min(candidate_var_ests)\n'))
m('m-b04-epoch', 'B04', ('if total_samples > self.sample_limit:\n        var_ests', 'if (epoch - 1) * self.units_per_round > self.sample_limit:\n        var_ests'))
# B05
m('m-b05-le', 'B05', ('(ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol', '(ucbs[min_var_arm] <= min(remaining_lcbs) + self.error_tol'))
m('m-b05-tol', 'B05', ('min(remaining_lcbs) + self.error_tol', 'min(remaining_lcbs) * (1 + self.error_tol)'))
m('m-b05-ucb', 'B05', ('min_var_arm = np.argmin(var_ests)', 'min_var_arm = np.argmin(ucbs)'))
m('m-b05-inf', 'B05', ('if any(np.isinf(ucbs))', 'if all(np.isinf(ucbs))'))
m('m-b05-nan-all', 'B05', ('if any(np.isnan(var_ests))', 'if np.isnan(np.nanmin(var_ests))'))
m('m-b05-two', 'B05', ('''            [self._arms[min_var_arm]])
''', '''            [a for a, v in zip(self._arms, var_ests) if v == var_ests[min_var_arm]])
'''))
m('m-b05-lcbcost', 'B05', ('lcbs = np.array([a.cost * a.ci[0]', 'lcbs = np.array([a.ci[0]'))
m('m-b05-max', 'B05', ('min(remaining_lcbs)', 'np.median(remaining_lcbs)'))
m('m-b05-skipfirst', 'B05', ('''      if self.error_prob is not None:  # This is a fixed confidence bandit
        (game_ends, best_arms)''', '''      if self.error_prob is not None and len(cum_samples) > 1:
        (game_ends, best_arms)'''))
m('m-b05-stale', 'B05', ('''        (game_ends, best_arm) = self._check_fixed_conf_end_condition()
        if game_ends:
          break
''', '''        (game_ends, best_arm) = self._check_fixed_conf_end_condition()
        if game_ends:
          best_arm = arms_to_update[:1]
          break
'''))
# B06
m('m-b06-total', 'B06', ('lowest_var = min(candidate_var_ests)', 'lowest_var = min(a.cost * a.var_est for a in self._arms)'))
m('m-b06-ucball', 'B06', ('          ucb_by_arm[arm][-1]\n          for i, arm in enumerate(candidate_arms)\n          if low_var_mask[i]\n', '          ucb_by_arm[arm][-1]\n          for i, arm in enumerate(candidate_arms)\n'))
m('m-b06-index', 'B06', ('          for i, arm in enumerate(candidate_arms)\n          if low_var_mask[i]', '          for i, arm in enumerate(self._arms[:len(candidate_arms)])\n          if low_var_mask[i]'))
m('m-b06-tol', 'B06', ('lcb_by_arm[arm][-1] < lowest_ucb', 'lcb_by_arm[arm][-1] < lowest_ucb - self.error_tol'))
m('m-b06-prev', 'B06', ('lcb_by_arm[arm][-1] < lowest_ucb', 'lcb_by_arm[arm][max(-2, -len(lcb_by_arm[arm]))] < lowest_ucb'))
m('m-b06-max', 'B06', ('      lowest_ucb = min([', '      lowest_ucb = max(['))
m('m-b06-one', 'B06', ('low_var_mask = [v == lowest_var for v in candidate_var_ests]', 'low_var_mask = [i == np.argmin(candidate_var_ests) for i in range(len(candidate_var_ests))]'))
m('m-b06-return', 'B06', ('                      cum_samples, candidate_arms)', '                      cum_samples, candidate_arms[:1])'))
m('m-b06-back', 'B06', ('for arm, is_low_var in zip(candidate_arms, low_var_mask):', 'for arm, is_low_var in zip(self._arms, [var_est_by_arm[a][-1] == lowest_var for a in self._arms]):'))
# B07
m('m-b07-replace', 'B07', ('if all(best_arm_mask):  # there are no remaining arms to compare with\n      return np.random.choice(self._arms, size=2, replace=False)', 'if all(best_arm_mask):  # there are no remaining arms to compare with\n      return np.random.choice(self._arms, size=2)'))
m('m-b07-notmask', 'B07', ('        not b and l == low_lcb for b, l', '        l == low_lcb for b, l'))
m('m-b07-andmask', 'B07', ('[b and u == high_ucb for', '[u == high_ucb for'))
m('m-b07-lcbucb', 'B07', ('low_lcb = min(lcbs[', 'low_lcb = min(ucbs['), ('        not b and l == low_lcb for b, l in zip(best_arm_mask, lcbs)', '        not b and l == low_lcb for b, l in zip(best_arm_mask, ucbs)'))
m('m-b07-nan', 'B07', ('lowest_var = min(var_ests)\n    if np', 'lowest_var = np.nanmin(var_ests)\n    if np'))
m('m-b07-tie', 'B07', ('    if all(best_arm_mask):', '    if sum(best_arm_mask) > 1:'))
m('m-b07-same', 'B07', ('return [self._arms[u_index], self._arms[l_index]]', 'return [self._arms[u_index], self._arms[l_index if l_index < u_index else l_index - 1]]'))
m('m-b07-close', 'B07', ('best_arm_mask = [v == lowest_var for v in var_ests]', 'best_arm_mask = list(np.isclose(var_ests, lowest_var))'))
m('m-b07-inf', 'B07', ('    if np.isnan(lowest_var):', '    if np.isnan(lowest_var) or np.isinf(min(ucbs)):'))
# B08
m('m-b08-first', 'B08', ('''        best_arms = self._select_arms_with_mask(
            [v == min(var_ests) for v in var_ests])''', '''        best_arms = [self._arms[int(np.argmin(var_ests))]]'''))
m('m-b08-nocost', 'B08', ('var_ests = [arm.cost * arm.var_est for arm in candidate_arms]', 'var_ests = [arm.var_est for arm in candidate_arms]'))
m('m-b08-all', 'B08', ('''        candidate_arms = [
            a for (a, v) in zip(candidate_arms, var_ests) if v == min(var_ests)
        ]''', '''        candidate_arms = [
            a for (a, v) in zip(self._arms, var_ests) if v == min(var_ests)
        ]'''))
m('m-b08-close', 'B08', ('''        best_arm = self._select_arms_with_mask(
            [v == min(var_ests) for v in var_ests])''', '''        best_arm = self._select_arms_with_mask(
            [v <= 1.01 * min(var_ests) for v in var_ests])'''))
m('m-b08-lucb-early', 'B08', ('''        _, _, var_ests = self.collect_bounds()
        # Select the arms with the lowest var estimates.
        best_arm =''', '''        var_ests = [var_est_by_arm[a][0] for a in self._arms]
        # Select the arms with the lowest var estimates.
        best_arm ='''))
m('m-b08-ucb', 'B08', ('''        _, _, var_ests = self.collect_bounds()
        # Select the arms with the lowest var estimates.
        best_arms =''', '''        _, var_ests, _ = self.collect_bounds()
        # Select the arms with the lowest var estimates.
        best_arms ='''))
m('m-b08-end', 'B08', ('if total_samples > self.sample_limit:\n        _, _, var_ests = self.collect_bounds()\n        # Select the arms with the lowest var estimates.\n        best_arms', 'if total_samples > self.sample_limit:\n        _, _, var_ests = self.collect_bounds()\n        ended, best_arms = self._check_fixed_conf_end_condition()\n        if ended:\n          break\n        # Select the arms with the lowest var estimates.\n        best_arms'))
m('m-b08-mask', 'B08', ('return [a for (a, m) in zip(self._arms, boolean_mask) if m]', 'return [self._arms[int(np.argmax(boolean_mask))]]'))
# B09
m('m-b09-mincnt', 'B09', ('          n_start = arm.get_num_units()\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      # Record the arm outputs', '          n_start = total_samples // self._num_arms\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      # Record the arm outputs'))
m('m-b09-gen', 'B09', ('''    if stable_order:
      new_samples = all_data[:self.units_per_round]
    else:''', '''    if stable_order and len(all_data) >= self.units_per_round:
      new_samples = all_data[:self.units_per_round]
    else:'''))
m('m-b09-once', 'B09', ('''      else:
        new_samples = self._prob_model.generate(self.units_per_round)

      # We need''', '''      elif not cum_samples:
        new_samples = self._prob_model.generate(self.units_per_round)

      # We need'''))
m('m-b09-twice', 'B09', ('''      for arm in arms_to_update:
        if not''', '''      for arm in list(arms_to_update) * (1 + (len(cum_samples) > 50)):
        if not'''))
m('m-b09-tail', 'B09', ('new_samples = all_data[n_start:n_start + self.units_per_round]\n      else', 'new_samples = all_data[n_start:max(n_start + self.units_per_round, len(all_data) - 1)]\n      else'))
m('m-b09-wrap', 'B09', ('''          n_start = arm.get_num_units()
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      total''', '''          n_start = arm.get_num_units() % max(len(all_data), 1)
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      total'''))
m('m-b09-firstarm', 'B09', ('''          n_start = arm.get_num_units()
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      total''', '''          n_start = (epoch - 1) * self.units_per_round
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))

      total'''))
# B10
m('m-b10-tol-se', 'B10', ('''    super().__init__(arm_list, prob_model, error_prob, error_tol, confidence,
                     sample_limit, units_per_round)

  def run(self, all_data: Optional[data.ExpData] = None):''', '''    super().__init__(arm_list, prob_model, error_prob, abs(error_tol), confidence,
                     sample_limit, units_per_round)

  def run(self, all_data: Optional[data.ExpData] = None):'''))
m('m-b10-conf', 'B10', ('if not 0 < confidence < 1', 'if not 0 <= confidence < 1'))
m('m-b10-isinf', 'B10', ('if confidence is None and np.isinf(sample_limit)', 'if not confidence and np.isinf(sample_limit)'))
m('m-b10-int', 'B10', ('    self.sample_limit = sample_limit\n', '    self.sample_limit = sample_limit if np.isinf(sample_limit) else units_per_round * (sample_limit // units_per_round)\n'))
m('m-b10-nan', 'B10', ('if not 0.0 < error_prob < 1.0', 'if error_prob <= 0.0 or error_prob > 1.0'))
m('m-b10-default', 'B10', ('    self.confidence = confidence\n', '    self.confidence = confidence or .05\n'))
m('m-b10-conf2', 'B10', ('    if confidence is not None:\n      if not 0', '    if confidence is not None and not np.isinf(sample_limit):\n      if not 0'))
m('m-b10-swap', 'B10', ('super().__init__(arm_list, prob_model, error_prob, error_tol, confidence,\n                     sample_limit, units_per_round)\n\n  def run(self, all_data: Optional[data.ExpData] = None):', 'super().__init__(arm_list, prob_model, error_tol, error_prob, confidence,\n                     sample_limit, units_per_round)\n\n  def run(self, all_data: Optional[data.ExpData] = None):'))
m('m-b10-assert', 'B10', ('''      raise ValueError(f"error_tol={error_tol}; must be nonnegative.")''', '''      raise AssertionError(f"error_tol={error_tol}; must be nonnegative.")'''))
# B11
m('m-b11-tol', 'B11', ('      candidate_arms = new_candidate_arms\n', '      candidate_arms = new_candidate_arms\n      if total_samples > self.sample_limit:\n        self.error_tol = 0\n'))
m('m-b11-sort', 'B11', ('    candidate_arms = list(self._arms)  # copy arms.', '    self._arms.sort(key=lambda a: a.name)\n    candidate_arms = list(self._arms)  # copy arms.'))
m('m-b11-limit', 'B11', ('      total_samples += 2 * self.units_per_round\n', '      total_samples += 2 * self.units_per_round\n      self.sample_limit -= 0 if total_samples < self.sample_limit else 1\n'))
m('m-b11-reset', 'B11', ('''    for a in self._arms:
      a.reset()''', '''    for a in self._arms:
      a.reset()
    self.sample_limit = np.inf if self.sample_limit is None else self.sample_limit
    self.error_tol = 0'''))
m('m-b11-reset-name', 'B11', ('''    for a in self._arms:
      a.reset()''', '''    for a in {a.name: a for a in self._arms}.values():
      a.reset()'''))
m('m-b11-cost', 'B11', ('    total_samples = 0\n\n    while True:', '    total_samples = 0\n    for a in self._arms:\n      a.cost = float(a.cost)\n\n    while True:'))
m('m-b11-shuffle', 'B11', ('    stable_order = all_data is not None\n\n    # Allocate', '    stable_order = all_data is not None\n    if stable_order:\n      np.random.shuffle(all_data.outcome)\n\n    # Allocate'))
m('m-b11-conf', 'B11', ('        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n', '        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n        if game_ends: self.confidence = None\n'))
# refactorings that keep the behaviour
m('r-b02-carry', 'B01 B02 B03 B06', (SEREC, '''      for arm in self._arms:
        if arm in candidate_arms:
          lcb_by_arm[arm].append(arm.cost * arm.ci[0])
          ucb_by_arm[arm].append(arm.cost * arm.ci[1])
          var_est_by_arm[arm].append(arm.cost * arm.var_est)
        else:
          lcb_by_arm[arm].append(lcb_by_arm[arm][-1])
          ucb_by_arm[arm].append(ucb_by_arm[arm][-1])
          var_est_by_arm[arm].append(var_est_by_arm[arm][-1])
        samples_by_arm[arm].append(0)
'''))
# long runs
m('m-long-uni', 'B01', (UNI, UNI.replace('self.error_prob / len(self._arms)', 'self.error_prob / (len(self._arms) if len(cum_samples) < 20 else 1)')))
m('m-long-lucb', 'B01', (LUCBUPD, LUCBUPD.replace('self.error_prob / len(self._arms)', 'self.error_prob / (len(self._arms) if arm.num_pulled != 9 else 1)')))
m('m-long-rec', 'B02', (REC, '        if len(cum_samples) == 12:\n          continue\n' + REC))
m('m-long-total', 'B03', ('      total_samples += 2 * self.units_per_round\n', '      total_samples += len(set(arms_to_update[:1 + (len(cum_samples) < 30)])) * self.units_per_round\n'))
m('m-long-end', 'B07', ('        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n', '        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n        game_ends = game_ends or len(cum_samples) == 100\n'))
