"""Refactorings of bandits.py, as another maintainer might write them."""
B = 'bandits.py'
ALL = 'B01 B02 B03 B04 B05 B06 B07 B08 B09 B10 B11'
DELTA = "self.error_prob / len(self._arms)"
HIST = """    # Allocate variables for tracking the history
    lcb_by_arm = {a: [] for a in self._arms}
    ucb_by_arm = {a: [] for a in self._arms}
    var_est_by_arm = {a: [] for a in self._arms}
    cum_samples = []
    samples_by_arm = {a: [] for a in self._arms}
"""
REC = """lcb_by_arm[arm].append(arm.cost * arm.ci[0])
        ucb_by_arm[arm].append(arm.cost * arm.ci[1])
        var_est_by_arm[arm].append(arm.cost * arm.var_est)
"""
REC6 = REC.replace('\n        ', '\n      ')
RESET = """    for a in self._arms:
      a.reset()
"""
STABLE = """        if not stable_order:
          new_samples = self._prob_model.generate(self.units_per_round)
        else:
          n_start = arm.get_num_units()
          new_samples = all_data[n_start:n_start + self.units_per_round]
        arm.update(new_samples, self.error_prob / len(self._arms))
"""
LIM = """        _, _, var_ests = self.collect_bounds()
        # Select the arms with the lowest var estimates.
        best_arm{s} = self._select_arms_with_mask(
            [v == min(var_ests) for v in var_ests])
        break
"""
LIM1, LIM2 = LIM.replace('{s}', 's'), LIM.replace('{s}', '')
COLL = """    ucbs = np.array([a.cost * a.ci[1] for a in self._arms])
    lcbs = np.array([a.cost * a.ci[0] for a in self._arms])
    sigma2s = np.array([a.cost * a.var_est for a in self._arms])
    return (lcbs, ucbs, sigma2s)
"""
ENDC = """    # find the arm with the smallest variance.
    min_var_arm = np.argmin(var_ests)
    # check to see if the lcb of the remaining arms is higher than the ucb
    # of min_var_arm.
    remaining_lcbs = [
        lcbs[i] for i in range(len(self._arms)) if i != min_var_arm
    ]
    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,
            [self._arms[min_var_arm]])
"""
SEL = """    # Select the arm in this set with the highest ucb
    high_ucb = max(ucbs[best_arm_mask])
    high_ucb_mask = [b and u == high_ucb for b, u in zip(best_arm_mask, ucbs)]

    # Also select the arm with the lowest lcb of the remaining arms
    low_lcb = min(lcbs[[not i for i in best_arm_mask]])
    low_lcb_mask = [
        not b and l == low_lcb for b, l in zip(best_arm_mask, lcbs)
    ]

    # We will pick between these two arms
    u_index = np.random.choice(np.arange(self._num_arms)[high_ucb_mask])
    l_index = np.random.choice(np.arange(self._num_arms)[low_lcb_mask])
    return [self._arms[u_index], self._arms[l_index]]
"""
SETRIM = """      candidate_var_ests = [var_est_by_arm[arm][-1] for arm in candidate_arms]
      lowest_var = min(candidate_var_ests)
      low_var_mask = [v == lowest_var for v in candidate_var_ests]
      lowest_ucb = min([
          ucb_by_arm[arm][-1]
          for i, arm in enumerate(candidate_arms)
          if low_var_mask[i]
      ])

      # We now eliminate all arms with lcbs that are larger than lowest_ucb.
      new_candidate_arms = []
      for arm, is_low_var in zip(candidate_arms, low_var_mask):
        if is_low_var or lcb_by_arm[arm][-1] < lowest_ucb:
          new_candidate_arms.append(arm)
      candidate_arms = new_candidate_arms
"""
SEREC = """      for arm in self._arms:
        """ + REC + """        samples_by_arm[arm].append(0)

      for arm in candidate_arms:
        samples_by_arm[arm][-1] = self.units_per_round
"""
LUCBREC = """      for arm in self._arms:
        """ + REC + """        samples_by_arm[arm].append(self.units_per_round if arm in
                                   arms_to_update else 0)
"""
CTOR1 = """    if not 0.0 < error_prob < 1.0:
      raise ValueError(
          f"error_prob={error_prob}; must be in the unit interval.")
    self.error_prob = error_prob
    if error_tol < 0.0:
      raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
    self.error_tol = error_tol
    if sample_limit is None:  # no limit on the number of samples
      sample_limit = np.inf
    if confidence is None and np.isinf(sample_limit):
      raise ValueError(
          "Either the confidence or the number of rounds must be specified")
    if confidence is not None:
      if not 0 < confidence < 1:
        raise ValueError(
            f"confidence={confidence}; must be in the unit interval")

    self.confidence = confidence
    self.sample_limit = sample_limit
    self.units_per_round = units_per_round
"""

M = [
('r-record-method', [
  (B, RESET, RESET + """
  def _record(self, arm, lcbs, ucbs, var_ests):
    lower, upper = arm.ci
    lcbs[arm].append(arm.cost * lower)
    ucbs[arm].append(arm.cost * upper)
    var_ests[arm].append(arm.cost * arm.var_est)
"""),
  (B, REC, "self._record(arm, lcb_by_arm, ucb_by_arm, var_est_by_arm)\n", 1),
  (B, REC6, "self._record(arm, lcb_by_arm, ucb_by_arm, var_est_by_arm)\n", 1)],
 ALL),
('r-next-samples', [
  (B, RESET, RESET + """
  def _next_samples(self, arm, all_data):
    if all_data is None:
      return self._prob_model.generate(self.units_per_round)
    start = arm.get_num_units()
    return all_data[start:start + self.units_per_round]
"""),
  (B, STABLE, """        arm.update(
            self._next_samples(arm, all_data),
            self.error_prob / self._num_arms)
""", 1)], ALL),
('r-pull-method', [
  (B, RESET, RESET + """
  def _arm_delta(self):
    return self.error_prob / self._num_arms

  def _pull(self, arm, all_data=None):
    n = self.units_per_round
    if all_data is not None:
      first = arm.get_num_units()
      batch = all_data[first:first + n]
    else:
      batch = self._prob_model.generate(n)
    arm.update(batch, self._arm_delta())
"""),
  (B, STABLE, "        self._pull(arm, all_data)\n", 1),
  (B, "arm.update(new_samples, self.error_prob / len(self._arms))",
   "arm.update(new_samples, self._arm_delta())", 1)], ALL),
('r-lowest-arms', [
  (B, RESET, RESET + """
  def _lowest_variance_arms(self):
    _, _, var_ests = self.collect_bounds()
    lowest = min(var_ests)
    return [a for a, v in zip(self._arms, var_ests) if v == lowest]
"""),
  (B, LIM1, "        best_arms = self._lowest_variance_arms()\n        break\n"),
  (B, LIM2, "        best_arm = self._lowest_variance_arms()\n        break\n")],
 ALL),
('r-lowest-np', [
  (B, LIM1, """        var_ests = self.collect_bounds()[2]
        best_arms = self._select_arms_with_mask(var_ests == np.min(var_ests))
        break
"""),
  (B, LIM2, """        var_ests = self.collect_bounds()[2]
        best_arm = self._select_arms_with_mask(var_ests == var_ests.min())
        break
""")], ALL),
('r-delta-local', [
  (B, "      # We need to calculate the necessary delta:\n      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / len(self._arms))",
   "      delta = self.error_prob / self._num_arms\n      for arm in self._arms:\n        arm.update(new_samples, delta)"),
  (B, "      for arm in arms_to_update:\n", "      arm_delta = self.error_prob / self._num_arms\n      for arm in arms_to_update:\n"),
  (B, "          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      # Record",
   "          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, arm_delta)\n\n      # Record")],
 ALL),
('r-history-zip', [
  (B, HIST, """    lcb_by_arm, ucb_by_arm, var_est_by_arm, samples_by_arm = (
        {a: [] for a in self._arms} for _ in range(4))
    cum_samples = []
""", 1)], ALL),
('r-history-method', [
  (B, RESET, RESET + """
  def _empty_history(self):
    return {arm: [] for arm in self._arms}
"""),
  (B, HIST, """    lcb_by_arm = self._empty_history()
    ucb_by_arm = self._empty_history()
    var_est_by_arm = self._empty_history()
    samples_by_arm = self._empty_history()
    cum_samples = []
""", 1)], ALL),
('r-history-dictcomp', [
  (B, HIST, """    lcb_by_arm = {}
    ucb_by_arm = {}
    var_est_by_arm = {}
    samples_by_arm = {}
    for a in self._arms:
      lcb_by_arm[a] = []
      ucb_by_arm[a] = []
      var_est_by_arm[a] = []
      samples_by_arm[a] = []
    cum_samples = []
""", 1)], ALL),
('r-defaultdict', [
  (B, HIST, """    lcb_by_arm = dict((a, []) for a in self._arms)
    ucb_by_arm = dict((a, []) for a in self._arms)
    var_est_by_arm = dict((a, []) for a in self._arms)
    samples_by_arm = dict((a, []) for a in self._arms)
    cum_samples = list()
""", 1)], ALL),
('r-collect-loop', [
  (B, COLL, """    lcbs, ucbs, sigma2s = [], [], []
    for a in self._arms:
      lcb, ucb = a.ci
      lcbs.append(a.cost * lcb)
      ucbs.append(a.cost * ucb)
      sigma2s.append(a.cost * a.var_est)
    return np.array(lcbs), np.array(ucbs), np.array(sigma2s)
""")], ALL),
('r-collect-vec', [
  (B, COLL, """    costs = np.array([a.cost for a in self._arms])
    lcbs = costs * np.array([a.ci[0] for a in self._arms])
    ucbs = costs * np.array([a.ci[1] for a in self._arms])
    sigma2s = costs * np.array([a.var_est for a in self._arms])
    return lcbs, ucbs, sigma2s
""")], ALL),
('r-end-delete', [
  (B, ENDC, """    best = int(np.argmin(var_ests))
    others = np.delete(lcbs, best)
    done = ucbs[best] < np.min(others) + self.error_tol
    return (done, [self._arms[best]])
""")], ALL),
('r-end-slices', [
  (B, ENDC, """    best = np.argmin(var_ests)
    threshold = min(l for i, l in enumerate(lcbs) if i != best)
    best_arm = self._arms[best]
    game_ends = ucbs[best] < threshold + self.error_tol
    return game_ends, [best_arm]
""")], ALL),
('r-end-all', [
  (B, ENDC, """    best = np.argmin(var_ests)
    best_arm = self._arms[best]
    game_ends = all(
        ucbs[best] < lcbs[i] + self.error_tol
        for i in range(self._num_arms) if i != best)
    return game_ends, [best_arm]
""")], ALL),
('r-end-mask', [
  (B, ENDC, """    best = np.argmin(var_ests)
    others = np.arange(self._num_arms) != best
    return (ucbs[best] - self.error_tol < lcbs[others].min(),
            [self._arms[best]])
""")], ALL),
('r-end-npany', [
  (B, "    if any(np.isinf(ucbs)):  # one of the ucbs is infinity\n      return (False, [])\n    if any(np.isnan(var_ests)):  # one of the arms returned a nan\n      return (False, [])\n",
   "    if np.isinf(ucbs).any() or np.isnan(var_ests).any():\n      return (False, [])\n")], ALL),
('r-end-npany2', [
  (B, "    if any(np.isinf(ucbs)):  # one of the ucbs is infinity\n      return (False, [])\n    if any(np.isnan(var_ests)):  # one of the arms returned a nan\n      return (False, [])\n",
   "    undecided = np.any(np.isnan(var_ests)) or np.any(np.isinf(ucbs))\n    if undecided:\n      return False, []\n")], ALL),
('r-sel-where', [
  (B, SEL, """    best = np.array(best_arm_mask)
    high_ucb = ucbs[best].max()
    low_lcb = lcbs[~best].min()
    u_index = np.random.choice(np.where(best & (ucbs == high_ucb))[0])
    l_index = np.random.choice(np.where(~best & (lcbs == low_lcb))[0])
    return [self._arms[u_index], self._arms[l_index]]
""")], ALL),
('r-sel-list', [
  (B, SEL, """    high_ucb = max(u for b, u in zip(best_arm_mask, ucbs) if b)
    low_lcb = min(l for b, l in zip(best_arm_mask, lcbs) if not b)
    upper = [i for i in range(self._num_arms)
             if best_arm_mask[i] and ucbs[i] == high_ucb]
    lower = [i for i in range(self._num_arms)
             if not best_arm_mask[i] and lcbs[i] == low_lcb]
    return [self._arms[np.random.choice(upper)],
            self._arms[np.random.choice(lower)]]
""")], ALL),
('r-sel-helper', [
  (B, SEL, """    rest_mask = [not b for b in best_arm_mask]
    high_ucb = max(ucbs[best_arm_mask])
    low_lcb = min(lcbs[rest_mask])
    u_index = self._pick([b and u == high_ucb
                          for b, u in zip(best_arm_mask, ucbs)])
    l_index = self._pick([r and l == low_lcb
                          for r, l in zip(rest_mask, lcbs)])
    return [self._arms[u_index], self._arms[l_index]]

  def _pick(self, mask):
    return np.random.choice(np.arange(self._num_arms)[mask])
""")], ALL),
('r-sel-random-helper', [
  (B, "      return np.random.choice(self._arms, 2, replace=False)  # choose at random\n    lowest_var",
   "      return self._random_pair()\n    lowest_var"),
  (B, "      return np.random.choice(self._arms, size=2, replace=False)\n", "      return self._random_pair()\n", 1),
  (B, "  def select_arms(self)", "  def _random_pair(self):\n    return np.random.choice(self._arms, size=2, replace=False)\n\n  def select_arms(self)")], ALL),
('r-se-dict', [
  (B, SETRIM, """      lowest_var = min(var_est_by_arm[arm][-1] for arm in candidate_arms)
      leaders = [
          arm for arm in candidate_arms if var_est_by_arm[arm][-1] == lowest_var
      ]
      lowest_ucb = min(ucb_by_arm[arm][-1] for arm in leaders)
      candidate_arms = [
          arm for arm in candidate_arms
          if arm in leaders or lcb_by_arm[arm][-1] < lowest_ucb
      ]
""")], ALL),
('r-se-helper', [
  (B, SETRIM, """      candidate_arms = self._trim(candidate_arms, lcb_by_arm, ucb_by_arm,
                                  var_est_by_arm)
"""),
  (B, "class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):", "class SuccessiveEliminationAlgorithm(BAIBanditAlgorithm):"),
  (B, "    stable_order = all_data is not None\n\n    # Allocate variables for tracking the history\n    lcb_by_arm = {a: [] for a in self._arms}\n    ucb_by_arm = {a: [] for a in self._arms}\n    var_est_by_arm = {a: [] for a in self._arms}\n    cum_samples = []\n    samples_by_arm = {a: [] for a in self._arms}\n    total_samples = 0\n\n    # Initialize", "    stable_order = all_data is not None\n\n    # Allocate variables for tracking the history\n    lcb_by_arm = {a: [] for a in self._arms}\n    ucb_by_arm = {a: [] for a in self._arms}\n    var_est_by_arm = {a: [] for a in self._arms}\n    cum_samples = []\n    samples_by_arm = {a: [] for a in self._arms}\n    total_samples = 0\n\n    # Initialize"),
  (B, "    return BanditData(lcb_by_arm, ucb_by_arm, var_est_by_arm, samples_by_arm,\n                      cum_samples, candidate_arms)", """    return BanditData(lcb_by_arm, ucb_by_arm, var_est_by_arm, samples_by_arm,
                      cum_samples, candidate_arms)

  @staticmethod
  def _trim(candidates, lcbs, ucbs, var_ests):
    latest = [var_ests[a][-1] for a in candidates]
    lowest = min(latest)
    bound = min(ucbs[a][-1] for a, v in zip(candidates, latest) if v == lowest)
    kept = []
    for a, v in zip(candidates, latest):
      if v == lowest:
        kept.append(a)
      elif lcbs[a][-1] < bound:
        kept.append(a)
    return kept
""")], ALL),
('r-se-removing', [
  (B, SETRIM, """      lowest_var = min([var_est_by_arm[arm][-1] for arm in candidate_arms])
      lowest_ucb = min([
          ucb_by_arm[arm][-1]
          for arm in candidate_arms
          if var_est_by_arm[arm][-1] == lowest_var
      ])
      eliminated = [
          arm for arm in candidate_arms
          if var_est_by_arm[arm][-1] != lowest_var
          and not lcb_by_arm[arm][-1] < lowest_ucb
      ]
      candidate_arms = [a for a in candidate_arms if a not in eliminated]
""")], ALL),
('r-se-continue', [
  (B, "      for arm, is_low_var in zip(candidate_arms, low_var_mask):\n        if is_low_var or lcb_by_arm[arm][-1] < lowest_ucb:\n          new_candidate_arms.append(arm)\n",
   "      for i in range(len(candidate_arms)):\n        arm = candidate_arms[i]\n        if not low_var_mask[i] and not lcb_by_arm[arm][-1] < lowest_ucb:\n          continue\n        new_candidate_arms.append(arm)\n")], ALL),
('r-se-nobreak', [
  (B, "      candidate_arms = new_candidate_arms\n\n      # Check end condition\n      if len(candidate_arms) == 1:\n        break\n", "      candidate_arms = new_candidate_arms\n"),
  (B, "    epoch = 1\n", ""), (B, "      epoch += 1\n", "")], ALL),
('r-se-record', [
  (B, SEREC, """      for arm in self._arms:
        """ + REC + """        pulled = arm in candidate_arms
        samples_by_arm[arm].append(self.units_per_round if pulled else 0)
""")], ALL),
('r-se-record2', [
  (B, SEREC, """      sampled = {arm: 0 for arm in self._arms}
      for arm in candidate_arms:
        sampled[arm] = self.units_per_round
      for arm in self._arms:
        """ + REC + """        samples_by_arm[arm].append(sampled[arm])
""")], ALL),
('r-se-total-in-loop', [
  (B, STABLE + "\n      total_samples += len(candidate_arms) * self.units_per_round\n",
   STABLE + "        total_samples += self.units_per_round\n"),
  ], ALL),
('r-se-limit', [
  (B, """        var_ests = [arm.cost * arm.var_est for arm in candidate_arms]
        # Select the remaining arms with the lowest var estimates.
        candidate_arms = [
            a for (a, v) in zip(candidate_arms, var_ests) if v == min(var_ests)
        ]
        break
""", """        lowest = min(a.cost * a.var_est for a in candidate_arms)
        candidate_arms = [
            a for a in candidate_arms if a.cost * a.var_est == lowest
        ]
        break
""")], ALL),
('r-lucb-record', [
  (B, LUCBREC, """      for arm in self._arms:
        """ + REC + """        if arm in arms_to_update:
          samples_by_arm[arm].append(self.units_per_round)
        else:
          samples_by_arm[arm].append(0)
""")], ALL),
('r-lucb-total', [
  (B, "      total_samples += 2 * self.units_per_round\n      cum_samples.append(total_samples)\n", "      total_samples += len(arms_to_update) * self.units_per_round\n      cum_samples.append(total_samples)\n")], ALL),
('r-lucb-total-early', [
  (B, "      total_samples += 2 * self.units_per_round\n      cum_samples.append(total_samples)\n", ""),
  (B, "      arms_to_update = self.select_arms()\n", "      arms_to_update = self.select_arms()\n      total_samples += 2 * self.units_per_round\n      cum_samples.append(total_samples)\n")], ALL),
('r-lucb-initcum', [
  (B, "    total_samples = self._num_arms * self.units_per_round\n    for arm", "    for arm"),
  (B, "    cum_samples.append(total_samples)\n\n    while True", "    total_samples = self.units_per_round * self._num_arms\n    cum_samples.append(total_samples)\n\n    while True")], ALL),
('r-lucb-ended', [
  (B, """      if self.error_prob is not None:  # This is a fixed confidence bandit
        (game_ends, best_arm) = self._check_fixed_conf_end_condition()
        if game_ends:
          break
""", """      if self.error_prob is None:
        continue
      game_ends, best_arm = self._check_fixed_conf_end_condition()
      if game_ends:
        break
""")], ALL),
('r-lucb-return', [
  (B, """      if self.error_prob is not None:  # This is a fixed confidence bandit
        (game_ends, best_arm) = self._check_fixed_conf_end_condition()
        if game_ends:
          break
""", """      if self.error_prob is not None:  # This is a fixed confidence bandit
        (game_ends, best_arm) = self._check_fixed_conf_end_condition()
        if game_ends:
          return BanditData(lcb_by_arm, ucb_by_arm, var_est_by_arm,
                            samples_by_arm, cum_samples, best_arm)
""")], ALL),
('r-lucb-whilelimit', [
  (B, "    while True:\n      if total_samples > self.sample_limit:\n" + LIM2, "    while total_samples <= self.sample_limit:\n"),
  (B, "        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n        if game_ends:\n          break\n\n    return", "        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n        if game_ends:\n          break\n    else:\n      var_ests = self.collect_bounds()[2]\n      best_arm = self._select_arms_with_mask(\n          [v == min(var_ests) for v in var_ests])\n\n    return")], ALL),
('r-uni-split', [
  (B, "      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / len(self._arms))\n        " + REC + "        samples_by_arm[arm].append(self.units_per_round)\n",
   "      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      for arm in self._arms:\n        " + REC + "        samples_by_arm[arm].append(self.units_per_round)\n")], ALL),
('r-uni-bounds', [
  (B, "      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / len(self._arms))\n        " + REC + "        samples_by_arm[arm].append(self.units_per_round)\n",
   "      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      lcbs, ucbs, var_ests = self.collect_bounds()\n      for i, arm in enumerate(self._arms):\n        lcb_by_arm[arm].append(lcbs[i])\n        ucb_by_arm[arm].append(ucbs[i])\n        var_est_by_arm[arm].append(var_ests[i])\n        samples_by_arm[arm].append(self.units_per_round)\n")], ALL),
('r-uni-round', [
  (B, "    total_samples = 0\n\n    while True:\n      if stable", "    total_samples = 0\n    per_round = self._num_arms * self.units_per_round\n\n    while True:\n      if stable"),
  (B, "      total_samples += self._num_arms * self.units_per_round\n", "      total_samples += per_round\n")], ALL),
('r-uni-ternary', [
  (B, """      if stable_order:
        # All remaining arms have been pulled the same number of times.
        n_start = self._arms[0].get_num_units()
        new_samples = all_data[n_start:n_start + self.units_per_round]
      else:
        new_samples = self._prob_model.generate(self.units_per_round)
""", """      n_start = self._arms[0].get_num_units()
      new_samples = (
          all_data[n_start:n_start + self.units_per_round]
          if stable_order else self._prob_model.generate(self.units_per_round))
""")], ALL),
('r-mask-compress', [
  (B, "    return [a for (a, m) in zip(self._arms, boolean_mask) if m]", "    return [self._arms[i] for i, keep in enumerate(boolean_mask) if keep]")], ALL),
('r-mask-loop', [
  (B, "    return [a for (a, m) in zip(self._arms, boolean_mask) if m]", "    selected = []\n    for i in range(self._num_arms):\n      if boolean_mask[i]:\n        selected.append(self._arms[i])\n    return selected")], ALL),
('r-ctor-valid', [
  (B, CTOR1, """    self._validate(error_prob, error_tol, confidence)
    if sample_limit is None:  # no limit on the number of samples
      sample_limit = np.inf
    if confidence is None and np.isinf(sample_limit):
      raise ValueError(
          "Either the confidence or the number of rounds must be specified")
    self.error_prob = error_prob
    self.error_tol = error_tol
    self.confidence = confidence
    self.sample_limit = sample_limit
    self.units_per_round = units_per_round

  @staticmethod
  def _validate(error_prob, error_tol, confidence):
    if not 0.0 < error_prob < 1.0:
      raise ValueError(f"error_prob={error_prob}; must be in the unit interval")
    if error_tol < 0.0:
      raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
    if confidence is not None and not 0 < confidence < 1:
      raise ValueError(f"confidence={confidence}; must be in the unit interval")
""")], ALL),
('r-ctor-order', [
  (B, CTOR1, """    for name, value in (("error_prob", error_prob), ("confidence", confidence)):
      if name == "confidence" and value is None:
        continue
      if value <= 0 or value >= 1 or value != value:
        raise ValueError(f"{name}={value}; must be in the unit interval.")
    if error_tol < 0.0:
      raise ValueError(f"error_tol={error_tol}; must be nonnegative.")
    limit = np.inf if sample_limit is None else sample_limit
    if confidence is None and np.isinf(limit):
      raise ValueError(
          "Either the confidence or the number of rounds must be specified")
    self.error_prob, self.error_tol = error_prob, error_tol
    self.confidence, self.sample_limit = confidence, limit
    self.units_per_round = units_per_round
""")], ALL),
('r-result-kw', [
  (B, "BanditData(lcb_by_arm, ucb_by_arm, var_est_by_arm, samples_by_arm,\n                      cum_samples, best_arms)", "BanditData(\n        lcb_by_arm=lcb_by_arm,\n        ucb_by_arm=ucb_by_arm,\n        var_est_by_arm=var_est_by_arm,\n        samples_by_arm=samples_by_arm,\n        cum_samples=cum_samples,\n        best_arm=best_arms)"),
  ], ALL),
]
