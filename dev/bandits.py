B='bandits.py'
ALL='B01 B02 B03 B04 B05 B06 B07 B08 B09 B10 B11'
M=[
('m-delta-cand',[(B,"        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      total_samples += len(candidate_arms)","        arm.update(new_samples, self.error_prob / len(candidate_arms))\n\n      total_samples += len(candidate_arms)")],ALL),
('m-uniform-total',[(B,"total_samples += self._num_arms * self.units_per_round","total_samples += self.units_per_round")],ALL),
('m-lucb-init-total',[(B,"    total_samples = self._num_arms * self.units_per_round\n","    total_samples = 0\n")],ALL),
('m-se-record-before',[(B,"if is_low_var or lcb_by_arm[arm][-1] < lowest_ucb","if lcb_by_arm[arm][-1] < lowest_ucb")],ALL),
('m-se-le',[(B,"if is_low_var or lcb_by_arm[arm][-1] < lowest_ucb","if is_low_var or lcb_by_arm[arm][-1] <= lowest_ucb")],ALL),
('m-cost',[(B,"sigma2s = np.array([a.cost * a.var_est for a in self._arms])","sigma2s = np.array([a.var_est for a in self._arms])")],ALL),
('m-lucb-reuse',[(B,"        if not stable_order:\n          new_samples = self._prob_model.generate(self.units_per_round)\n        else:\n          n_start = arm.get_num_units()\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      # Record","        if stable_order:\n          n_start = arm.get_num_units()\n          new_samples = all_data[n_start:n_start + self.units_per_round]\n        arm.update(new_samples, self.error_prob / len(self._arms))\n\n      # Record")],ALL),
('m-limit-ge',[(B,"      if total_samples > self.sample_limit:\n        _, _, var_ests = self.collect_bounds()\n        # Select the arms with the lowest var estimates.\n        best_arms","      if total_samples > 2 * self.sample_limit:\n        _, _, var_ests = self.collect_bounds()\n        # Select the arms with the lowest var estimates.\n        best_arms")],ALL),
('m-lcb-min',[(B,"low_lcb = min(lcbs","low_lcb = max(lcbs")],ALL),
('m-highucb',[(B,"high_ucb = max(ucbs","high_ucb = min(ucbs")],ALL),
('m-reset',[(B,"    for a in self._arms:\n      a.reset()","    for a in self._arms[1:]:\n      a.reset()")],ALL),
('m-alias',[(B,"candidate_arms = list(self._arms)  # copy arms.","candidate_arms = self._arms")],ALL),
('m-tol',[(B,"if error_tol < 0.0","if error_tol < -1.0")],ALL),
('m-prob',[(B,"if not 0.0 < error_prob < 1.0","if not 0.0 < error_prob <= 1.0")],ALL),
('m-samples0',[(B,"        samples_by_arm[arm].append(0)","        samples_by_arm[arm].append(self.units_per_round)")],ALL),
('m-nan',[(B,"    if any(np.isnan(var_ests)):  # one of the arms returned a nan\n      return (False, [])\n","")],ALL),
# refactorings
('r-helper',[(B,"      for arm in self._arms:\n        arm.update(new_samples, self.error_prob / len(self._arms))\n        lcb_by_arm[arm].append(arm.cost * arm.ci[0])\n        ucb_by_arm[arm].append(arm.cost * arm.ci[1])\n        var_est_by_arm[arm].append(arm.cost * arm.var_est)\n        samples_by_arm[arm].append(self.units_per_round)\n","      delta = self._delta()\n      for arm in self._arms:\n        arm.update(new_samples, delta)\n        self._record(arm, lcb_by_arm, ucb_by_arm, var_est_by_arm)\n        samples_by_arm[arm].append(self.units_per_round)\n"),(B,"class UniformAlgorithm(BAIBanditAlgorithm):\n","class UniformAlgorithm(BAIBanditAlgorithm):\n  def _delta(self):\n    n = self._num_arms\n    return self.error_prob / n\n\n  def _record(self, arm, lo, hi, va):\n    low, high = arm.ci\n    lo[arm].append(low * arm.cost)\n    hi[arm].append(arm.cost * high)\n    va[arm].append(arm.cost * arm.var_est)\n")],ALL),
('r-flag',[(B,"    while True:\n      if stable_order:","    done = False\n    while not done:\n      if stable_order:"),(B,"            [v == min(var_ests) for v in var_ests])\n        break\n\n      # Check end condition\n      if self.error_prob is not None:  # This is a fixed confidence bandit\n        (game_ends, best_arms) = self._check_fixed_conf_end_condition()\n        if game_ends:\n          break\n","            [v == min(var_ests) for v in var_ests])\n        done = True\n      elif self.error_prob is not None:\n        (done, best_arms) = self._check_fixed_conf_end_condition()\n")],ALL),
('r-se-comp',[(B,"      new_candidate_arms = []\n      for arm, is_low_var in zip(candidate_arms, low_var_mask):\n        if is_low_var or lcb_by_arm[arm][-1] < lowest_ucb:\n          new_candidate_arms.append(arm)\n      candidate_arms = new_candidate_arms\n","      candidate_arms = [\n          arm for arm, is_low in zip(candidate_arms, low_var_mask)\n          if is_low or lowest_ucb > lcb_by_arm[arm][-1]\n      ]\n")],ALL),
('r-se-samples',[(B,"        samples_by_arm[arm].append(0)\n\n      for arm in candidate_arms:\n        samples_by_arm[arm][-1] = self.units_per_round\n","        if arm in candidate_arms:\n          samples_by_arm[arm].append(self.units_per_round)\n        else:\n          samples_by_arm[arm].append(0)\n")],ALL),
('r-bounds',[(B,"    ucbs = np.array([a.cost * a.ci[1] for a in self._arms])\n    lcbs = np.array([a.cost * a.ci[0] for a in self._arms])\n    sigma2s = np.array([a.cost * a.var_est for a in self._arms])\n","    lo, hi, sig = [], [], []\n    for a in self._arms:\n      l, u = a.ci\n      lo.append(a.cost * l)\n      hi.append(a.cost * u)\n      sig.append(a.cost * a.var_est)\n    lcbs, ucbs, sigma2s = np.array(lo), np.array(hi), np.array(sig)\n")],ALL),
('r-end',[(B,"    remaining_lcbs = [\n        lcbs[i] for i in range(len(self._arms)) if i != min_var_arm\n    ]\n    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,\n            [self._arms[min_var_arm]])","    rest = np.delete(lcbs, min_var_arm)\n    done = rest.min() + self.error_tol > ucbs[min_var_arm]\n    return done, [self._arms[min_var_arm]]"),(B,"if any(np.isinf(ucbs))","if np.isinf(ucbs).any()")],ALL),
('r-end2',[(B,"    remaining_lcbs = [\n        lcbs[i] for i in range(len(self._arms)) if i != min_var_arm\n    ]\n    return (ucbs[min_var_arm] < min(remaining_lcbs) + self.error_tol,\n            [self._arms[min_var_arm]])","    rest = []\n    for i, low in enumerate(lcbs):\n      if i == min_var_arm:\n        continue\n      rest.append(low)\n    game_ends = ucbs[min_var_arm] - self.error_tol < min(rest)\n    return (game_ends, [self._arms[min_var_arm]])"),(B,"if any(np.isinf(ucbs))","if np.any(np.isinf(ucbs))")],ALL),
('r-lucb-while',[(B,"    while True:\n      if total_samples > self.sample_limit:\n        _, _, var_ests = self.collect_bounds()\n        # Select the arms with the lowest var estimates.\n        best_arm = self._select_arms_with_mask(\n            [v == min(var_ests) for v in var_ests])\n        break\n\n      arms_to_update","    game_ends = False\n    while not game_ends:\n      if total_samples > self.sample_limit:\n        best_arm = self._lowest()\n        break\n\n      arms_to_update"),(B,"        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n        if game_ends:\n          break\n","        (game_ends, best_arm) = self._check_fixed_conf_end_condition()\n"),(B,"  def select_arms(self)","  def _lowest(self):\n    v = self.collect_bounds()[2]\n    low = min(v)\n    return [a for i, a in enumerate(self._arms) if v[i] == low]\n\n  def select_arms(self)")],ALL),
('r-lucb-select',[(B,"    best_arm_mask = [v == lowest_var for v in var_ests]\n    if all(best_arm_mask):","    best_arm_mask = var_ests == lowest_var\n    if np.all(best_arm_mask):"),(B,"min(lcbs[[not i for i in best_arm_mask]])","lcbs[~best_arm_mask].min()")],ALL),
('r-dictinit',[(B,"    lcb_by_arm = {a: [] for a in self._arms}\n    ucb_by_arm = {a: [] for a in self._arms}\n    var_est_by_arm = {a: [] for a in self._arms}\n    cum_samples = []\n    samples_by_arm = {a: [] for a in self._arms}\n    total_samples = 0\n\n    # Init","    lcb_by_arm, ucb_by_arm, var_est_by_arm, samples_by_arm = (\n        {}, {}, {}, {})\n    for a in self._arms:\n      lcb_by_arm[a] = []\n      ucb_by_arm[a] = []\n      var_est_by_arm[a] = []\n      samples_by_arm[a] = []\n    cum_samples = []\n    total_samples = 0\n\n    # Init")],ALL),
('r-ctor',[(B,"    if not 0.0 < error_prob < 1.0:\n      raise","    if error_prob <= 0 or error_prob >= 1:\n      raise"),(B,"    if confidence is None and np.isinf(sample_limit):\n      raise ValueError(\n          \"Either the confidence or the number of rounds must be specified\")\n    if confidence is not None:\n      if not 0 < confidence < 1:\n        raise ValueError(\n            f\"confidence={confidence}; must be in the unit interval\")\n","    if confidence is None:\n      if sample_limit == np.inf:\n        raise ValueError('Either')\n    elif not (confidence > 0 and confidence < 1):\n      raise ValueError('confidence')\n")],ALL),
]
