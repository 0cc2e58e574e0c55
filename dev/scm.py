F = 'scm.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(F, a, b) for a, b in edits], ids))


ALLS = 'S01 S02 S03 S04 S05'
LOOP = '''      parent_samples = [samples[p] for p in self.parents[var_name]]

      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
'''
CHECKS = '''      if not set(self.parents[var_name]).issubset(samples):
        raise ValueError("var_names are not in lexicographic order")
'''
CONCAT = '''    data_to_concat = [samples[v] for v in self.cov_variables]
    x_data = np.column_stack(data_to_concat)
'''
TRY = '''    try:
      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
      self.cpds[self.treatment_variable] = treatment_cpd
      treatment_sample = self.generate(n_samples)

      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
      self.cpds[self.treatment_variable] = control_cpd
      control_sample = self.generate(n_samples)
    finally:
      self.cpds = old_cpds
    return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
'''
OLD = '''    old_cpds = self.cpds
    self.cpds = dict(old_cpds)
'''
NORMAL = '''  total_mean = parents[0].dot(betas[0])
  for i in range(1, len(parents)):
    total_mean += parents[i].dot(betas[i])
'''
CAT = '''  for i, d in enumerate(distribution_indices):
    # Build the parents for this unit
    parent_sample = [p[i] for p in parents]
    samples.append(distributions[int(d)](1, parent_sample)[0])

  return np.array(samples)
'''
# refactorings
m('r-loop-for', ALLS, (LOOP, '''      parent_samples = []
      for parent in self.parents[var_name]:
        parent_samples.append(samples[parent])
      cpd = self.cpds[var_name]
      samples[var_name] = cpd(n_samples, parent_samples)
'''))
m('r-order-any', ALLS, (CHECKS, '''      if any(p not in samples for p in self.parents[var_name]):
        raise ValueError("var_names are not in lexicographic order")
'''))
m('r-order-loop', ALLS, (CHECKS + '      parent_samples = [samples[p] for p in self.parents[var_name]]\n', '''      parent_samples = []
      for p in self.parents[var_name]:
        if p not in samples:
          raise ValueError("var_names are not in lexicographic order")
        parent_samples.append(samples[p])
'''))
m('r-stack-helper', ALLS, (CONCAT, '    x_data = self._stack(samples)\n'), ('  def compute_treatment_effect', '''  def _stack(self, samples):
    columns = []
    for name in self.cov_variables:
      columns.append(samples[name])
    return np.column_stack(columns)

  def compute_treatment_effect'''))
m('r-effect-helper', ALLS, (TRY, '''    try:
      means = [self._mean_response(n_samples, value) for value in (1, 0)]
    finally:
      self.cpds = old_cpds
    return means[0] - means[1]

  def _mean_response(self, n_samples, value):
    self.cpds[self.treatment_variable] = (
        lambda n, parents: deterministic_cpd(n, value))
    return np.mean(self.generate(n_samples).rsp)
'''))
m('r-effect-copy', ALLS, (OLD + TRY, '''    effects = []
    for value in (0, 1):
      intervened = SCM(self.name, list(self.var_names), self.parents, {
          **self.cpds,
          self.treatment_variable: lambda n, parents: np.full(n, value)},
          self.cov_variables, self.treatment_variable, self.response_variable)
      effects.append(intervened.generate(n_samples).rsp.mean())
    return effects[1] - effects[0]
'''))
m('r-effect-generate', ALLS, (OLD + TRY, '''    return (np.mean(self._generate(n_samples, 1).rsp) -
            np.mean(self._generate(n_samples, 0).rsp))
'''), ('''  def generate(self, n_samples: int):
    samples = {}
''', '''  def generate(self, n_samples: int):
    return self._generate(n_samples)

  def _generate(self, n_samples, treatment=None):
    samples = {}
'''), ('''      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
''', '''      if treatment is not None and var_name == self.treatment_variable:
        samples[var_name] = deterministic_cpd(n_samples, treatment)
      else:
        samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
'''))
m('r-normal-sum', ALLS, (NORMAL, '''  total_mean = sum(p.dot(b) for p, b in zip(parents, betas))
'''))
m('r-normal-zip', ALLS, (NORMAL, '''  total_mean = 0
  for p, b in zip(parents, betas):
    total_mean = total_mean + np.dot(p, b)
'''))
m('r-normal-at', ALLS, (NORMAL, NORMAL.replace('parents[i].dot(betas[i])', 'parents[i] @ betas[i]')))
m('r-normal-noise', ALLS, ('    return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)\n', '    noise = np.sqrt(cov) * np.random.randn(n_units) + mean\n    return noise + total_mean\n'))
m('r-noise-ravel', ALLS, ('    return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)', '    return np.random.normal(mean, cov**.5, n_units) + np.ravel(x)'))
m('r-logistic', ALLS, ('  means = 1 / (1 + np.exp(-params))\n  return np.random.binomial(1, means)', '  odds = np.exp(-params)\n  return np.random.binomial(n=1, p=(1 + odds)**-1)'))
m('r-linear', ALLS, ('''  def f(parents):
    params = 0
    for i in range(len(parents)):
      params += parents[i].dot(gammas[i])
    return params

  return logistic_bernoulli_cpd(parents, f)''', '''  return logistic_bernoulli_cpd(
      parents, lambda ps: sum(p.dot(g) for p, g in zip(ps, gammas)))'''))
m('r-cat-comp', ALLS, (CAT, '''  return np.array([
      distributions[int(d)](1, [p[i] for p in parents])[0]
      for i, d in enumerate(distribution_indices)
  ])
'''))
m('r-cat-range', ALLS, (CAT, '''  for i in range(len(distribution_indices)):
    unit = [p[i] for p in parents]
    chosen = distributions[int(distribution_indices[i])]
    samples += [chosen(1, unit)[0]]
  return np.array(samples)
'''))
m('r-cat-slices', ALLS, ('  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]\n', '  parents = parents[:conditioning_on_idx] + parents[conditioning_on_idx + 1:]\n'))
m('r-init-sets', ALLS, ('''    if treatment_variable not in var_names:
      raise ValueError("The treatment variable must be a variable")
    if response_variable not in var_names:
      raise ValueError("The response variable must be a variable")
''', '''    for role in (treatment_variable, response_variable):
      if role not in set(var_names):
        raise ValueError(f"{role} must be a variable")
'''))
m('r-init-keys', ALLS, ('''    if not set(var_names).issubset(parents):
      raise''', '''    if set(var_names) - set(parents.keys()):
      raise'''))
# bugs
m('m-parent-sorted', 'S01', (LOOP, LOOP.replace('in self.parents[var_name]]', 'in sorted(self.parents[var_name])]')))
m('m-resample', 'S01', (LOOP, LOOP.replace('[samples[p] for p', '[self.cpds[p](n_samples, []) for p')))
m('m-cov-order', 'S01', (CONCAT, CONCAT.replace('in self.cov_variables]', 'in self.var_names if v in self.cov_variables]')))
m('m-cov-treatment', 'S01', (CONCAT, CONCAT.replace('in self.cov_variables]', 'in self.cov_variables if v != self.treatment_variable]')))
m('m-half', 'S01', (LOOP, LOOP.replace('(n_samples, parent_samples)', '(n_samples // 2 * 2, parent_samples)')))
m('m-twice', 'S01', (LOOP, LOOP + '''      if not self.parents[var_name]:
        samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
'''))
m('m-order-missing', 'S02', (CHECKS, ''), ('[samples[p] for p in self', '[samples[p] for p in samples if p in self'))
m('m-order-first', 'S02', (CHECKS, CHECKS.replace('if not set(self.parents[var_name]).issubset(samples)', 'if samples and not set(self.parents[var_name]).issubset(samples)')), ('[samples[p] for p in self', '[samples[p] for p in samples if p in self'))
m('m-init-cov', 'S02', ('if not set(cov_variables).issubset(var_names)', 'if cov_variables[0] not in var_names'))
m('m-init-keys', 'S02', ('if treatment_variable not in var_names', 'if treatment_variable not in parents'))
m('m-init-equal', 'S02', ('if not set(var_names).issubset(cpds)', 'if set(var_names) != set(cpds)'))
m('m-effect-control', 'S03', (TRY, TRY.replace('deterministic_cpd(n, 0)', 'deterministic_cpd(n, -1)')))
m('m-effect-norestore', 'S03', (OLD, '    old_cpds = self.cpds\n'))
m('m-effect-nofinally', 'S03', (TRY, TRY.replace('    try:\n', '').replace('    finally:\n', '').replace('\n      ', '\n    ').replace('      treatment_cpd =', '    treatment_cpd =')))
m('m-effect-natural', 'S03', (TRY, TRY.replace('''      self.cpds[self.treatment_variable] = control_cpd
''', '''      self.cpds = old_cpds
''').replace('np.mean(control_sample.rsp)', 'np.mean(control_sample.rsp[control_sample.exp == 0])')))
m('m-effect-children', 'S03', (TRY, TRY.replace('      treatment_sample', '      self.parents[self.treatment_variable] = []\n      treatment_sample')))
m('m-normal-first', 'S04', (NORMAL, NORMAL.replace('range(1, len(parents))', 'range(1, min(len(parents), len(betas) - 1))')))
m('m-normal-var', 'S04', ('return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)', 'return total_mean + np.random.normal(mean, cov, size=n_units)'))
m('m-normal-one', 'S04', ('return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)', 'return total_mean + np.random.normal(mean, np.sqrt(cov))'))
m('m-noise-dim', 'S04', ('    if np.ndim(mean) > 1:\n', '    if np.ndim(mean) > 2:\n'))
m('m-noise-mean', 'S04', ('    if x.shape[1] != len(mean):\n', '    if x.shape[1] < len(mean):\n'))
m('m-trans-fn', 'S04', ('total_mean += fns[i](parents[i].dot(betas[i]))', 'total_mean += fns[0](parents[i].dot(betas[i]))'))
m('m-trans-len', 'S04', ('if len(parents) != len(fns)', 'if len(parents) > len(fns)'))
m('m-struct', 'S04', ('f(np.column_stack(parents))', 'f(np.column_stack(parents[::-1]))'))
m('m-logit', 'S04', ('means = 1 / (1 + np.exp(-params))', 'means = 1 / (1 + np.exp(-np.abs(params)))'))
m('m-logit-n', 'S04', ('np.random.binomial(1, means)', 'np.random.binomial(1, np.mean(means), len(means))'))
m('m-linear', 'S04', ('      params += parents[i].dot(gammas[i])', '      params = parents[i].dot(gammas[i])'))
m('m-full', 'S04', ('np.full(n_samples, value)', 'np.full(n_samples, int(value))'))
m('m-cat-round', 'S05', ('distributions[int(d)]', 'distributions[int(round(d)) % 2]'))
m('m-cat-unit', 'S05', ('[p[i] for p in parents]', '[p[0] for p in parents]'))
m('m-cat-pop', 'S05', ('  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]\n', '  parents.pop(conditioning_on_idx)\n'))
m('m-cat-last', 'S05', ('  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]\n', '  parents = parents[:-1]\n'))
m('m-cat-bound', 'S05', ('len(parents) <= conditioning_on_idx', 'len(parents) < conditioning_on_idx'))
