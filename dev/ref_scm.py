"""Refactorings of scm.py, as another maintainer might write them."""
S = 'scm.py'
ALL = 'S01 S02 S03 S04 S05 S06 S07 S08 S09 S10 D06 U03 X01 X02 X03 X04 X05'
import json
HAVE = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
ALL = ' '.join(i for i in HAVE if i[0] in 'SXDUV')
M = []


def m(name, *edits):
  M.append((name, [(S,) + e for e in edits], ALL))


GEN = '''    samples = {}
    for var_name in self.var_names:
      # Build parents sample
      if not set(self.parents[var_name]).issubset(samples):
        raise ValueError("var_names are not in lexicographic order")
      parent_samples = [samples[p] for p in self.parents[var_name]]

      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
'''
TAIL = '''    data_to_concat = [samples[v] for v in self.cov_variables]
    x_data = np.column_stack(data_to_concat)

    return data.ExpData(
        x_data,
        samples[self.treatment_variable],
        samples[self.response_variable],
    )
'''
EFFECT = '''    old_cpds = self.cpds
    self.cpds = dict(old_cpds)
    try:
      treatment_cpd = lambda n, parents: deterministic_cpd(n, 1)
      self.cpds[self.treatment_variable] = treatment_cpd
      treatment_sample = self.generate(n_samples)

      control_cpd = lambda n, parents: deterministic_cpd(n, 0)
      self.cpds[self.treatment_variable] = control_cpd
      control_sample = self.generate(n_samples)
    finally:
      self.cpds = old_cpds
    return np.mean(treatment_sample.rsp) - np.mean(control_sample.rsp)
'''
INIT = '''    if not set(var_names).issubset(parents):
      raise ValueError("Some variables do not have keys in parents")
    if not set(var_names).issubset(cpds):
      raise ValueError("some variables do not have keys in cpbs")

    if treatment_variable not in var_names:
      raise ValueError("The treatment variable must be a variable")
    if response_variable not in var_names:
      raise ValueError("The response variable must be a variable")
    if not set(cov_variables).issubset(var_names):
      raise ValueError("The covariate variable must be variables")
'''
CAT = '''  distribution_indices = parents[conditioning_on_idx]
  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]

  samples = []
  for i, d in enumerate(distribution_indices):
    # Build the parents for this unit
    parent_sample = [p[i] for p in parents]
    samples.append(distributions[int(d)](1, parent_sample)[0])

  return np.array(samples)
'''
NORMAL = '''  total_mean = parents[0].dot(betas[0])
  for i in range(1, len(parents)):
    total_mean += parents[i].dot(betas[i])
  if total_mean.ndim == 1:  # Y is univariate
    return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)
  else:
    return total_mean + np.random.multivariate_normal(mean, cov, size=n_units)
'''
ADD = '''  n_units = len(x)
  if np.ndim(x) < 2 or (np.ndim(x) == 2 and
                        x.shape[1] == 1):  # variable is one-dimensional
    if np.ndim(mean) > 1:
      raise ValueError("The dimensions of x and mean are not compatible")
    return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
  else:  # variable is multi-dimensional
    if x.shape[1] != len(mean):
      raise ValueError("The dimensions of x and mean are not compatible")
    return x + np.random.multivariate_normal(mean, cov, size=n_units)
'''
TRANS = '''  n_units = len(parents[0])
  if len(parents) != len(fns):
    raise ValueError("parents and fns should be the same length.")
  total_mean = fns[0](parents[0].dot(betas[0]))
  for i in range(1, len(parents)):
    total_mean += fns[i](parents[i].dot(betas[i]))

  # infer whether the output should be 1 or 2 dim from mean
  if np.ndim(mean) == 0:  # we should return (n_units,) array
    return total_mean.flatten() + np.random.normal(
        mean, np.sqrt(cov), size=n_units)
  else:
    return total_mean + np.random.multivariate_normal(mean, cov, size=n_units)
'''
STRUCT = '''  n_units = len(parents[0])
  f_out = f(np.column_stack(parents))
  if np.ndim(mean) < 1:  # the output is a scalar
    return f_out.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
  else:
    return f_out + np.random.multivariate_normal(mean, cov, size=n_units)
'''
LOG = '''  params = f(parents)
  means = 1 / (1 + np.exp(-params))
  return np.random.binomial(1, means)
'''
LIN = '''  def f(parents):
    params = 0
    for i in range(len(parents)):
      params += parents[i].dot(gammas[i])
    return params

  return logistic_bernoulli_cpd(parents, f)'''
CLS = '''class SCM(data.DataGenerator):
'''

m('r-gen-missing', (GEN, '''    samples = {}
    for var_name in self.var_names:
      parents = self.parents[var_name]
      missing = [p for p in parents if p not in samples]
      if missing:
        raise ValueError("var_names are not in lexicographic order")
      samples[var_name] = self.cpds[var_name](
          n_samples, [samples[p] for p in parents])
'''))
m('r-gen-all', (GEN, '''    samples = dict()
    for name in self.var_names:
      parents = self.parents[name]
      if not all(p in samples for p in parents):
        raise ValueError("var_names are not in lexicographic order")
      cpd = self.cpds[name]
      samples[name] = cpd(n_samples, [samples[p] for p in parents])
'''))
m('r-gen-sets', (GEN, '''    samples = {}
    for var_name in self.var_names:
      if set(self.parents[var_name]) - set(samples):
        raise ValueError("var_names are not in lexicographic order")
      parent_samples = list(map(samples.__getitem__, self.parents[var_name]))
      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
'''))
m('r-gen-keyerror', (GEN, '''    samples = {}
    for var_name in self.var_names:
      try:
        parent_samples = [samples[p] for p in self.parents[var_name]]
      except KeyError:
        raise ValueError("var_names are not in lexicographic order")
      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)
'''))
m('r-gen-helper', (GEN + '''
    # ExpData was only designed to have a single covariate; hence, we
    # concatenate the samples corresponding to each covariate.
    # Perhaps in a future version we can do something better.
''' + TAIL, '''    samples = self._sample_all(n_samples)
    x_data = np.column_stack([samples[v] for v in self.cov_variables])
    return data.ExpData(cov=x_data,
                        exp=samples[self.treatment_variable],
                        y=samples[self.response_variable])

  def _sample_all(self, n_samples):
    """Samples of every variable, parents first."""
    samples = {}
    for var_name in self.var_names:
      samples[var_name] = self._sample_one(n_samples, var_name, samples)
    return samples

  def _sample_one(self, n_samples, var_name, samples):
    parents = self.parents[var_name]
    if not set(parents) <= set(samples):
      raise ValueError("var_names are not in lexicographic order")
    return self.cpds[var_name](n_samples, [samples[p] for p in parents])
'''))
m('r-tail-exp', (TAIL, '''    x_data = np.column_stack(tuple(samples[v] for v in self.cov_variables))
    treatment = samples[self.treatment_variable]
    response = samples[self.response_variable]
    return data.ExpData(x_data, treatment, response)
'''))
m('r-tail-ids', (TAIL, '''    columns = []
    for v in self.cov_variables:
      columns.append(samples[v])
    return data.ExpData(
        np.column_stack(columns),
        *(samples[v] for v in (self.treatment_variable,
                               self.response_variable)))
'''))
m('r-eff-loop', (EFFECT, '''    observational = self.cpds
    means = {}
    try:
      for value in (1, 0):
        self.cpds = dict(observational)
        self.cpds[self.treatment_variable] = (
            lambda n, parents, value=value: deterministic_cpd(n, value))
        means[value] = np.mean(self.generate(n_samples).rsp)
    finally:
      self.cpds = observational
    return means[1] - means[0]
'''))
m('r-eff-do', (EFFECT, '''    treated = self._do(1, n_samples)
    control = self._do(0, n_samples)
    return np.mean(treated.rsp) - np.mean(control.rsp)

  def _do(self, value, n_samples):
    """Samples with the treatment set to value."""
    old_cpds = self.cpds
    self.cpds = {**old_cpds,
                 self.treatment_variable:
                     lambda n, parents: deterministic_cpd(n, value)}
    try:
      return self.generate(n_samples)
    finally:
      self.cpds = old_cpds
'''))
m('r-eff-model', (EFFECT, '''    rsp = []
    for value in [0, 1]:
      cpds = dict(self.cpds)
      cpds[self.treatment_variable] = self._constant(value)
      model = SCM(self.name, list(self.var_names), self.parents, cpds,
                  self.cov_variables, self.treatment_variable,
                  self.response_variable)
      rsp.append(model.generate(n_samples).rsp)
    control, treated = rsp
    return np.mean(treated) - np.mean(control)

  @staticmethod
  def _constant(value):
    return lambda n, parents: np.full(n, value)
'''))
m('r-eff-order', (EFFECT, '''    old_cpds = self.cpds
    try:
      self.cpds = old_cpds.copy()
      self.cpds[self.treatment_variable] = lambda n, parents: np.ones(n)
      treated = self.generate(n_samples).rsp.mean()
      self.cpds[self.treatment_variable] = lambda n, parents: np.zeros(n)
      control = self.generate(n_samples).rsp.mean()
      return treated - control
    finally:
      self.cpds = old_cpds
'''))
m('r-eff-context', (EFFECT, '''    with self._intervention(1):
      treated = np.mean(self.generate(n_samples).rsp)
    with self._intervention(0):
      control = np.mean(self.generate(n_samples).rsp)
    return treated - control

  @contextlib.contextmanager
  def _intervention(self, value):
    old_cpds = self.cpds
    self.cpds = dict(old_cpds)
    self.cpds[self.treatment_variable] = (
        lambda n, parents: deterministic_cpd(n, value))
    try:
      yield
    finally:
      self.cpds = old_cpds
'''), ('from typing import List\n', 'import contextlib\nfrom typing import List\n'))
m('r-init-helper', (INIT, '''    self._validate(var_names, parents, cpds, cov_variables,
                   treatment_variable, response_variable)
'''), ('  def generate(self, n_samples: int):\n', '''  @staticmethod
  def _validate(var_names, parents, cpds, covs, treatment, response):
    if any(v not in parents for v in var_names):
      raise ValueError("Some variables do not have keys in parents")
    if any(v not in cpds for v in var_names):
      raise ValueError("some variables do not have keys in cpbs")
    for v, what in ((treatment, "treatment"), (response, "response")):
      if v not in var_names:
        raise ValueError(f"The {what} variable must be a variable")
    if any(v not in var_names for v in covs):
      raise ValueError("The covariate variable must be variables")

  def generate(self, n_samples: int):
'''))
m('r-init-diff', (INIT, '''    names = set(var_names)
    if names - set(parents):
      raise ValueError("Some variables do not have keys in parents")
    if names - set(cpds):
      raise ValueError("some variables do not have keys in cpbs")
    used = set(cov_variables) | {treatment_variable, response_variable}
    if not used <= names:
      raise ValueError("Covariates, treatment and response must be variables")
'''))
m('r-init-chain', (INIT, '''    for mapping, name in ((parents, "parents"), (cpds, "cpds")):
      for v in var_names:
        if v not in mapping:
          raise ValueError(f"Some variables do not have keys in {name}")
    for v in [treatment_variable, response_variable, *cov_variables]:
      if v not in var_names:
        raise ValueError(f"{v} must be a variable")
'''))
m('r-cat-zip', (CAT, '''  indices = parents[conditioning_on_idx]
  others = parents[:conditioning_on_idx] + parents[conditioning_on_idx + 1:]
  samples = []
  for unit, index in enumerate(indices):
    distribution = distributions[int(index)]
    sample = distribution(1, [p[unit] for p in others])
    samples.append(sample[0])
  return np.array(samples)
'''))
m('r-cat-pop', (CAT, '''  others = list(parents)
  indices = others.pop(conditioning_on_idx)
  return np.array([
      distributions[int(d)](1, [p[i] for p in others])[0]
      for i, d in enumerate(indices)
  ])
'''))
m('r-cat-inner', (CAT, '''  others = [p for i, p in enumerate(parents) if i != conditioning_on_idx]

  def one(i, d):
    return distributions[int(d)](1, [p[i] for p in others])[0]

  return np.array(
      [one(i, d) for i, d in enumerate(parents[conditioning_on_idx])])
'''))
m('r-cat-fill', (CAT, '''  chosen = parents[conditioning_on_idx]
  rest = [p for i, p in enumerate(parents) if i != conditioning_on_idx]
  samples = [None] * len(chosen)
  for i in range(len(chosen)):
    samples[i] = distributions[int(chosen[i])](1, [p[i] for p in rest])[0]
  return np.array(samples)
'''))
m('r-normal-early', (NORMAL, '''  total_mean = np.dot(parents[0], betas[0])
  for p, b in zip(parents[1:], betas[1:]):
    total_mean = total_mean + p.dot(b)
  if np.ndim(total_mean) == 1:
    noise = np.random.normal(mean, np.sqrt(cov), size=n_units)
  else:
    noise = np.random.multivariate_normal(mean, cov, size=n_units)
  return total_mean + noise
'''))
m('r-normal-size', (NORMAL, NORMAL.replace('size=n_units', 'n_units')))
m('r-normal-helper', (NORMAL, '''  total_mean = _linear(parents, betas)
  if total_mean.ndim != 1:
    return total_mean + np.random.multivariate_normal(mean, cov, size=n_units)
  return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)


def _linear(parents, betas):
  """The sum of the linear functions of the parents."""
  total = parents[0].dot(betas[0])
  for i, parent in enumerate(parents[1:], start=1):
    total += parent.dot(betas[i])
  return total
'''))
m('r-add-flag', (ADD, '''  n_units = len(x)
  univariate = np.ndim(x) < 2 or (np.ndim(x) == 2 and x.shape[1] == 1)
  compatible = np.ndim(mean) <= 1 if univariate else x.shape[1] == len(mean)
  if not compatible:
    raise ValueError("The dimensions of x and mean are not compatible")
  if univariate:
    return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
  return x + np.random.multivariate_normal(mean, cov, size=n_units)
'''))
m('r-add-early', (ADD, '''  n_units = x.shape[0]
  one_dimensional = x.ndim < 2 or x.ndim == 2 and x.shape[1] == 1
  if not one_dimensional:
    if len(mean) != x.shape[1]:
      raise ValueError("The dimensions of x and mean are not compatible")
    noise = np.random.multivariate_normal(mean, cov, n_units)
    return x + noise

  if np.ndim(mean) > 1:
    raise ValueError("The dimensions of x and mean are not compatible")
  noise = np.random.normal(loc=mean, scale=np.sqrt(cov), size=n_units)
  return x.ravel() + noise
'''))
m('r-trans-zip', (TRANS, '''  if len(fns) != len(parents):
    raise ValueError("parents and fns should be the same length.")
  n_units = len(parents[0])
  total_mean = fns[0](parents[0].dot(betas[0]))
  for fn, parent, beta in zip(fns[1:], parents[1:], betas[1:]):
    total_mean += fn(parent.dot(beta))

  if np.ndim(mean) > 0:
    return total_mean + np.random.multivariate_normal(mean, cov, size=n_units)
  noise = np.random.normal(mean, np.sqrt(cov), size=n_units)
  return total_mean.flatten() + noise
'''))
m('r-trans-sum', (TRANS, '''  n_units = len(parents[0])
  if len(parents) != len(fns):
    raise ValueError("parents and fns should be the same length.")
  total_mean = sum(fns[i](parents[i].dot(betas[i])) for i in range(len(fns)))

  if np.ndim(mean) == 0:
    total_mean = total_mean.flatten()
    noise = np.random.normal(mean, np.sqrt(cov), size=n_units)
  else:
    noise = np.random.multivariate_normal(mean, cov, size=n_units)
  return total_mean + noise
'''))
m('r-struct', (STRUCT, '''  n_units = len(parents[0])
  output = f(np.column_stack(parents))
  if np.ndim(mean) == 0:
    output = output.flatten()
    noise = np.random.normal(mean, np.sqrt(cov), size=n_units)
  else:
    noise = np.random.multivariate_normal(mean, cov, size=n_units)
  return output + noise
'''))
m('r-noise-shared', (STRUCT, '''  return _with_noise(f(np.column_stack(parents)), len(parents[0]), mean, cov)


def _with_noise(values, n_units, mean, cov):
  if np.ndim(mean) >= 1:
    return values + np.random.multivariate_normal(mean, cov, size=n_units)
  return values.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)
'''), (TRANS[TRANS.index('  # infer'):], '''  return _with_noise(total_mean, n_units, mean, cov)
'''))
m('r-log-power', (LOG, '''  return np.random.binomial(n=1, p=1.0 / (1.0 + np.exp(-f(parents))))
'''))
m('r-log-inv', (LOG, '''  params = f(parents)
  means = (1 + np.exp(-params))**-1
  return np.random.binomial(1, means)
'''))
m('r-lin-lambda', (LIN, '''  return logistic_bernoulli_cpd(
      parents, lambda ps: sum(p.dot(g) for p, g in zip(ps, gammas)))'''))
m('r-lin-inline', (LIN, '''  params = 0
  for parent, gamma in zip(parents, gammas):
    params = params + parent.dot(gamma)
  means = 1 / (1 + np.exp(-params))
  return np.random.binomial(1, means)'''))
m('r-det', ('  return np.full(n_samples, value)\n', '  return np.full((n_samples,), value)\n'))
m('r-det2', ('  return np.full(n_samples, value)\n', '  return np.full(shape=n_samples, fill_value=value)\n'))
m('r-det3', ('  return np.full(n_samples, value)\n', '  return np.array([value] * n_samples)\n'))
m('r-eff-cm-class', (EFFECT, """    means = []
    for value in (1, 0):
      with _Intervention(self, value):
        means.append(np.mean(self.generate(n_samples).rsp))
    return means[0] - means[1]
"""), (CLS, """class _Intervention:
  \"\"\"Sets the treatment of a model to a value.\"\"\"

  def __init__(self, model, value):
    self._model = model
    self._value = value

  def __enter__(self):
    self._cpds = self._model.cpds
    self._model.cpds = dict(self._cpds)
    self._model.cpds[self._model.treatment_variable] = (
        lambda n, parents: deterministic_cpd(n, self._value))
    return self._model

  def __exit__(self, *exc):
    self._model.cpds = self._cpds
    return False


""" + CLS))
m('m-eff-cm-noexit', (EFFECT, """    with self._intervention(1):
      treated = np.mean(self.generate(n_samples).rsp)
    with self._intervention(0):
      control = np.mean(self.generate(n_samples).rsp)
    return treated - control

  @contextlib.contextmanager
  def _intervention(self, value):
    old_cpds = self.cpds
    self.cpds = dict(old_cpds)
    self.cpds[self.treatment_variable] = (
        lambda n, parents: deterministic_cpd(n, value))
    yield
    self.cpds = old_cpds
"""), ('from typing import List\n', 'import contextlib\nfrom typing import List\n'))
