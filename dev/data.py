D='data.py'
ALL='D01 D02 D03 D04 D05 D06 D08'
KF='''      cov_fold = self.cov[folds == i]
      if self.exp is not None:
        exp_fold = self.exp[folds == i]
      else:
        exp_fold = None
      if self.rsp is not None:
        rsp_fold = self.rsp[folds == i]
      else:
        rsp_fold = None
      data_folds.append(ExpData(cov_fold, exp_fold, rsp_fold))
'''
SS='''    if self.exp is not None:
      exp_in = self.exp[mask]
      exp_out = self.exp[~mask]
    else:
      exp_in = None
      exp_out = None
    if self.rsp is not None:
      rsp_in = self.rsp[mask]
      rsp_out = self.rsp[~mask]
    else:
      rsp_in = None
      rsp_out = None

    in_data = ExpData(self.cov[mask], exp_in, rsp_in)
    ouexp_data = ExpData(self.cov[~mask], exp_out, rsp_out)
    return (in_data, ouexp_data)
'''
AP='''    cov, exp, rsp = np.r_[self.cov, new_data.cov], self.exp, self.rsp
    if self.exp is not None:
      if new_data.exp is None:
        raise ValueError("new_data.exp is missing but expected")
      exp = np.r_[self.exp, new_data.exp]
    if self.rsp is not None:
      if new_data.rsp is None:
        raise ValueError("new_data.rsp is missing but expected")
      rsp = np.r_[self.rsp, new_data.rsp]

    self.cov, self.exp, self.rsp = cov, exp, rsp
    self.n_units = self.cov.shape[0]
'''
M=[
('m-kf-perm2',[(D,'rsp_fold = self.rsp[folds == i]','rsp_fold = self.rsp[np.random.permutation(folds) == i]')],'D01'),
('m-kf-drop',[(D,'np.mod(np.arange(self.n_units), k)','np.minimum(np.arange(self.n_units) // (self.n_units // k), k)')],'D01'),
('m-kf-randint',[(D,'np.random.permutation(np.mod(np.arange(self.n_units), k))','np.random.randint(k, size=self.n_units)')],'D01'),
('m-kf-range',[(D,'    for i in range(k):\n      cov_fold','    for i in range(1, k):\n      cov_fold')],'D01'),
('m-kf-sort',[(D,'np.random.permutation(np.mod(np.arange(self.n_units), k))','np.sort(np.mod(np.arange(self.n_units), k - 1 or 1))')],'D01'),
('m-kf-slices',[(D,'    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))\n','    folds = np.random.permutation(self.n_units)\n    size = self.n_units // k\n'),(D,KF,'''      rows = folds[i * size:(i + 1) * size]
      data_folds.append(self[rows])
''')],'D01'),
('m-kf-le',[(D,'if k < 1:','if k < 0:')],'D01'),
('m-ss-exp',[(D,'exp_out = self.exp[~mask]','exp_out = self.exp[mask]')],'D02'),
('m-ss-p',[(D,'p=[p, 1 - p]','p=[1 - p, p]')],'D02'),
('m-ss-rej',[(D,'if not 0 <= p <= 1','if not 0 < p < 1')],'D02'),
('m-ss-idx',[(D,'mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])','mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])\n    other = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])'),(D,'rsp_out = self.rsp[~mask]','rsp_out = self.rsp[~other]')],'D02'),
('m-ap-old',[(D,AP,'''    self.cov = np.r_[self.cov, new_data.cov]
    if self.exp is not None:
      if new_data.exp is None:
        raise ValueError("new_data.exp is missing but expected")
      self.exp = np.r_[self.exp, new_data.exp]
    if self.rsp is not None:
      if new_data.rsp is None:
        raise ValueError("new_data.rsp is missing but expected")
      self.rsp = np.r_[self.rsp, new_data.rsp]
    self.n_units = self.cov.shape[0]
''')],'D03'),
('m-ap-order',[(D,'rsp = np.r_[self.rsp, new_data.rsp]','rsp = np.r_[new_data.rsp, self.rsp]')],'D03'),
('m-ap-elif',[(D,'    if self.rsp is not None:\n      if new_data.rsp is None:\n        raise ValueError("new_data.rsp is missing but expected")\n      rsp','    elif self.rsp is not None:\n      if new_data.rsp is None:\n        raise ValueError("new_data.rsp is missing but expected")\n      rsp')],'D03'),
('m-ap-n',[(D,'    self.n_units = self.cov.shape[0]\n\n','    self.n_units += self.cov.shape[0]\n\n')],'D03'),
('m-ap-share',[(D,'rsp = np.r_[self.rsp, new_data.rsp]','rsp = np.r_[self.rsp, new_data.rsp]\n    new_data.rsp = rsp')],'D03'),
('m-gi-rsp',[(D,'self.rsp[key]','self.rsp')],'D04'),
('m-gi-neg',[(D,'new_exp = None if self.exp is None else self.exp[key]','new_exp = None if self.exp is None else self.exp[:len(new_cov)]')],'D04'),
('m-gi-swap',[(D,'return ExpData(new_cov, new_exp, new_rsp)','return ExpData(new_cov, new_rsp, new_exp)')],'D04'),
('m-nf',[(D,'self.n_features = cov.shape[1]','self.n_features = cov.shape[-2]')],'D04'),
('m-len',[(D,'    return self.n_units\n\n','    return self.n_features\n\n')],'D04'),
('m-rm-axis',[(D,'idx_to_remove, axis=1)','idx_to_remove, axis=0)')],'D04'),
('m-rm-exp',[(D,'ExpData(new_cov, data.exp, data.rsp)','ExpData(new_cov, None, data.rsp)')],'D04'),
('m-mask-inplace',[(D,'    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)','    d.cov = d.cov[..., idx_to_include]\n    return d')],'D04 D06'),
('m-mask-sorted',[(D,'d.cov[..., idx_to_include]','d.cov[..., sorted(idx_to_include)]')],'D04'),
('m-cpd-tab',[(D,'''    self.n_units = len(x)
    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.table = collections.defaultdict(default_fn)
''','''    self.n_units = len(x)
''')],'D05'),
('m-cpd-zv',[(D,'''    self.x_values = {}
    self.z_values = {}
    for xi''','''    self.x_values = {}
    for xi''')],'D05'),
('m-cpd-nunits',[(D,'self.n_units = len(x)','self.n_units += len(x)')],'D05'),
('m-cpd-minprob',[(D,'self.min_prob > 1','self.n_units == 1')],'D05'),
('m-cpd-pred',[(D,'self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0)','self.table[xi.tobytes()][zi.tobytes()]')],'D05'),
('m-cpd-pred1',[(D,'.get(zi.tobytes(), 0.0)','.get(zi.tobytes(), self.min_prob)')],'D05'),
('m-cpd-zip',[(D,'for zi, xi in zip(z, x)','for xi, zi in zip(z, x)')],'D05'),
('m-cpd-sup',[(D,'return list(self.z_values.values())','return list(self.x_values.values())')],'D05'),
('m-cpd-len',[(D,'if len(x) != len(z)','if len(x) > len(z)')],'D05'),
('m-lin-sign',[(D,'np.exp(-x.dot(self._gamma))','np.exp(x.dot(self._gamma))')],'D08'),
('m-lin-noise',[(D,'+ self._tau * t + noise','+ self._tau * t + np.random.randn(n_samples)')],'D08'),
('m-lin-gammashape',[(D,'gamma.shape != (n_features,)','gamma.shape[0] < n_features')],'D08'),
('m-lin-tmeans',[(D,'+ self._tau * t + noise','+ self._tau * t_means + noise')],'D08'),
('m-lin-noiselen',[(D,'if len(noise) != n_samples','if len(noise) < n_samples')],'D08'),
('m-lin-state',[(D,'    return ExpData(x, t, y)','    self._beta = self._beta * 1.0\n    self._noise = noise\n    return ExpData(x, t, y)')],'D08'),
('m-lin-beta',[(D,'x.dot(self._beta)','x.dot(self._beta - self._gamma)')],'D08'),
('m-inplace',[(D,'    y = x.dot(self._beta) + self._tau * t + noise\n','    noise += x.dot(self._beta) + self._tau * t\n    y = noise\n')],'D06'),
# refactorings
('r-kf-astype',[(D,'np.mod(np.arange(self.n_units), k))','np.mod(np.arange(self.n_units), k).astype(int))')],'D01'),
('r-kf-astype2',[(D,'np.random.permutation(np.mod(np.arange(self.n_units), k))','np.random.permutation(np.mod(np.arange(self.n_units), k)).astype(np.int64)')],'D01'),
('r-kf-astype3',[(D,'np.arange(self.n_units), k','np.arange(self.n_units, dtype=int), k')],'D01'),
('r-kf-split',[(D,'    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))\n','    folds = np.array_split(np.random.permutation(self.n_units), k)\n'),(D,KF,'''      data_folds.append(self[folds[i]])
''')],'D01'),
('r-kf-split2',[(D,'    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))\n','    folds = np.array_split(np.random.permutation(self.n_units), k)\n'),(D,'for i in range(k):\n'+KF,'''for rows in folds:
      data_folds.append(self[rows])
''')],'D01'),
('r-kf-getitem',[(D,KF,'      data_folds.append(self[folds == i])\n')],ALL),
('r-kf-comp',[(D,'    data_folds = []\n    for i in range(k):\n'+KF+'\n    return data_folds','    return [self[folds == i] for i in range(k)]')],ALL),
('r-kf-mod',[(D,'np.random.permutation(np.mod(np.arange(self.n_units), k))','np.arange(self.n_units) % k\n    np.random.shuffle(folds)')],ALL),
('r-kf-mask',[(D,KF,'''      in_fold = np.where(folds == i)[0]
      pick = lambda col: None if col is None else col[in_fold]
      data_folds.append(ExpData(pick(self.cov), pick(self.exp), pick(self.rsp)))
''')],ALL),
('r-kf-mask2',[(D,KF,'''      in_fold = folds == i
      exp_fold, rsp_fold = None, None
      if self.exp is not None:
        exp_fold = self.exp[in_fold, ...]
      if not self.rsp is None:
        rsp_fold = np.compress(in_fold, self.rsp, axis=0)
      data_folds += [ExpData(cov=self.cov[in_fold, :], exp=exp_fold, y=rsp_fold)]
''')],ALL),
('r-kf-helper',[(D,KF,'      data_folds.append(self._select(folds == i))\n'),(D,'  def subsample(','''  def _select(self, mask):
    columns = []
    for col in (self.cov, self.exp, self.rsp):
      columns.append(None if col is None else col[mask])
    return ExpData(*columns)

  def subsample(''')],ALL),
('r-ss',[(D,SS,'    return self[mask], self[~mask]\n')],ALL),
('r-ss2',[(D,SS,'    return (self[mask], self[np.logical_not(mask)])\n')],ALL),
('r-ss3',[(D,'    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])\n','    mask = np.random.rand(self.n_units) < p\n')],ALL),
('r-ss4',[(D,'if not 0 <= p <= 1:','if p < 0 or p > 1:')],ALL),
('r-ap',[(D,AP,'''    if self.exp is not None and new_data.exp is None:
      raise ValueError("new_data.exp is missing but expected")
    if self.rsp is not None and new_data.rsp is None:
      raise ValueError("new_data.rsp is missing but expected")
    def stack(a, b):
      return None if a is None else np.concatenate((a, b))
    new_columns = (stack(self.cov, new_data.cov), stack(self.exp, new_data.exp),
                   stack(self.rsp, new_data.rsp))
    self.cov, self.exp, self.rsp = new_columns
    self.n_units = len(self.cov)
''')],ALL),
('r-ap2',[(D,AP,'''    for mine, theirs in ((self.exp, new_data.exp), (self.rsp, new_data.rsp)):
      if mine is not None and theirs is None:
        raise ValueError("a column is missing but expected")
    cov = np.concatenate([self.cov, new_data.cov], axis=0)
    exp = None if self.exp is None else np.append(self.exp, new_data.exp)
    rsp = None
    if self.rsp is not None:
      rsp = np.append(self.rsp, new_data.rsp)
    self.n_units = cov.shape[0]
    self.cov = cov
    self.exp = exp
    self.rsp = rsp
''')],ALL),
('r-init',[(D,'''      self.n_units = cov.shape[0]
      if len(cov.shape) == 1:  # one dimensional
        self.n_features = 1
      else:
        self.n_features = cov.shape[1]
''','''      self.n_units = len(cov)
      self.n_features = 1 if cov.ndim == 1 else cov.shape[1]
''')],ALL),
('r-gi',[(D,'''    new_cov = self.cov[key]
    new_exp = None if self.exp is None else self.exp[key]
    new_rsp = None if self.rsp is None else self.rsp[key]
    return ExpData(new_cov, new_exp, new_rsp)
''','''    def select(col):
      if col is None:
        return None
      return col[key]
    return ExpData(*[select(c) for c in (self.cov, self.exp, self.rsp)])
''')],ALL),
('r-mask',[(D,'d.cov[..., idx_to_include]','d.cov[:, idx_to_include]')],ALL),
('r-lambda',[(D,'''  def fn(x):
    return x

  return fn
''','''  return lambda x: x
''')],ALL),
('r-cpd-counts',[(D,'''      self.table[xi.tobytes()][
          zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
      self.x_values[xi.tobytes()] = xi
      self.z_values[zi.tobytes()] = zi
''','''      x_key, z_key = xi.tobytes(), zi.tobytes()
      self.table[x_key][z_key] += 1
      self.x_values[x_key] = xi
      self.z_values[z_key] = zi
''')],ALL),
('r-cpd-reset',[(D,'''    self.n_units = len(x)
    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.table = collections.defaultdict(default_fn)
    self.x_marginal = collections.defaultdict(lambda: 0.0)
    self.x_values = {}
    self.z_values = {}
    for''','''    self._clear()
    self.n_units = len(x)
    for'''),(D,'''    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.n_units = 0
    self.table = collections.defaultdict(default_fn)
    self.x_marginal = collections.defaultdict(lambda: 0.0)
    self.x_values = {}
    self.z_values = {}
    self.min_ratio_to_uniform = min_ratio_to_uniform
''','''    self.min_ratio_to_uniform = min_ratio_to_uniform
    self._clear()

  def _clear(self):
    self.n_units = 0
    self.table = collections.defaultdict(lambda: collections.defaultdict(float))
    self.x_marginal = collections.defaultdict(float)
    self.x_values = {}
    self.z_values = {}
''')],ALL),
('r-cpd-pred',[(D,'''    probs = []
    x = np.asarray(x)
    z = np.asarray(z)

    for zi, xi in zip(z, x):
      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
    return np.array(probs)
''','''    x = np.asarray(x)
    z = np.asarray(z)
    return np.array([self._lookup(xi, zi) for xi, zi in zip(x, z)])

  def _lookup(self, xi, zi):
    row = self.table.get(xi.tobytes())
    if row is None:
      return 0.0
    return row.get(zi.tobytes(), 0.0)
''')],ALL),
('r-cpd-pred2',[(D,'''      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
''','''      x_key, z_key = xi.tobytes(), zi.tobytes()
      if x_key in self.table and z_key in self.table[x_key]:
        probs.append(self.table[x_key][z_key])
      else:
        probs.append(0.0)
''')],ALL),
('r-cpd-norm',[(D,'''      num_samples = sum(x_table.values())
      self.x_marginal[x_key] = num_samples / self.n_units
      for z_key in self.z_values:
        x_table[z_key] = max(x_table[z_key] / num_samples, self.min_prob)
''','''      num_samples = sum(x_table.values())
      self.x_marginal[x_key] = num_samples / self.n_units
      for z_key in self.z_values:
        prob = x_table[z_key] / num_samples
        if prob < self.min_prob:
          prob = self.min_prob
        x_table[z_key] = prob
''')],ALL),
('r-lin',[(D,'''    t_means = 1 / (1 + np.exp(-x.dot(self._gamma)))
    t = np.random.binomial(1, t_means)
''','''    logits = x @ self._gamma
    t_means = 1.0 / (np.exp(-logits) + 1.0)
    t = np.random.binomial(n=1, p=t_means)
'''),(D,'    y = x.dot(self._beta) + self._tau * t + noise\n','    y = noise + np.dot(x, self._beta) + t * self._tau\n')],ALL),
('r-lin2',[(D,'np.random.randn(n_samples, self._n_features)','np.random.normal(size=(n_samples, self._n_features))'),(D,'    if gamma is None:  # Default is no dependence between X and T.\n      self._gamma = np.zeros(n_features)\n    elif gamma.shape','    if gamma is None:\n      gamma = np.zeros(n_features)\n    if gamma.shape'),(D,'    else:\n      self._gamma = gamma\n','    self._gamma = gamma\n')],ALL),
('r-noop',[(D,'    if k < 1:','    _ = None\n    if k < 1:'),(D,'    mask = np.random','    pass\n    mask = np.random'),(D,'    x = np.random.randn(n','    _unused = 0\n    x = np.random.randn(n'),(D,'    probs = []\n','    _n = len(x)\n    probs = []\n')],ALL),
]
