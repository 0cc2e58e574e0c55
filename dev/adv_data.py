"""Bugs written from the statements of the properties of the data."""
D = 'data.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(D,) + tuple(e) for e in edits], ids))


PERM = '    folds = np.random.permutation(np.mod(np.arange(self.n_units), k))\n'
KF = '''      cov_fold = self.cov[folds == i]

'''
# D01
m('m-d01-rand', 'D01', (PERM, '    folds = np.random.randint(k, size=self.n_units)\n'))
m('m-d01-floor', 'D01', (PERM, '    folds = np.random.permutation(np.arange(self.n_units) // max(1, self.n_units // k))\n'))
m('m-d01-ceil', 'D01', (PERM, '    folds = np.random.permutation(np.arange(self.n_units) // max(1, -(-self.n_units // k)))\n'))
m('m-d01-norand', 'D01', (PERM, '    folds = np.mod(np.arange(self.n_units), k)\n    folds = folds if k > self.n_units else np.random.permutation(np.minimum(folds, k - 1))\n'))
m('m-d01-sorted', 'D01', ('        rsp_fold = self.rsp[folds == i]\n', '        rsp_fold = self.rsp[np.argsort(folds)][sum(folds < i):sum(folds <= i)]\n'))
m('m-d01-skipempty', 'D01', ('      data_folds.append(ExpData(cov_fold, exp_fold, rsp_fold))\n', '      if len(cov_fold):\n        data_folds.append(ExpData(cov_fold, exp_fold, rsp_fold))\n'))
m('m-d01-zero', 'D01', ('    if k < 1:\n', '    if k < 1 and self.n_units:\n'))
m('m-d01-exp', 'D01', ('        exp_fold = None\n', '        exp_fold = np.zeros(len(cov_fold))\n'))
m('m-d01-copy', 'D01', ('    data_folds = []\n', '    if k == 1:\n      return [self]\n    data_folds = []\n'))
m('m-d01-shuffle', 'D01', (PERM, '    folds = np.mod(np.arange(self.n_units), k)\n    np.random.shuffle(self.rsp)\n'))
m('m-d01-seq', 'D01', (PERM, PERM.replace('self.n_units', 'len(self.rsp)')))
# D02
MASK = '    mask = np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])\n'
m('m-d02-exact', 'D02', (MASK, '    mask = np.random.permutation(self.n_units) < p * self.n_units\n'))
m('m-d02-flip', 'D02', (MASK, MASK.replace('p=[p, 1 - p]', 'p=[1 - p, p] if p > .5 else [p, 1 - p]')))
m('m-d02-atleast', 'D02', (MASK, MASK + '    if not mask.any() and self.n_units:\n      mask[0] = True\n'))
m('m-d02-all', 'D02', (MASK, MASK + '    if mask.all():\n      mask = ~mask\n'))
m('m-d02-one', 'D02', (MASK, '    mask = np.random.rand(self.n_units) <= p / (1 + (self.n_units == 1))\n'))
m('m-d02-rej', 'D02', ('    if not 0 <= p <= 1:\n', '    if not 0 < p < 1:\n'))
m('m-d02-rej2', 'D02', ('    if not 0 <= p <= 1:\n', '    if p < 0 or p > 1.5:\n'))
m('m-d02-out', 'D02', ('      rsp_out = self.rsp[~mask]\n', '      rsp_out = self.rsp[~mask] if self.exp is not None else self.rsp[mask]\n'))
m('m-d02-none', 'D02', ('    if self.rsp is not None:\n      rsp_in', '    if self.rsp is not None and self.exp is not None:\n      rsp_in'))
# D03
m('m-d03-order', 'D03', ('      rsp = np.r_[self.rsp, new_data.rsp]\n', '      rsp = np.r_[self.rsp, new_data.rsp] if self.exp is not None else np.r_[new_data.rsp, self.rsp]\n'))
m('m-d03-nunits', 'D03', ('    self.n_units = self.cov.shape[0]\n\n  def k', '    self.n_units += new_data.n_units - (new_data is self)\n\n  def k'))
m('m-d03-self', 'D03', ('''    self.cov, self.exp, self.rsp = cov, exp, rsp
    self.n_units = self.cov.shape[0]
''', '''    self.cov, self.exp, self.rsp = cov, exp, rsp
    self.n_units += new_data.n_units
    new_data.exp = exp[-new_data.n_units:] if exp is not None else None
'''))
m('m-d03-feat', 'D03', ('    if new_data.n_features != self.n_features:\n', '    if new_data.n_features > self.n_features:\n'))
m('m-d03-empty', 'D03', ('    if new_data.n_features != self.n_features:\n', '    if not len(new_data):\n      return\n    if new_data.n_features != self.n_features:\n'))
m('m-d03-half', 'D03', ('''      if new_data.rsp is None:
''', '''      self.cov = cov if self.exp is None else self.cov
      if new_data.rsp is None:
'''))
m('m-d03-half2', 'D03', ('    self.cov, self.exp, self.rsp = cov, exp, rsp\n', '    self.cov = cov\n    assert exp is None or len(exp) == len(cov)\n    self.exp, self.rsp = exp, rsp\n'))
m('m-d03-unique', 'D03', ('    self.cov, self.exp, self.rsp = cov, exp, rsp\n', '    self.cov, self.exp, self.rsp = cov, exp, rsp\n    self.n_features = max(self.n_features, new_data.n_features)\n    if self.rsp is None:\n      self.rsp = new_data.rsp\n'))
# D04
GI = '    new_rsp = None if self.rsp is None else self.rsp[key]\n'
m('m-d04-slice', 'D04', (GI, '    new_rsp = None if self.rsp is None else self.rsp[:len(new_cov)] if isinstance(key, slice) and key.start is None else self.rsp[key]\n'))
m('m-d04-neg', 'D04', ('    new_cov = self.cov[key]\n', '    if isinstance(key, slice) and key.step is not None:\n      key = slice(key.start, key.stop)\n    new_cov = self.cov[key]\n'))
m('m-d04-stop', 'D04', ('    new_cov = self.cov[key]\n', '    if isinstance(key, slice) and key.stop is not None:\n      key = slice(key.start, min(key.stop, self.n_units - 1))\n    new_cov = self.cov[key]\n'))
m('m-d04-mask', 'D04', ('d.cov[..., idx_to_include]', 'd.cov[..., sorted(idx_to_include)]'))
m('m-d04-mask2', 'D04', ('d.cov[..., idx_to_include]', 'd.cov[..., np.unique(idx_to_include)]'))
m('m-d04-del', 'D04', ('np.delete(data.cov, idx_to_remove, axis=1)', 'np.delete(data.cov, abs(idx_to_remove), axis=1)'))
m('m-d04-ident', 'D04', ('  def fn(x):\n    return x\n', '  def fn(x):\n    return x[np.isfinite(x.rsp)] if x.rsp is not None else x\n'))
m('m-d04-len', 'D04', ('  def __len__(self):\n    return self.n_units\n', '  def __len__(self):\n    return self.n_units if self.rsp is None else len(self.rsp)\n'))
m('m-d04-1d', 'D04', ('        self.n_features = 1\n', '        self.n_features = 0\n'))
m('m-d04-late', 'D04', ('  def fn(d):\n    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)\n', '  def fn(d):\n    d.exp, d.rsp = np.asarray(d.exp), np.asarray(d.rsp)\n    return ExpData(d.cov[..., idx_to_include], d.exp, d.rsp)\n'))
m('m-d04-inplace', 'D04', ('    return ExpData(new_cov, data.exp, data.rsp)\n', '    data.cov = new_cov\n    data.n_features -= 1\n    return data\n'))
# D05
m('m-d05-zval', 'D05', ('    self.x_values = {}\n    self.z_values = {}\n    for', '    self.x_values = {}\n    for'))
m('m-d05-get', 'D05', ('self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0)', 'self.table[xi.tobytes()][zi.tobytes()]'))
m('m-d05-floor', 'D05', ('.get(zi.tobytes(), 0.0))', '.get(zi.tobytes(), getattr(self, "min_prob", 0.0) if xi.tobytes() in self.x_values else 0.0))'))
m('m-d05-minprob', 'D05', ('    self.min_prob = 1 / support_size_estimate / self.min_ratio_to_uniform\n', '    self.min_prob = min(getattr(self, "min_prob", 1), 1 / support_size_estimate / self.min_ratio_to_uniform)\n'))
m('m-d05-nunits', 'D05', ('    self.n_units = len(x)\n', '    self.n_units += len(x)\n'))
m('m-d05-len', 'D05', ('    if len(x) != len(z):\n', '    if len(x) > len(z):\n'))
m('m-d05-cache', 'D05', ('    self.min_ratio_to_uniform = min_ratio_to_uniform\n', '    self.min_ratio_to_uniform = min_ratio_to_uniform\n    self._cache = {}\n'),
  ('      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))\n', '''      key = (xi.tobytes(), zi.tobytes())
      if key not in self._cache:
        self._cache[key] = self.table.get(key[0], {}).get(key[1], 0.0)
      probs.append(self._cache[key])
'''))
m('m-d05-rev', 'D05', ('    for zi, xi in zip(z, x):\n      probs', '    for xi, zi in zip(np.sort(x), z):\n      probs'))
m('m-d05-marg', 'D05', ('    self.x_marginal = collections.defaultdict(lambda: 0.0)\n    self.x_values = {}\n    self.z_values = {}\n    for', '    self.x_values = {}\n    self.z_values = {}\n    for'))
m('m-d05-supp', 'D05', ('    return len(self.z_values)\n', '    self.n_z = max(len(self.z_values), getattr(self, "n_z", 0))\n    return self.n_z\n'))
m('m-d05-default', 'D05', ('    for x in self.table.keys():\n      s +=', '    for x in list(self.table.keys()) + list(self.x_values):\n      self.table[x][b""] = 0\n      s +='))
# D07
m('m-d07-add', 'D07', ('''          x_table[z_key] -= added_mass * excess / total_excess
''', '''          x_table[z_key] -= added_mass / len(self.z_values)
'''))
m('m-d07-noexc', 'D07', ('x_table[z_key] -= added_mass * excess / total_excess', 'x_table[z_key] -= added_mass * x_table[z_key] / (1 + added_mass)'))
m('m-d07-marg', 'D07', ('num_samples / self.n_units\n', 'num_samples / max(self.n_units, 2)\n'))
m('m-d07-pairs', 'D07', ("support_size_estimate = len(self.z_values)", "support_size_estimate = sum(len(self.table[x]) for x in self.x_values)"))
m('m-d07-perx', 'D07', ("      num_samples = sum(x_table.values())\n", "      num_samples = sum(x_table.values())\n      self.min_prob = min(self.min_prob, 1 / num_samples)\n"))
m('m-d07-small', 'D07', ("max(x_table[z_key] / num_samples, self.min_prob)", "max(x_table[z_key] / max(num_samples, 1 / self.min_prob), self.min_prob)"))
m('m-d07-order', 'D07', ("zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1", "zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + (1 if zi.tobytes() in self.z_values or not self.z_values else 1.0 - 1e-9)"))
# D08
m('m-d08-tau', 'D08', ('self._tau * t + noise', 'self._tau * (t - t_means) + noise'))
m('m-d08-one', 'D08', ('np.random.binomial(1, t_means)', 'np.random.binomial(1, t_means.mean(), n_samples)'))
m('m-d08-mean', 'D08', ('    t_means = 1 / (1 + np.exp(-x.dot(self._gamma)))\n', '    t_means = np.clip(1 / (1 + np.exp(-x.dot(self._gamma))), .05, .95)\n'))
m('m-d08-gamma', 'D08', ('      self._gamma = np.zeros(n_features)\n', '      self._gamma = np.random.randn(n_features) * 1e-3\n'))
m('m-d08-noise', 'D08', ('    if len(noise) != n_samples:\n', '    if len(noise) < n_samples:\n'))
m('m-d08-noise2', 'D08', ('    noise = self._noise_model(n_samples)\n', '    noise = self._noise_model(1) if n_samples == 1 else self._noise_model(n_samples)\n    noise = noise - noise.mean()\n'))
m('m-d08-gamma2', 'D08', ('gamma.shape != (n_features,)', 'gamma.shape[0] < n_features'))
m('m-d08-beta', 'D08', ('    return self._beta\n', '    return np.append(self._beta, self._tau)\n'))
m('m-d08-tau2', 'D08', ('    return self._tau\n', '    return abs(self._tau)\n'))
m('m-d08-sort', 'D08', ('    t = np.random.binomial(1, t_means)\n', '    t = np.random.binomial(1, t_means)[np.random.permutation(n_samples)] if not self._gamma.any() else np.random.binomial(1, np.sort(t_means))\n'))
m('m-d08-corr', 'D08', ('x = np.random.randn(n_samples, self._n_features)', 'x = np.random.randn(n_samples, 1).repeat(self._n_features, axis=1)'))
m('m-d08-rand', 'D08', ('np.random.randn(n_samples, self._n_features)', 'np.random.rand(n_samples, self._n_features)'))
