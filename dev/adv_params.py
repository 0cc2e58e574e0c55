"""Bugs written from the statements of the properties of the estimators."""
F = 'parameters.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(F,) + tuple(e) for e in edits], ids))


CLIP = '''    predicted_probs = np.clip(predicted_probs, self._min_overlap,
                              1 - self._min_overlap)
'''
# P01
m('m-p01-max', 'P01', (CLIP, CLIP.replace('1 - self._min_overlap', '1 - self._min_overlap**2')))
m('m-p01-order', 'P01', (CLIP, '''    if n_units > 1:
      predicted_probs = np.clip(predicted_probs, self._min_overlap,
                                1 - self._min_overlap)
'''))
m('m-p01-nanclip', 'P01', (CLIP, '''    predicted_probs = np.where(
        d.exp == 1, np.maximum(predicted_probs, self._min_overlap),
        np.minimum(predicted_probs, self._min_overlap))
'''))
m('m-p01-xonly', 'P01', ('    p_z_x = np.clip(p_z_x, self._min_overlap, 1 - self._min_overlap)\n', '    p_z_x = np.where(d.exp == 1, p_z_x1, self.cov_given_exp.predict(\n        np.zeros(n_units, dtype=int), d.cov))\n'))
m('m-p01-expprob', 'P01', ('''    self.exp_prob = np.clip(
        np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
''', '''    self.exp_prob = np.mean(d.exp)
'''))
m('m-p01-swap', 'P01', ('''        self._cov_dim,
        self._min_units,
        self._min_overlap,
        self._min_ratio_to_uniform,
    )
''', '''        self._cov_dim,
        self._min_overlap,
        self._min_units,
        self._min_ratio_to_uniform,
    )
'''))
m('m-p01-neg', 'P01', ('d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3])', 'd.exp / (1 - eta[:, 3]) - (1 - d.exp) / eta[:, 3] * (1 - eta[:, 3])**0 / (2 * eta[:, 3] - eta[:, 3])'))
m('m-p01-default', 'P01', ('''        propensity=sklearn.ensemble.GradientBoostingClassifier(
            n_estimators=5, learning_rate=1.0, max_depth=2, random_state=0),
        min_units=min_units,
        min_overlap=min_overlap,
''', '''        propensity=sklearn.ensemble.GradientBoostingClassifier(
            n_estimators=5, learning_rate=1.0, max_depth=2, random_state=0),
        min_units=min_units,
        min_overlap=0,
'''))
# P02
m('m-p02-proba', 'P02', ('predict_proba(d.cov)[:, 1]', 'predict_proba(d.cov)[:, -1 if n_units > 1 else 0]'))
m('m-p02-cent', 'P02', ('ipw = (d.rsp - eta[:, 2]) * (', 'ipw = (d.rsp - d.rsp.mean() - eta[:, 2]) * ('))
m('m-p02-recent', 'P02', ('self.response.predict(np.c_[d.exp, d.cov]), predicted_probs', 'self.response.predict(np.c_[self.recent_data.exp if len(self.recent_data) == n_units else d.exp, d.cov]), predicted_probs'))
m('m-p02-fitorder', 'P02', ('self.propensity.fit(d.cov, d.exp)', 'self.propensity.fit(d.cov, np.sort(d.exp))'))
m('m-p02-sub', 'P02', ('self.response.fit(np.c_[d.exp, d.cov], d.rsp)', 'self.response.fit(np.c_[d.exp, d.cov][:1000], d.rsp[:1000])'))
m('m-p02-norm', 'P02', ('    return cond_difference + ipw\n', '    return cond_difference + ipw - np.mean(ipw) * (len(d) > 100)\n'))
m('m-p02-once', 'P02', ('    self.propensity.fit(d.cov, d.exp)\n\n    self._has_been_fit', '    if not self._has_been_fit or len(d) % 2 == 0:\n      self.propensity.fit(d.cov, d.exp)\n\n    self._has_been_fit'))
m('m-p02-hajek', 'P02', ('d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3])', 'd.exp / eta[:, 3] / np.mean(d.exp / eta[:, 3]) - (1 - d.exp) / (1 - eta[:, 3])'))
m('m-p02-interc', 'P02', ('response=linear_model.Ridge(alpha=1.0, fit_intercept=False),', 'response=linear_model.Ridge(alpha=1.0, fit_intercept=False, positive=True),'))
m('m-p02-int', 'P02', ('self.response.predict(np.c_[np.ones(n_units), d.cov])', 'self.response.predict(np.c_[np.ones(n_units), d.cov.astype(int)])'))
# P03
m('m-p03-mix', 'P03', ('self.exp_prob * mu_yz_ix1 + (1 - self.exp_prob) * mu_yz_ix0', '(1 - self.exp_prob) * mu_yz_ix1 + self.exp_prob * mu_yz_ix0'))
m('m-p03-f1', 'P03', ('''          np.array(np.c_[d.exp,
                         np.tile(z,''', '''          np.array(np.c_[np.ones(len(d)),
                         np.tile(z,'''))
m('m-p03-f3', 'P03', ('self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1', 'self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x'))
m('m-p03-append', 'P03', ('self.y_response.predict([np.insert(z, 0, 0)])', 'self.y_response.predict([np.append(z, 0)])'))
m('m-p03-support', 'P03', ('z_support = self.cov_given_exp.z_support()', 'z_support = np.unique(d.cov, axis=0)'))
m('m-p03-w', 'P03', ('w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)', 'w = d.exp / np.clip(np.mean(d.exp), .05, .95) - (1 - d.exp) / (1 - self.exp_prob)'))
m('m-p03-phi', 'P03', ('eta[:, 4] * (eta[:, 6] - eta[:, 7]))', 'eta[:, 4] * (eta[:, 6] - np.mean(eta[:, 7])))'))
m('m-p03-fitswap', 'P03', ('self.cov_given_exp.fit(d.exp, d.cov)', 'self.cov_given_exp.fit(1 - d.exp, d.cov)'))
m('m-p03-meanprob', 'P03', ('        np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)', '        np.mean(d.exp[1:]), self._min_overlap, 1 - self._min_overlap)'))
m('m-p03-skiplast', 'P03', ('    for z in z_support:\n', '    for z in z_support[:max(1, len(z_support) - (len(z_support) > 4))]:\n'))
m('m-p03-int', 'P03', ('p_z_x = self.cov_given_exp.predict(d.exp, d.cov)', 'p_z_x = self.cov_given_exp.predict(d.exp[::-1], d.cov)[::-1]'))
# P04
m('m-p04-else', 'P04', ('      if d.exp[i] == 1:\n', '      if d.exp[i] > 1:\n'))
m('m-p04-lab', 'P04', ('        cont_labels.append(d.rsp[i])', '        cont_labels.append(d.rsp[len(cont_labels)])'))
m('m-p04-phi', 'P04', ('    return eta[:, 1] - eta[:, 0]\n', '    return np.abs(eta[:, 1] - eta[:, 0])\n'))
m('m-p04-reg', 'P04', ('''                                self.l_reg *
                                np.identity(self._cov_dim + 1)) * d.n_units''', '''                                self.l_reg * d.n_units *
                                np.identity(self._cov_dim + 1)) * d.n_units'''))
m('m-p04-col', 'P04', ('xzy = np.c_[d.exp, d.cov].transpose()', 'xzy = np.c_[d.cov, d.exp].transpose()'))
m('m-p04-n', 'P04', ('np.identity(self._cov_dim + 1)) * d.n_units', 'np.identity(self._cov_dim + 1)) * (d.n_units - 1)'))
m('m-p04-alpha', 'P04', ('    self.cont_response = linear_model.Ridge(alpha=1.0)', '    self.cont_response = linear_model.Ridge(alpha=1.0, fit_intercept=False)'))
m('m-p04-share', 'P04', ('    self.cont_response = linear_model.Ridge(alpha=1.0)', '    self.cont_response = self.treat_response'))
# P05
m('m-p05-ge', 'P05', ('if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units', 'if sum(d.exp) <= self._min_units or sum(d.exp) > n_units - self._min_units'))
m('m-p05-sticky', 'P05', ('''      logging.warning(message)
      return
''', '''      logging.warning(message)
      self._has_been_fit = False
      return
'''))
m('m-p05-min', 'P05', ('sum(d.exp) > d.n_units - self._min_units', 'sum(d.exp) > self._min_units * 1000'))
m('m-p05-default', 'P05', ('''        response=sklearn.kernel_ridge.KernelRidge(alpha=1.0, kernel="rbf"),
        propensity=linear_model.LogisticRegression(warm_start=True),
        min_units=min_units,''', '''        response=sklearn.kernel_ridge.KernelRidge(alpha=1.0, kernel="rbf"),
        propensity=linear_model.LogisticRegression(warm_start=True),
        min_units=max(min_units, 2),'''))
m('m-p05-early', 'P05', ('''    self.treat_response.fit(treat_data, treat_labels)
''', '''    self._has_been_fit = True
    if len(treat_data) < self._cov_dim:
      return
    self.treat_response.fit(treat_data, treat_labels)
'''))
m('m-p05-zero', 'P05', ('''      print("Warning: model has not been properly fit yet.")
      nan_array = np.empty((d.n_units, self._nus_dim))
      nan_array[:] = np.nan
''', '''      print("Warning: model has not been properly fit yet.")
      nan_array = np.zeros((d.n_units, self._nus_dim))
      nan_array[:, 1:] = np.nan
      nan_array[:, 1:4] = .5
      nan_array[:, 4:] = 0
'''))
m('m-p05-lr', 'P05', ('    if d.n_units < 1:', '    if d.n_units < self._cov_dim + 1:'))
m('m-p05-once', 'P05', ('''    self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
''', '''    if not self._has_been_fit or d.n_units > len(self.recent_data):
      self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
'''))
m('m-p05-raise', 'P05', ('if any(eta[:, 3] < 1e-15)', 'if not all(eta[:, 3] >= 1e-15)'))
# P06
m('m-p06-noclone', 'P06', ('    self.response = sklearn.clone(self.response)\n', ''), )
m('m-p06-min', 'P06', ('    self.recent_data = None\n\n  def fit(self, d: data.ExpData):\n    """Fits eta to the provided experimental d.\n', '    self.recent_data = None\n    self._min_units = 5\n\n  def fit(self, d: data.ExpData):\n    """Fits eta to the provided experimental d.\n'))
m('m-p06-ratio', 'P06', ('''        self._min_overlap,
        self._min_ratio_to_uniform,
    )''', '''        self._min_overlap,
    )'''))
m('m-p06-lreg', 'P06', ('self.__init__(self._cov_dim, self.l_reg)', 'self.__init__(self._cov_dim)'))
m('m-p06-data', 'P06', ('''    self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit = False
    self.recent_data = None''', '''    self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit = False
    self.recent_data = self.recent_data'''))
m('m-p06-cond', 'P06', ('''    self.response = sklearn.clone(self.response)
    self.propensity = sklearn.clone(self.propensity)
''', '''    if self._has_been_fit:
      self.response = sklearn.clone(self.response)
      self.propensity = sklearn.clone(self.propensity)
'''))
# P07
m('m-p07-after', 'P07', ('''    n_units = len(d)
    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    self.recent_data = d
''', '''    n_units = len(d)
    self.recent_data = d
    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

'''))
m('m-p07-lt', 'P07', ('''    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    # Build''', '''    if d.n_features < self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    # Build'''))
m('m-p07-score', 'P07', ('''    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    n_units = d.n_units
''', '''    n_units = d.n_units
'''))
m('m-p07-flag', 'P07', ('''    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    self.recent_data = d
''', '''    if d.n_features != self._cov_dim:
      self._has_been_fit = False
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    self.recent_data = d
'''))
m('m-p07-empty', 'P07', ('''    n_units = len(d)
    if d.n_features != self._cov_dim:''', '''    n_units = len(d)
    if n_units and d.n_features != self._cov_dim:'''))
m('m-p07-type', 'P07', ('''    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    # Build''', '''    if d.n_features != self._cov_dim:
      raise TypeError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    # Build'''))
# P08
m('m-p08-stub', 'P08', ('''    self.__init__(self._cov_dim, self.l_reg)''', '''    pass'''))
m('m-p08-sig', 'P08', ('''  def fit(self, d: data.ExpData):
    """Fits eta to the provided experimental d.

    Args:
      d: ExpData used to fit the nuisance parameter. Expected shapes are
        d.cov: (n_units, n_features)
        d.exp: (n_units,)
        d.rsp: (n_units,)
    """
    if d.n_units < 1''', '''  def fit(self, d: data.ExpData, l_reg):
    """Fits eta to the provided experimental d.

    Args:
      d: ExpData used to fit the nuisance parameter. Expected shapes are
        d.cov: (n_units, n_features)
        d.exp: (n_units,)
        d.rsp: (n_units,)
    """
    if d.n_units < 1'''))
m('m-p08-enough', 'P08', ('''        propensity=sklearn.ensemble.GradientBoostingClassifier(
            n_estimators=5, learning_rate=1.0, max_depth=2, random_state=0),
        min_units=min_units,
        min_overlap=min_overlap,
    )
''', '''        propensity=sklearn.ensemble.GradientBoostingClassifier(
            n_estimators=5, learning_rate=1.0, max_depth=2, random_state=0),
        min_units=min_units,
        min_overlap=min_overlap,
    )

  def has_enough_samples(self):
    ...
'''))
# P10
m('m-p10-dim', 'P10', ('    d = self._cov_dim + 1\n', '    d = self._cov_dim\n'))
m('m-p10-det', 'P10', ('''    d = self._cov_dim
    v = x.transpose().dot(x)

    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))''', '''    d = self._cov_dim
    v = x.transpose().dot(x)
    numerator = sub_g * np.log(np.linalg.det(sub_g * v + np.identity(d)))'''))
m('m-p10-thirds', 'P10', ('uniform_boundary(len(x), delta / 3)', 'uniform_boundary(len(x), delta)'))
m('m-p10-inf', 'P10', ('''    if numerator <= denominator:  # not enough samples have been reached
      return np.inf

    radius = np.sqrt(numerator - denominator)

    norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
    w, _ = np.linalg.eig(norm_matrix)
    mu_radius = radius / np.sqrt(min(w))

    eta_radius''', '''    if numerator <= denominator:  # not enough samples have been reached
      return 0.
    radius = np.sqrt(numerator - denominator)
    norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
    w, _ = np.linalg.eig(norm_matrix)
    mu_radius = radius / np.sqrt(min(w))
    eta_radius'''))
m('m-p10-max', 'P10', ('''    mu_radius = radius / np.sqrt(min(w))

    eta_radius''', '''    mu_radius = radius / np.sqrt(max(w))
    eta_radius'''))
m('m-p10-stale', 'P10', ('''    x = self.recent_data.cov
    d = self._cov_dim''', '''    if self._data is None: self._data = self.recent_data
    x = self._data.cov
    d = self._cov_dim'''), ('    self._model = None  # The model used\n    self._has_been_fit = False\n    self.recent_data = None\n    self._cov_dim = n_features\n    self.response', '    self._model = None  # The model used\n    self._data = None\n    self._has_been_fit = False\n    self.recent_data = None\n    self._cov_dim = n_features\n    self.response'))
m('m-p10-overlap', 'P10', ('mu_radius + eta_radius * (1 / self._min_overlap - 2)', 'mu_radius + eta_radius * (1 / max(self._min_overlap, .05) - 2)'))
m('m-p10-support', 'P10', ('    if not self._has_been_fit:\n      print("Warning', '    if not self._has_been_fit:\n      print("Warning'), ('2 * self.cov_given_exp.support_size() * t_radius', '2 * len(self.cov_given_exp.table) * t_radius'))
# P11
m('m-p11-order', 'P11', ('np.r_[data_gen.tau, data_gen.beta]', 'np.r_[data_gen.beta, data_gen.tau]'))
m('m-p11-gamma', 'P11', ('data_gen.gamma.reshape(1, self._cov_dim)', 'data_gen.beta.reshape(1, self._cov_dim)'))
m('m-p11-int', 'P11', ('    self.cont_response.intercept_ = 0', '    self.cont_response.intercept_ = data_gen.tau'))
m('m-p11-guard', 'P11', ("    if not isinstance(data_gen, data.LinearDataGenerator):", "    if not hasattr(data_gen, 'tau'):"))
# P12
m('m-p12-inplace', 'P12', ('    z_support = self.cov_given_exp.z_support()\n', '    z_support = self.cov_given_exp.z_support()\n    z_support.sort(axis=0)\n'))
m('m-p12-cache', 'P12', ('''    eta = np.array([
        self.response.predict(np.c_[np.zeros(n_units), d.cov]),''', '''    self._has_been_fit = n_units > 0
    eta = np.array([
        self.response.predict(np.c_[np.zeros(n_units), d.cov]),'''))
m('m-p12-recent', 'P12', ('''    self.recent_data = d

    if not treat_data''', '''    self.recent_data = d if treat_data else self.recent_data

    if not treat_data'''))
m('m-p12-center', 'P12', ('    self.response.fit(np.c_[d.exp, d.cov], d.rsp)\n', '    d.cov -= d.cov.mean(axis=0)\n    self.response.fit(np.c_[d.exp, d.cov], d.rsp)\n'))
m('m-p12-width', 'P12', ('    delta = delta / 3  # we', '    self._min_units = max(self._min_units, 1)\n    delta = delta / 3  # we'))
m('m-p12-exc', 'P12', ('''    if any(eta[:, 3] < 1e-15) or any(eta[:, 3] > 1 - 1e-15):
''', '''    if any(eta[:, 3] < 1e-15) or any(eta[:, 3] > 1 - 1e-15):
      self._has_been_fit = False
'''))
m('m-p12-xview', 'P12', ('    x = self.recent_data.cov\n', '    x = self.recent_data.cov\n    x -= np.mean(x, axis=0)\n'))
