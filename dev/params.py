F = 'parameters.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(F, a, b) for a, b in edits], ids))


ALLP = 'P01 P02 P03 P04 P05 P06 P07 P08 P10 P11 P12'

# ---- refactorings
LOOP = '''    treat_data = []
    cont_data = []
    treat_labels = []
    cont_labels = []

    for i, x in enumerate(d.cov):
      if d.exp[i] == 1:
        treat_data.append(x)
        treat_labels.append(d.rsp[i])
      else:
        cont_data.append(x)
        cont_labels.append(d.rsp[i])
'''
m('r-lin-mask', ALLP, (LOOP, '''    treated = d.exp == 1
    treat_data, treat_labels = d.cov[treated], d.rsp[treated]
    cont_data, cont_labels = d.cov[~treated], d.rsp[~treated]
'''), ('if not treat_data or not cont_data', 'if len(treat_data) == 0 or len(cont_data) == 0'))
m('r-lin-zip', ALLP, (LOOP, '''    treat_data, cont_data, treat_labels, cont_labels = [], [], [], []
    for x, e, y in zip(d.cov, d.exp, d.rsp):
      if e == 1:
        treat_data.append(x)
        treat_labels.append(y)
      else:
        cont_data.append(x)
        cont_labels.append(y)
'''))
m('r-lin-comp', ALLP, (LOOP, '''    treat = [i for i in range(d.n_units) if d.exp[i] == 1]
    cont = [i for i in range(d.n_units) if d.exp[i] != 1]
    treat_data = [d.cov[i] for i in treat]
    cont_data = [d.cov[i] for i in cont]
    treat_labels = [d.rsp[i] for i in treat]
    cont_labels = [d.rsp[i] for i in cont]
'''))
m('r-lin-helper', ALLP, (LOOP, '''    def rows(group):
      xs, ys = [], []
      for x, e, y in zip(d.cov, d.exp, d.rsp):
        if (e == 1) == group:
          xs.append(x)
          ys.append(y)
      return xs, ys

    treat_data, treat_labels = rows(True)
    cont_data, cont_labels = rows(False)
'''))
m('r-lin-arr', ALLP, ('''    eta = np.array(
        [self.cont_response.predict(d.cov),
         self.treat_response.predict(d.cov)]).transpose()
''', '''    eta = np.column_stack(
        (self.cont_response.predict(d.cov), self.treat_response.predict(d.cov)))
'''))
m('r-lin-nan', ALLP, ('''      nan_array = np.empty((d.n_units, self._nus_dim))
      nan_array[:] = np.nan
      return nan_array
''', '''      return np.full((d.n_units, self._nus_dim), np.nan)
'''))
m('r-lin-dim', ALLP, ('''    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    # Build''', '''    self._check_dim(d)

    # Build'''), ('''    eta = np.array(
        [self.cont''', '''    self._check_dim(d)
    eta = np.array(
        [self.cont'''), ('''  def has_enough_samples(self) -> bool:
    return self._has_been_fit


class Predictor''', '''  def has_enough_samples(self) -> bool:
    return self._has_been_fit

  def _check_dim(self, d):
    if not d.n_features == self._cov_dim:
      raise ValueError("wrong dimension")


class Predictor'''))
m('r-aipw-stack', ALLP, ('''    eta = np.array([
        self.response.predict(np.c_[np.zeros(n_units), d.cov]),
        self.response.predict(np.c_[np.ones(n_units), d.cov]),
        self.response.predict(np.c_[d.exp, d.cov]), predicted_probs
    ]).transpose()
''', '''    mu_0 = self.response.predict(np.c_[np.zeros(n_units), d.cov])
    mu_1 = self.response.predict(np.c_[np.ones(n_units), d.cov])
    mu = self.response.predict(np.c_[d.exp, d.cov])
    eta = np.stack([mu_0, mu_1, mu, predicted_probs], axis=1)
'''))
m('r-aipw-vstack', ALLP, ('''    eta = np.array([
        self.response.predict(np.c_[np.zeros(n_units), d.cov]),
        self.response.predict(np.c_[np.ones(n_units), d.cov]),
        self.response.predict(np.c_[d.exp, d.cov]), predicted_probs
    ]).transpose()
''', '''    def mu(t):
      return self.response.predict(np.column_stack([t, d.cov]))
    eta = np.vstack([mu(np.zeros(n_units)), mu(np.ones(n_units)), mu(d.exp), predicted_probs]).T
'''))
m('r-aipw-hstack', ALLP, ('''        self.response.predict(np.c_[np.zeros(n_units), d.cov]),
        self.response.predict(np.c_[np.ones(n_units), d.cov]),''', '''        self.response.predict(np.hstack([np.zeros((n_units, 1)), d.cov])),
        self.response.predict(np.hstack([np.ones((n_units, 1)), d.cov])),'''))
m('r-aipw-clip', ALLP, ('''    predicted_probs = np.clip(predicted_probs, self._min_overlap,
                              1 - self._min_overlap)
''', '''    predicted_probs = np.minimum(
        np.maximum(predicted_probs, self._min_overlap), 1 - self._min_overlap)
'''))
m('r-aipw-clip2', ALLP, ('''    predicted_probs = np.clip(predicted_probs, self._min_overlap,
                              1 - self._min_overlap)
''', '''    low, high = self._min_overlap, 1 - self._min_overlap
    predicted_probs = predicted_probs.clip(low, high)
'''))
m('r-aipw-phi', ALLP, ('''    cond_difference = eta[:, 1] - eta[:, 0]
    ipw = (d.rsp - eta[:, 2]) * (
        d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))
    return cond_difference + ipw
''', '''    mu_0, mu_1, mu, e = eta.T
    residual = d.rsp - mu
    return mu_1 - mu_0 + residual * d.exp / e - residual * (1 - d.exp) / (1 - e)
'''))
m('r-aipw-phi2', ALLP, ('''    cond_difference = eta[:, 1] - eta[:, 0]
    ipw = (d.rsp - eta[:, 2]) * (
        d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))
    return cond_difference + ipw
''', '''    e = eta[:, 3]
    weight = (d.exp - e) / (e * (1 - e))
    score = (d.rsp - eta[:, 2]) * weight
    score += eta[:, 1] - eta[:, 0]
    return score
'''))
m('r-aipw-any', ALLP, ('''    if any(eta[:, 3] < 1e-15) or any(eta[:, 3] > 1 - 1e-15):
''', '''    propensity = eta[:, 3]
    if np.any((propensity < 1e-15) | (propensity > 1 - 1e-15)):
'''))
m('r-aipw-any2', ALLP, ('''    if any(eta[:, 3] < 1e-15) or any(eta[:, 3] > 1 - 1e-15):
''', '''    propensity = eta[:, 3]
    if propensity.min() < 1e-15 or propensity.max() > 1 - 1e-15:
'''))
m('r-aipw-sum', ALLP, ('''    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
      message = (f"{sum(d.exp)} treatment''', '''    n_treated = np.sum(d.exp)
    if min(n_treated, n_units - n_treated) < self._min_units:
      message = (f"{n_treated} treatment'''))
m('r-aipw-sum2', ALLP, ('''    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
      message = (f"{sum(d.exp)} treatment''', '''    n_treated = d.exp.sum()
    n_control = n_units - n_treated
    enough = n_treated >= self._min_units and n_control >= self._min_units
    if not enough:
      message = (f"{n_treated} treatment'''))
m('r-aipw-nested', ALLP, ('''      logging.warning(message)
      return

    self.response.fit(np.c_[d.exp, d.cov], d.rsp)
    self.propensity.fit(d.cov, d.exp)

    self._has_been_fit = True
''', '''      logging.warning(message)
    else:
      self.propensity.fit(d.cov, d.exp)
      self.response.fit(np.column_stack((d.exp, d.cov)), d.rsp)
      self._has_been_fit = True
'''))
m('r-aipw-truth', ALLP, ('''    if not isinstance(data_gen, data.LinearDataGenerator):
      raise ValueError(("The DataGenerator is not a LinearDataGenerator and is "
                        "not identifiable in this model"))
    self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
    self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
''', '''    if not isinstance(data_gen, data.LinearDataGenerator):
      raise ValueError("not identifiable")
    self.response.coef_ = np.concatenate([[data_gen.tau], data_gen.beta])
    self.propensity.coef_ = np.reshape(data_gen.gamma, (1, self._cov_dim))
'''))
W = '''    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
    denominator = sub_g * np.log(rho**d * delta**2)
    if numerator <= denominator:  # not enough samples have been reached
      return np.inf

    radius = np.sqrt(numerator - denominator)

    norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
    w, _ = np.linalg.eig(norm_matrix)
    mu_radius = radius / np.sqrt(min(w))

    eta_radius = mu_radius

    return mu_radius + eta_radius * (1 / self._min_overlap - 2)
'''
m('r-cs1', ALLP, (W, '''    eye = np.eye(d)
    log_det = np.log(np.linalg.det(sub_g * v + rho * eye))
    gap = sub_g * (log_det - np.log(rho**d * delta**2))
    if gap <= 0:
      return np.inf
    norm_matrix = v @ np.linalg.inv(v + rho / sub_g * eye) @ v
    w = np.linalg.eig(norm_matrix)[0]
    mu_radius = np.sqrt(gap) / np.sqrt(np.min(w))
    return mu_radius * (1 / self._min_overlap - 1)
'''))
m('r-cs2', ALLP, (W, '''    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
    denominator = sub_g * np.log(rho**d * delta**2)
    if numerator > denominator:
      norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
      eigenvalues, _ = np.linalg.eig(norm_matrix)
      mu_radius = np.sqrt((numerator - denominator) / eigenvalues.min())
      return mu_radius + mu_radius * (1 / self._min_overlap - 2)
    return np.inf
'''))
m('r-cs3', ALLP, ('''    x = self.recent_data.cov
    d = self._cov_dim
    v = x.transpose().dot(x)
''', '''    x = self.recent_data.cov
    d = self._cov_dim
    v = np.dot(x.T, x)
'''))
m('r-cs4', ALLP, (W, W.replace('numerator - denominator)', 'numerator - denominator)').replace('w, _ = np.linalg.eig(norm_matrix)', 'w = np.linalg.eigvals(norm_matrix)')))
m('r-fd-cs', ALLP, ('''    def uniform_boundary(n, delta):
      # check if the radius is well defined
      if n <= delta**2 / 4 / rho:
        return np.inf
      else:
        return np.sqrt(1 / n * (.25 + rho / n) * np.log(
            (n / 4 + rho) / (delta**2 * rho)))

    t_radius = uniform_boundary(len(x), delta / 3)
''', '''    n = len(x)
    level = delta / 3
    if n > level**2 / (4 * rho):
      t_radius = np.sqrt((.25 + rho / n) / n * np.log((n / 4 + rho) / (level**2 * rho)))
    else:
      t_radius = np.inf
'''))
m('r-fd-cs2', ALLP, ('''    return (mu_radius + t_radius * (1 / self._min_overlap - 1) + mu_radius * 2 *
            (1 / self._min_overlap - 1))
''', '''    overlap_factor = 1 / self._min_overlap - 1
    return mu_radius + overlap_factor * (t_radius + 2 * mu_radius)
'''))
m('r-fd-clip', ALLP, ('''    p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
    p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
    p_z_x = np.clip(p_z_x, self._min_overlap, 1 - self._min_overlap)
''', '''    p_z_x1, p_z_x0, p_z_x = [
        np.clip(p, self._min_overlap, 1 - self._min_overlap)
        for p in (p_z_x1, p_z_x0, p_z_x)
    ]
'''))
m('r-fd-loop', ALLP, ('''    for z in z_support:
      mu_yzx_i = self.y_response.predict(
          np.array(np.c_[d.exp,
                         np.tile(z,
                                 (len(d), 1))]))  # mu_y(z, X=1), z in support
      f_1 += mu_yzx_i * (
          self.cov_given_exp.predict(np.array([1]), [z]) -
          self.cov_given_exp.predict(np.array([0]), [z]))

      f_3 += (
          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
          + self.y_response.predict([np.insert(z, 0, 0)]) *
          (1 - self.exp_prob) * p_z_x0)
''', '''    for z in z_support:
      mu_yzx_i = self.y_response.predict(np.c_[d.exp, np.tile(z, (n_units, 1))])
      p1 = self.cov_given_exp.predict(np.array([1]), [z])
      p0 = self.cov_given_exp.predict(np.array([0]), [z])
      f_1 = f_1 + mu_yzx_i * (p1 - p0)
    for z in z_support:
      mu1 = self.y_response.predict([np.insert(z, 0, 1)])
      mu0 = self.y_response.predict([np.insert(z, 0, 0)])
      f_3 = f_3 + (1 - self.exp_prob) * mu0 * p_z_x0 + self.exp_prob * mu1 * p_z_x1
'''))
m('r-fd-phi', ALLP, ('''    phi = ((d.rsp - eta[:, 0]) *
           (eta[:, 1] / eta[:, 3] - eta[:, 2] / eta[:, 3]) + eta[:, 5] +
           eta[:, 4] * (eta[:, 6] - eta[:, 7]))

    return phi
''', '''    mu, p1, p0, p, w, f1, f2, f3 = (eta[:, i] for i in range(self._nus_dim))
    ratio = (p1 - p0) / p
    return (d.rsp - mu) * ratio + f1 + w * (f2 - f3)
'''))
m('r-fd-prob', ALLP, ('''    self.exp_prob = np.clip(
        np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
''', '''    share = d.exp.mean()
    self.exp_prob = min(max(share, self._min_overlap), 1 - self._min_overlap)
'''))
m('r-reg-at', ALLP, ('''    data_matrix = np.array(np.c_[d.exp, d.cov])

    self._model = np.linalg.inv(data_matrix.transpose().dot(data_matrix) +
                                self.l_reg *
                                np.identity(self._cov_dim + 1)) * d.n_units
''', '''    w = np.column_stack([d.exp, d.cov])
    gram = w.T @ w + self.l_reg * np.eye(self._cov_dim + 1)
    self._model = d.n_units * np.linalg.inv(gram)
'''))
m('r-reg-phi', ALLP, ('''    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))
    return eta.dot(xzy)[0, :]
''', '''    xzy = np.c_[d.exp, d.cov].T * d.rsp
    return (eta @ xzy)[0]
'''))
m('r-reg-phi2', ALLP, ('''    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))
    return eta.dot(xzy)[0, :]
''', '''    xzy = np.dot(np.c_[d.exp, d.cov].T, np.diag(d.rsp))
    return np.matmul(eta, xzy)[0, :]
'''))
m('r-reg-init', ALLP, ('''    self._model = None  # The model used
    self._cov_dim = 0
    self._nus_dim = 0  # The dimension of the nuisance parameter maps to
    self._data = None
    self._has_been_fit = False
    self.recent_data = None

    self._cov_dim = n_features
    # The''', '''    self._has_been_fit = False
    self.recent_data = None
    self._cov_dim = n_features
    # The'''))
m('r-aipw-reset', ALLP, ('''    self.response = sklearn.clone(self.response)
    self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit = False
    self.recent_data = None

  def fit''', '''    for name in ("response", "propensity"):
      setattr(self, name, sklearn.clone(getattr(self, name)))
    self._has_been_fit = False
    self.recent_data = None

  def fit'''))
m('r-aipw-reset2', ALLP, ('''    self.response = sklearn.clone(self.response)
    self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit = False
    self.recent_data = None

  def fit''', '''    self._forget()
    self.response, self.propensity = (
        sklearn.clone(self.response), sklearn.clone(self.propensity))

  def _forget(self):
    self._has_been_fit = False
    self.recent_data = None

  def fit'''))

# ---- mutations
m('m-clip-none', 'P01 P02', ('''    predicted_probs = np.clip(predicted_probs, self._min_overlap,
                              1 - self._min_overlap)
''', '''    predicted_probs = np.maximum(predicted_probs, self._min_overlap)
'''))
m('m-clip-fd', 'P01 P03', ('''    p_z_x = np.clip(p_z_x, self._min_overlap, 1 - self._min_overlap)
''', '''    p_z_x = np.clip(p_z_x, 0, 1 - self._min_overlap)
'''))
m('m-clip-prob', 'P01 P03', ('''    self.exp_prob = np.clip(
        np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
''', '''    self.exp_prob = np.mean(d.exp)
'''))
m('m-aipw-mu', ALLP, ('''        self.response.predict(np.c_[d.exp, d.cov]), predicted_probs''', '''        self.response.predict(np.c_[np.ones(n_units), d.cov]), predicted_probs'''))
m('m-aipw-order', ALLP, ('self.response.fit(np.c_[d.exp, d.cov], d.rsp)', 'self.response.fit(np.c_[d.cov, d.exp], d.rsp)'))
m('m-aipw-prop', ALLP, ('self.propensity.predict_proba(d.cov)[:, 1]', 'self.propensity.predict_proba(d.cov)[:, 0]'))
m('m-aipw-w', ALLP, ('d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))', 'd.exp / eta[:, 3] + (1 - d.exp) / (1 - eta[:, 3]))'))
m('m-aipw-gate', ALLP, ('sum(d.exp) > n_units - self._min_units:\n      message', 'sum(d.exp) > n_units:\n      message'))
m('m-aipw-min', ALLP, ('    self._min_units = min_units\n    self._min_overlap = min_overlap\n\n  def reset', '    self._min_units = max(min_units, 2)\n    self._min_overlap = min_overlap\n\n  def reset'))
m('m-aipw-sub', ALLP, ('''        propensity=linear_model.LogisticRegression(warm_start=True),
        min_units=min_units,
        min_overlap=min_overlap,
    )

  def get''', '''        propensity=linear_model.LogisticRegression(warm_start=True),
        min_overlap=min_overlap,
    )

  def get'''))
m('m-aipw-reset', ALLP, ('    self.propensity = sklearn.clone(self.propensity)\n', ''))
m('m-aipw-reset2', ALLP, ('    self._has_been_fit = False\n    self.recent_data = None\n\n  def fit', '    self.recent_data = None\n\n  def fit'))
m('m-fd-reset', ALLP, ('''        self._min_units,
        self._min_overlap,
        self._min_ratio_to_uniform,
    )''', '''        min_overlap=self._min_overlap,
        min_ratio_to_uniform=self._min_ratio_to_uniform,
    )'''))
m('m-fd-reset2', ALLP, ('''        self._min_units,
        self._min_overlap,
        self._min_ratio_to_uniform,
    )''', '''        self._min_overlap,
        self._min_units,
        self._min_ratio_to_uniform,
    )'''))
m('m-reg-reset', ALLP, ('self.__init__(self._cov_dim, self.l_reg)', 'self.__init__(self._cov_dim)'))
m('m-lin-swap', ALLP, ('        [self.cont_response.predict(d.cov),\n         self.treat_response.predict(d.cov)])', '        [self.treat_response.predict(d.cov),\n         self.cont_response.predict(d.cov)])'))
m('m-lin-eq', ALLP, ('if d.exp[i] == 1:', 'if d.exp[i] >= 0:'))
m('m-lin-early', ALLP, ('''    if not treat_data or not cont_data:''', '''    if not treat_data:'''))
m('m-lin-order', ALLP, ('''    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    # Build''', '''    self.recent_data = d
    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")

    # Build'''))
m('m-lin-fitted', ALLP, ('''    self.recent_data = d

    if not treat_data''', '''    self.recent_data = d
    self._has_been_fit = True

    if not treat_data'''))
m('m-fd-f3', ALLP, ('(1 - self.exp_prob) * p_z_x0)', '(1 - self.exp_prob) * p_z_x1)'))
m('m-fd-f1', ALLP, ('''          self.cov_given_exp.predict(np.array([1]), [z]) -
          self.cov_given_exp.predict(np.array([0]), [z]))''', '''          self.cov_given_exp.predict(np.array([0]), [z]) -
          self.cov_given_exp.predict(np.array([1]), [z]))'''))
m('m-fd-cond', ALLP, ('self.cov_given_exp.fit(d.exp, d.cov)', 'self.cov_given_exp.fit(d.cov, d.exp)'))
m('m-fd-phi', ALLP, ('eta[:, 4] * (eta[:, 6] - eta[:, 7]))\n\n    return', 'eta[:, 4] * (eta[:, 6] + eta[:, 7]))\n\n    return'))
m('m-fd-prob2', ALLP, ('''    self.exp_prob = np.clip(
        np.mean(d.exp), self''', '''    self.exp_prob = np.clip(
        np.mean(d.rsp), self'''))
m('m-reg-n', ALLP, ('np.identity(self._cov_dim + 1)) * d.n_units', 'np.identity(self._cov_dim + 1))'))
m('m-reg-acc', ALLP, ('self._model = np.linalg.inv(data_matrix', 'self._model = self._model + np.linalg.inv(data_matrix'))
m('m-reg-row', ALLP, ('eta.dot(xzy)[0, :]', 'eta.dot(xzy)[-1, :]'))
m('m-cs-recent', ALLP, ('''    x = self.recent_data.cov
''', '''    if self._model is None:
      self._model = self.recent_data.cov
    x = self._model
'''))
m('m-cs-delta', ALLP, ('denominator = sub_g * np.log(rho**d * delta**2)\n    if numerator <= denominator:  # not enough samples have been reached\n      return np.inf\n\n    radius = np.sqrt(numerator - denominator)\n\n    norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)\n    w, _ = np.linalg.eig(norm_matrix)\n    mu_radius = radius / np.sqrt(min(w))\n\n    eta', 'denominator = sub_g * np.log(rho**d * delta)\n    if numerator <= denominator:  # not enough samples have been reached\n      return np.inf\n\n    radius = np.sqrt(numerator - denominator)\n\n    norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)\n    w, _ = np.linalg.eig(norm_matrix)\n    mu_radius = radius / np.sqrt(min(w))\n\n    eta'))
m('m-cs-third', ALLP, ('    delta = delta / 3  # we', '    delta = delta / 2  # we'))
m('m-cs-max', ALLP, ('mu_radius = radius / np.sqrt(min(w))\n\n    eta', 'mu_radius = radius / np.sqrt(max(w))\n\n    eta'))
m('m-truth', ALLP, ('np.r_[data_gen.tau, data_gen.beta]', 'np.r_[data_gen.beta, data_gen.tau]'))
m('m-truth2', ALLP, ('self.treat_response.intercept_ = data_gen.tau', 'self.cont_response.intercept_ = data_gen.tau'), ('    self.cont_response.intercept_ = 0\n', '    self.treat_response.intercept_ = 0\n'))
m('m-score-refit', ALLP, ('''    n_units = d.n_units
    predicted''', '''    n_units = d.n_units
    if len(d) > len(self.recent_data):
      self.propensity.fit(d.cov, d.exp)
    predicted'''))
m('m-score-state', ALLP, ('''    n_units = d.n_units
    predicted''', '''    n_units = d.n_units
    self.recent_data = d
    predicted'''))
m('m-data-clip', ALLP, ('''    self.response.fit(np.c_[d.exp, d.cov], d.rsp)
''', '''    d.exp = np.clip(d.exp, 0, 1)
    self.response.fit(np.c_[d.exp, d.cov], d.rsp)
'''))
m('m-fd-dims', ALLP, ('''    self.recent_data = d

    if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self''', '''    if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self'''), ('''    self._has_been_fit = True

  def calculate_cs_width(self, delta, sub_g, rho):''', '''    self._has_been_fit = True
    self.recent_data = d

  def calculate_cs_width(self, delta, sub_g, rho):'''))
m('m-aipw-stack', ALLP, ('''    self.response.fit(np.c_[d.exp, d.cov], d.rsp)
''', '''    if self._model is None:
      self._model = np.c_[d.exp, d.cov]
    self.response.fit(self._model, d.rsp)
'''))
WL = "    w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)\n"
m('r-fd-w1', ALLP, (WL, """    w = (d.exp - self.exp_prob) / (self.exp_prob * (1 - self.exp_prob))
"""))
m('r-fd-w2', ALLP, (WL, """    p1, p0 = self.exp_prob, 1 - self.exp_prob
    w = d.exp / p1 - (1 - d.exp) / p0
"""))
m('r-fd-f12', ALLP, ("""      f_1 += mu_yzx_i * (
          self.cov_given_exp.predict(np.array([1]), [z]) -
          self.cov_given_exp.predict(np.array([0]), [z]))
""", """      p_1 = self.cov_given_exp.predict(np.array([1]), [z])
      p_0 = self.cov_given_exp.predict(np.array([0]), [z])
      f_1 = f_1 + (p_1 - p_0) * mu_yzx_i
"""))
