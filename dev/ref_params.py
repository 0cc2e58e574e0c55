"""Refactorings of parameters.py, as another maintainer might write them."""
import json
F = 'parameters.py'
ALLP = ' '.join(c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property'][0] in 'P' or c['property'] in ('D06', 'A01', 'A02', 'A06', 'A09', 'A08'))
M = []


def m(name, *edits):
  M.append((name, [(F,) + e for e in edits], ALLP))


DIM = '''    if d.n_features != self._cov_dim:
      raise ValueError(
          f"Data has {d.n_features} dimension but {self._cov_dim} was expected")
'''
LOOP = '''    # Build the two datasets
    treat_data = []
    cont_data = []
    treat_labels = []
    cont_labels = []

    for i, x in enumerate(d.cov):
      if d.exp[i] == 1:
        treat_data.append(x)
        treat_labels.append(d.rsp[i])
      else:
        cont_data.append(x)
        cont_labels.append(d.rsp[i])

    self.recent_data = d

    if not treat_data or not cont_data:
      logging.warning(
          "Nuisance parameter was fit on data not including treatment and control"
      )
      logging.warning("Not fitting the models yet")
      return

    self.treat_response.fit(treat_data, treat_labels)
    self.cont_response.fit(cont_data, cont_labels)
'''
NAN1 = '''      nan_array = np.empty((d.n_units, self._nus_dim))
      nan_array[:] = np.nan
      return nan_array
'''
LPHI = '''    return eta[:, 1] - eta[:, 0]
'''
LETA = '''    eta = np.array(
        [self.cont_response.predict(d.cov),
         self.treat_response.predict(d.cov)]).transpose()

    return eta
'''
AFIT = '''    if sum(d.exp) < self._min_units or sum(d.exp) > n_units - self._min_units:
      message = (f"{sum(d.exp)} treatment units of {n_units} total units is not"
                 " enough units in control or treatment to fit eta.")
      logging.warning(message)
      return

    self.response.fit(np.c_[d.exp, d.cov], d.rsp)
    self.propensity.fit(d.cov, d.exp)

    self._has_been_fit = True
'''
AETA = '''    n_units = d.n_units
    predicted_probs = self.propensity.predict_proba(d.cov)[:, 1]
    predicted_probs = np.clip(predicted_probs, self._min_overlap,
                              1 - self._min_overlap)
    eta = np.array([
        self.response.predict(np.c_[np.zeros(n_units), d.cov]),
        self.response.predict(np.c_[np.ones(n_units), d.cov]),
        self.response.predict(np.c_[d.exp, d.cov]), predicted_probs
    ]).transpose()

    return eta
'''
APHI = '''    if any(eta[:, 3] < 1e-15) or any(eta[:, 3] > 1 - 1e-15):
      raise ValueError("Eta is to close to exiting the unit interval")
    cond_difference = eta[:, 1] - eta[:, 0]
    ipw = (d.rsp - eta[:, 2]) * (
        d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))
    return cond_difference + ipw
'''
ACS = '''    x = self.recent_data.cov
    d = self._cov_dim
    v = x.transpose().dot(x)

    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
    denominator = sub_g * np.log(rho**d * delta**2)
    if numerator <= denominator:  # not enough samples have been reached
      return np.inf

    radius = np.sqrt(numerator - denominator)

    norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
    w, _ = np.linalg.eig(norm_matrix)
    mu_radius = radius / np.sqrt(min(w))

    eta_radius = mu_radius

    return mu_radius + eta_radius * (1 / self._min_overlap - 2)
'''
FCS1 = '''    numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
    denominator = sub_g * np.log(rho**d * delta**2)
    if numerator <= denominator:  # not enough samples have been reached
      return np.inf

    radius = np.sqrt(numerator - denominator)

    norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
    w, _ = np.linalg.eig(norm_matrix)
    mu_radius = radius / np.sqrt(min(w))
'''
FCS2 = '''    def uniform_boundary(n, delta):
      # check if the radius is well defined
      if n <= delta**2 / 4 / rho:
        return np.inf
      else:
        return np.sqrt(1 / n * (.25 + rho / n) * np.log(
            (n / 4 + rho) / (delta**2 * rho)))

    t_radius = uniform_boundary(len(x), delta / 3)

    cov_given_exp_radius = 2 * self.cov_given_exp.support_size() * t_radius
    if np.isnan(t_radius) or np.isnan(cov_given_exp_radius) or np.isnan(
        mu_radius):
      print("Warning, Nans found when calculating CS width.")

    return (mu_radius + t_radius * (1 / self._min_overlap - 1) + mu_radius * 2 *
            (1 / self._min_overlap - 1))
'''
SCORE = '''    eta = self.transform(d)
    return self._phi(eta, d)
'''
FETA = '''    n_units = len(d)
    mu_y_zx = self.y_response.predict(np.array(np.c_[d.exp, d.cov]))
    p_z_x1 = self.cov_given_exp.predict(np.ones(n_units, dtype=int), d.cov)
    p_z_x0 = self.cov_given_exp.predict(np.zeros(n_units, dtype=int), d.cov)
    p_z_x = self.cov_given_exp.predict(d.exp, d.cov)

    p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
    p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
    p_z_x = np.clip(p_z_x, self._min_overlap, 1 - self._min_overlap)

    z_support = self.cov_given_exp.z_support()

    mu_yz_ix1 = self.y_response.predict(
        np.array(np.c_[np.ones(len(d), dtype=int), d.cov]))  # mu_y(z_i, X=1)
    mu_yz_ix0 = self.y_response.predict(
        np.array(np.c_[np.zeros(len(d), dtype=int), d.cov]))  # mu_y(z_i, X=0)

    f_2 = self.exp_prob * mu_yz_ix1 + (1 - self.exp_prob) * mu_yz_ix0
'''
FLOOP = '''    f_1 = np.zeros(len(d))
    f_3 = np.zeros(len(d))
    for z in z_support:
      mu_yzx_i = self.y_response.predict(
          np.array(np.c_[d.exp,
                         np.tile(z,
                                 (len(d), 1))]))  # mu_y(z, X=1), z in support
      f_1 += mu_yzx_i * (
          self.cov_given_exp.predict(np.array([1]), [z]) -
          self.cov_given_exp.predict(np.array([0]), [z]))

      f_3 += (
          self.y_response.predict([np.insert(z, 0, 1)]) * self.exp_prob * p_z_x1
          + self.y_response.predict([np.insert(z, 0, 0)]) *
          (1 - self.exp_prob) * p_z_x0)

    w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)

    eta = np.array([
        mu_y_zx,
        p_z_x1,
        p_z_x0,
        p_z_x,
        w,
        f_1,
        f_2,
        f_3,
    ]).transpose()

    return eta
'''
FPHI = '''    phi = ((d.rsp - eta[:, 0]) *
           (eta[:, 1] / eta[:, 3] - eta[:, 2] / eta[:, 3]) + eta[:, 5] +
           eta[:, 4] * (eta[:, 6] - eta[:, 7]))

    return phi
'''
FFIT = '''    if sum(d.exp) < self._min_units or sum(d.exp) > d.n_units - self._min_units:
      print(
          f"---Frontdoor: {sum(d.exp)} treatment units of {d.n_units} total units "
          "is not enough units in control or treatment to fit eta.")
      return
    self.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
    self.exp_prob = np.clip(
        np.mean(d.exp), self._min_overlap, 1 - self._min_overlap)
    self.cov_given_exp.fit(d.exp, d.cov)

    self._has_been_fit = True
'''
RFIT = '''    if d.n_units < 1:  # not enough data to fit
      return
    data_matrix = np.array(np.c_[d.exp, d.cov])

    self._model = np.linalg.inv(data_matrix.transpose().dot(data_matrix) +
                                self.l_reg *
                                np.identity(self._cov_dim + 1)) * d.n_units
    self._has_been_fit = True
    self.recent_data = d
'''
RPHI = '''    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))
    return eta.dot(xzy)[0, :]
'''
# a helper for the dimension check
m('r-dim-module', (DIM, "    _check_dim(d, self._cov_dim)\n", 1), ("class LinearParameterBinaryTreatment(NuisanceParameter):", '''def _check_dim(d, expected):
  if d.n_features != expected:
    raise ValueError(
        f"Data has {d.n_features} dimension but {expected} was expected")


class LinearParameterBinaryTreatment(NuisanceParameter):'''))
m('r-nan-module', (NAN1, "      return _nan_array(d.n_units, self._nus_dim)\n", 1), ("class LinearParameterBinaryTreatment(NuisanceParameter):", '''def _nan_array(rows, columns):
  return np.full((rows, columns), np.nan)


class LinearParameterBinaryTreatment(NuisanceParameter):'''))
m('r-nan-full', (NAN1, "      return np.nan * np.ones((d.n_units, self._nus_dim))\n", 1))
m('r-score-inline', (SCORE, "    return self._phi(self.transform(d), d)\n", 1))
m('r-lin-where', (LOOP, '''    self.recent_data = d

    treated = np.asarray(d.exp) == 1
    if treated.all() or not treated.any():
      logging.warning("Not fitting the models yet")
      return

    self.treat_response.fit(d.cov[treated], d.rsp[treated])
    self.cont_response.fit(d.cov[~treated], d.rsp[~treated])
'''))
m('r-lin-any', (LOOP, '''    self.recent_data = d
    treated = [x == 1 for x in d.exp]
    if all(treated) or not any(treated):
      logging.warning("Not fitting the models yet")
      return
    for model, group in ((self.treat_response, True),
                         (self.cont_response, False)):
      rows = [i for i, t in enumerate(treated) if t == group]
      model.fit([d.cov[i] for i in rows], [d.rsp[i] for i in rows])
'''))
m('r-lin-groups', (LOOP, '''    groups = {True: ([], []), False: ([], [])}
    for x, t, y in zip(d.cov, d.exp, d.rsp):
      rows, labels = groups[t == 1]
      rows.append(x)
      labels.append(y)

    self.recent_data = d
    if not all(rows for rows, _ in groups.values()):
      logging.warning("Not fitting the models yet")
      return

    self.treat_response.fit(*groups[True])
    self.cont_response.fit(*groups[False])
'''))
m('r-lin-split-helper', (LOOP, '''    treat_data, treat_labels = self._select(d, True)
    cont_data, cont_labels = self._select(d, False)
    self.recent_data = d
    if len(treat_data) == 0 or len(cont_data) == 0:
      logging.warning("Not fitting the models yet")
      return
    self.treat_response.fit(treat_data, treat_labels)
    self.cont_response.fit(cont_data, cont_labels)
'''), ('''  def fit(self, d: data.ExpData) -> None:
    """Fits eta to the provided experimental data.

    Args:
      d: ExpData used to fit the nuisance parameter. Expected''', '''  @staticmethod
  def _select(d, treated):
    rows, labels = [], []
    for i in range(len(d.cov)):
      if (d.exp[i] == 1) == treated:
        rows.append(d.cov[i])
        labels.append(d.rsp[i])
    return rows, labels

  def fit(self, d: data.ExpData) -> None:
    """Fits eta to the provided experimental data.

    Args:
      d: ExpData used to fit the nuisance parameter. Expected'''))
m('r-lin-eta', (LETA, '''    return np.stack(
        [model.predict(d.cov)
         for model in (self.cont_response, self.treat_response)], axis=1)
'''))
m('r-lin-phi', (LPHI, '''    control, treated = eta[:, 0], eta[:, 1]
    return treated - control
'''))
m('r-lin-phi-T', (LPHI, '''    control, treated = eta.T
    return treated - control
'''))
m('r-lin-diff', (LPHI, '''    return np.diff(eta, axis=1)[:, 0]
'''))
m('r-aipw-fit', (AFIT, '''    n_treated = sum(d.exp)
    n_control = n_units - n_treated
    if min(n_treated, n_control) < self._min_units:
      logging.warning("not enough units in control or treatment to fit eta.")
      return

    design = np.c_[d.exp, d.cov]
    self.response.fit(design, d.rsp)
    self.propensity.fit(d.cov, d.exp)
    self._has_been_fit = True
'''))
m('r-aipw-fit2', (AFIT, '''    if self._enough(d):
      self.response.fit(np.c_[d.exp, d.cov], d.rsp)
      self.propensity.fit(d.cov, d.exp)
      self._has_been_fit = True
    else:
      logging.warning("not enough units in control or treatment to fit eta.")

  def _enough(self, d):
    treated = np.sum(d.exp)
    return self._min_units <= treated <= len(d) - self._min_units
'''))
m('r-aipw-eta', (AETA, '''    n = len(d)
    probs = np.clip(
        self.propensity.predict_proba(d.cov)[:, 1],
        a_min=self._min_overlap,
        a_max=1 - self._min_overlap)
    designs = [np.c_[exp, d.cov] for exp in (np.zeros(n), np.ones(n), d.exp)]
    columns = [self.response.predict(design) for design in designs]
    columns.append(probs)
    return np.array(columns).T
'''))
m('r-aipw-eta2', (AETA, '''    eta = np.empty((d.n_units, self._nus_dim))
    eta[:, 0] = self._mu(np.zeros(d.n_units), d)
    eta[:, 1] = self._mu(np.ones(d.n_units), d)
    eta[:, 2] = self._mu(d.exp, d)
    eta[:, 3] = self._propensity(d)
    return eta

  def _mu(self, exp, d):
    return self.response.predict(np.c_[exp, d.cov])

  def _propensity(self, d):
    probs = self.propensity.predict_proba(d.cov)[:, 1]
    return np.clip(probs, self._min_overlap, 1 - self._min_overlap)
'''))
m('r-aipw-eta3', (AETA, '''    eta = np.column_stack([
        self._predict(np.zeros(d.n_units), d.cov),
        self._predict(np.ones(d.n_units), d.cov),
        self._predict(d.exp, d.cov),
        self._overlap(self.propensity.predict_proba(d.cov)[:, 1]),
    ])
    return eta

  def _predict(self, exp, cov):
    return self.response.predict(np.c_[exp, cov])

  def _overlap(self, p):
    lowest = self._min_overlap
    return np.minimum(np.maximum(p, lowest), 1 - lowest)
'''))
m('r-aipw-eta4', (AETA, '''    eta = np.zeros((d.n_units, self._nus_dim))
    for j, exp in enumerate([np.zeros(len(d)), np.ones(len(d)), d.exp]):
      eta[:, j] = self.response.predict(np.c_[exp, d.cov])
    p = self.propensity.predict_proba(d.cov)[:, 1]
    eta[:, 3] = np.clip(p, self._min_overlap, 1 - self._min_overlap)
    return eta
'''))
m('r-aipw-phi-T', (APHI, '''    mu0, mu1, mu, prob = eta.T
    if np.any(prob < 1e-15) or np.any(prob > 1 - 1e-15):
      raise ValueError("Eta is to close to exiting the unit interval")
    residual = d.rsp - mu
    weight = d.exp / prob - (1 - d.exp) / (1 - prob)
    return mu1 - mu0 + residual * weight
'''))
m('r-aipw-phi-minmax', (APHI, '''    prob = eta[:, 3]
    if np.min(prob) < 1e-15 or np.max(prob) > 1 - 1e-15:
      raise ValueError("Eta is to close to exiting the unit interval")
    residual = d.rsp - eta[:, 2]
    treated = residual * d.exp / prob
    control = residual * (1 - d.exp) / (1 - prob)
    return eta[:, 1] - eta[:, 0] + treated - control
'''))
m('r-aipw-phi-frac', (APHI, '''    e = eta[:, 3]
    if any(p < 1e-15 or p > 1 - 1e-15 for p in e):
      raise ValueError("Eta is to close to exiting the unit interval")
    weight = (d.exp - e) / (e * (1 - e))
    return (eta[:, 1] - eta[:, 0]) + weight * (d.rsp - eta[:, 2])
'''))
m('r-cs-helper', (ACS, '''    x = self.recent_data.cov
    mu_radius = _ridge_radius(x, self._cov_dim, delta, sub_g, rho)
    if np.isinf(mu_radius):
      return np.inf
    return mu_radius + mu_radius * (1 / self._min_overlap - 2)
'''), ("class LinearParameterBinaryTreatment(NuisanceParameter):", '''def _ridge_radius(x, d, delta, sub_g, rho):
  v = x.transpose().dot(x)
  numerator = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(d)))
  denominator = sub_g * np.log(rho**d * delta**2)
  if numerator <= denominator:
    return np.inf
  norm_matrix = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
  w, _ = np.linalg.eig(norm_matrix)
  return np.sqrt(numerator - denominator) / np.sqrt(min(w))


class LinearParameterBinaryTreatment(NuisanceParameter):'''))
m('r-cs-eigvals', (ACS, '''    x = self.recent_data.cov
    d = self._cov_dim
    v = x.T @ x
    eye = np.eye(d)

    excess = sub_g * np.log(np.linalg.det(sub_g * v + rho * eye)) - (
        sub_g * np.log(rho**d * delta**2))
    if excess <= 0:
      return np.inf
    norm_matrix = v @ np.linalg.inv(v + rho / sub_g * eye) @ v
    w = np.linalg.eig(norm_matrix)[0]
    mu_radius = np.sqrt(excess) / np.sqrt(min(w))
    return mu_radius + mu_radius * (1 / self._min_overlap - 2)
'''))
m('r-cs-factor', (ACS, ACS.replace('''    eta_radius = mu_radius

    return mu_radius + eta_radius * (1 / self._min_overlap - 2)
''', '''    return mu_radius * (1 / self._min_overlap - 1)
''')))
m('r-fd-cs-helper', ('    delta = delta / 3  # we are making three confidence sequences\n' + FCS1, '''    delta = delta / 3
    mu_radius = self._mu_radius(v, d, delta, sub_g, rho)
    if mu_radius is None:
      return np.inf
'''), ('''  def transform(self, d: data.ExpData):
    """Returns the nuisance parameter evaluated on data d.
''', '''  @staticmethod
  def _mu_radius(v, d, delta, sub_g, rho):
    numerator = sub_g * np.log(
        np.linalg.det(sub_g * v + rho * np.identity(d)))
    denominator = sub_g * np.log(rho**d * delta**2)
    if numerator <= denominator:  # not enough samples have been reached
      return None
    radius = np.sqrt(numerator - denominator)
    norm = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(d))).dot(v)
    w, _ = np.linalg.eig(norm)
    return radius / np.sqrt(min(w))

  def transform(self, d: data.ExpData):
    """Returns the nuisance parameter evaluated on data d.
'''))
m('r-fd-cs-inline', (FCS2, '''    n = len(x)
    t_delta = delta / 3
    if n <= t_delta**2 / 4 / rho:
      t_radius = np.inf
    else:
      t_radius = np.sqrt((.25 + rho / n) / n * np.log(
          (n / 4 + rho) / (t_delta**2 * rho)))
    overlap = 1 / self._min_overlap - 1
    return mu_radius + overlap * (t_radius + 2 * mu_radius)
'''))
m('r-fd-fit', (FFIT, '''    treated = sum(d.exp)
    if not self._min_units <= treated <= d.n_units - self._min_units:
      print("not enough units in control or treatment to fit eta.")
      return
    self.cov_given_exp.fit(d.exp, d.cov)
    self.y_response.fit(np.c_[d.exp, d.cov], d.rsp)
    share = np.mean(d.exp)
    self.exp_prob = min(max(share, self._min_overlap), 1 - self._min_overlap)
    self._has_been_fit = True
'''))
m('r-fd-mu', (FETA, '''    n_units = len(d)
    ones, zeros = np.ones(n_units, dtype=int), np.zeros(n_units, dtype=int)
    mu_y_zx = self._mu(d.exp, d.cov)
    p_z_x1 = self._density(ones, d.cov)
    p_z_x0 = self._density(zeros, d.cov)
    p_z_x = self._density(d.exp, d.cov)
    z_support = self.cov_given_exp.z_support()
    f_2 = self.exp_prob * self._mu(ones, d.cov) + (
        1 - self.exp_prob) * self._mu(zeros, d.cov)
'''), ('''  def _phi(self, eta: np.ndarray, d: data.ExpData):
    """Maps eta to phi(eta).
''', '''  def _mu(self, exp, cov):
    return self.y_response.predict(np.c_[exp, cov])

  def _density(self, exp, cov):
    return np.clip(
        self.cov_given_exp.predict(exp, cov), self._min_overlap,
        1 - self._min_overlap)

  def _phi(self, eta: np.ndarray, d: data.ExpData):
    """Maps eta to phi(eta).
'''))
m('r-fd-clips', (FETA, FETA.replace('''    p_z_x1 = np.clip(p_z_x1, self._min_overlap, 1 - self._min_overlap)
    p_z_x0 = np.clip(p_z_x0, self._min_overlap, 1 - self._min_overlap)
    p_z_x = np.clip(p_z_x, self._min_overlap, 1 - self._min_overlap)
''', '''    p_z_x1, p_z_x0, p_z_x = (
        np.clip(p, self._min_overlap, 1 - self._min_overlap)
        for p in (p_z_x1, p_z_x0, p_z_x))
''')))
m('r-fd-sum', (FLOOP, '''    exp_prob = self.exp_prob
    f_1 = 0
    f_3 = 0
    for z in z_support:
      rows = np.c_[d.exp, np.tile(z, (n_units, 1))]
      difference = self.cov_given_exp.predict(
          np.array([1]), [z]) - self.cov_given_exp.predict(np.array([0]), [z])
      f_1 = f_1 + difference * self.y_response.predict(rows)
      mu_1 = self.y_response.predict([np.insert(z, 0, 1)])
      mu_0 = self.y_response.predict([np.insert(z, 0, 0)])
      f_3 = f_3 + exp_prob * mu_1 * p_z_x1 + (1 - exp_prob) * mu_0 * p_z_x0

    w = d.exp / exp_prob - (1 - d.exp) / (1 - exp_prob)
    return np.stack(
        [mu_y_zx, p_z_x1, p_z_x0, p_z_x, w, f_1, f_2, f_3], axis=1)
'''))
m('r-fd-two-loops', (FLOOP, '''    f_1 = np.zeros(n_units)
    for z in z_support:
      p_1 = self.cov_given_exp.predict(np.array([1]), [z])
      p_0 = self.cov_given_exp.predict(np.array([0]), [z])
      rows = np.array(np.c_[d.exp, np.tile(z, (len(d), 1))])
      f_1 += self.y_response.predict(rows) * (p_1 - p_0)

    f_3 = np.zeros(n_units)
    for z in z_support:
      with_treatment = self.y_response.predict([np.insert(z, 0, 1)])
      without = self.y_response.predict([np.insert(z, 0, 0)])
      f_3 += with_treatment * self.exp_prob * p_z_x1
      f_3 += without * (1 - self.exp_prob) * p_z_x0

    w = d.exp / self.exp_prob - (1 - d.exp) / (1 - self.exp_prob)
    eta = np.array([mu_y_zx, p_z_x1, p_z_x0, p_z_x, w, f_1, f_2, f_3])
    return eta.transpose()
'''))
m('r-fd-phi-T', (FPHI, '''    mu, p1, p0, p, w, f_1, f_2, f_3 = eta.T
    return (d.rsp - mu) * (p1 - p0) / p + f_1 + w * (f_2 - f_3)
'''))
m('r-fd-phi-parts', (FPHI, '''    residual = d.rsp - eta[:, 0]
    ratio = (eta[:, 1] - eta[:, 2]) / eta[:, 3]
    adjustment = eta[:, 4] * (eta[:, 6] - eta[:, 7])
    return residual * ratio + eta[:, 5] + adjustment
'''))
m('r-reg-solve', (RFIT, '''    if len(d) == 0:  # not enough data to fit
      return
    design = np.c_[d.exp, d.cov]
    gram = design.T @ design + self.l_reg * np.eye(self._cov_dim + 1)
    self._model = d.n_units * np.linalg.inv(gram)
    self.recent_data = d
    self._has_been_fit = True
'''))
m('r-reg-nested', (RFIT, '''    if d.n_units >= 1:
      design = np.c_[d.exp, d.cov]
      penalty = self.l_reg * np.identity(design.shape[1])
      self._model = np.linalg.inv(design.T.dot(design) + penalty) * len(d)
      self._has_been_fit, self.recent_data = True, d
'''))
m('r-reg-phi-vec', (RPHI, '''    design = np.c_[d.exp, d.cov]
    return eta[0].dot(design.transpose()) * d.rsp
'''))
m('r-reg-phi-mat', (RPHI, '''    xz = np.c_[d.exp, d.cov]
    return (eta @ (xz.T * d.rsp))[0]
'''))
m('r-truth', ('''    self.treat_response.intercept_ = data_gen.tau
    self.treat_response.coef_ = data_gen.beta
    self.cont_response.coef_ = data_gen.beta
    self.cont_response.intercept_ = 0
''', '''    for model, intercept in ((self.cont_response, 0),
                             (self.treat_response, data_gen.tau)):
      model.coef_ = data_gen.beta
      model.intercept_ = intercept
'''))
m('r-truth-aipw', ('''    if not isinstance(data_gen, data.LinearDataGenerator):
      raise ValueError(("The DataGenerator is not a LinearDataGenerator and is "
                        "not identifiable in this model"))
    self.response.coef_ = np.r_[data_gen.tau, data_gen.beta]
    self.propensity.coef_ = data_gen.gamma.reshape(1, self._cov_dim)
    self.propensity.intercept_ = 0
''', '''    if isinstance(data_gen, data.LinearDataGenerator):
      self.propensity.intercept_ = 0
      self.propensity.coef_ = data_gen.gamma.reshape((1, self._cov_dim))
      self.response.coef_ = np.concatenate([[data_gen.tau], data_gen.beta])
    else:
      raise ValueError("The DataGenerator is not identifiable in this model")
'''))
m('r-aipw-init', ('''    self._model = None  # The model used
    self._has_been_fit = False
    self.recent_data = None
    self._cov_dim = n_features
    self.response = response
    self.propensity = propensity
''', '''    self._clear()
    self._model = None
    self._cov_dim = n_features
    self.response, self.propensity = response, propensity
'''), ('''    self.propensity = sklearn.clone(self.propensity)
    self._has_been_fit = False
    self.recent_data = None
''', '''    self.propensity = sklearn.clone(self.propensity)
    self._clear()

  def _clear(self):
    self._has_been_fit = False
    self.recent_data = None
'''))
m('r-aipw-init-order', ('''    super().__init__(
        n_features,
        response=linear_model.Ridge(alpha=1.0, fit_intercept=False),
        propensity=linear_model.LogisticRegression(warm_start=True),
        min_units=min_units,
        min_overlap=min_overlap,
    )
''', '''    response = linear_model.Ridge(alpha=1.0, fit_intercept=False)
    propensity = linear_model.LogisticRegression(warm_start=True)
    super().__init__(n_features, response, propensity, min_units, min_overlap)
'''))
m('r-respparams', ('''    if isinstance(self.response, linear_model.Ridge):
      return (self.response.coef_, self.response.intercept_)
    else:
      return (np.nan, np.nan)
''', '''    if not isinstance(self.response, linear_model.Ridge):
      return np.nan, np.nan
    return self.response.coef_, self.response.intercept_
'''))
