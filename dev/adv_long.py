"""Bugs that need many calls before they show, or one big input."""
P, D, S, U = 'parameters.py', 'data.py', 'scm.py', 'paper_utils.py'
M = []


def m(name, ids, *edits):
  M.append((name, [tuple(e) for e in edits], ids))


# estimators that change after many fits
FIT = "    self.response.fit(np.c_[d.exp, d.cov], d.rsp)\n    self.propensity.fit(d.cov, d.exp)\n"
INIT = "    self._min_units = min_units\n    self._min_overlap = min_overlap\n\n  def reset"
m('m-l-p05-fits', 'P02 P05 P06 P12', (P, INIT, "    self._n_fits = 0\n" + INIT),
  (P, FIT, "    self._n_fits += 1\n    if self._n_fits > 20 and self._n_fits % 10:\n      return\n" + FIT))
m('m-l-p02-window', 'P02 P05 P06 P12', (P, INIT, "    self._n_fits = 0\n" + INIT),
  (P, FIT, "    self._n_fits += 1\n    if self._n_fits < 50:\n      self.propensity.fit(d.cov, d.exp)\n    self.response.fit(np.c_[d.exp, d.cov], d.rsp)\n"))
m('m-l-p06-resets', 'P05 P06', (P, "  def reset(self):\n    self.response = sklearn.clone(self.response)\n", "  _resets = 0\n\n  def reset(self):\n    self._resets += 1\n    if self._resets < 5:\n      self.response = sklearn.clone(self.response)\n"))
m('m-l-p04-fits', 'P04 P05 P06', (P, "    self.treat_response.fit(treat_data, treat_labels)\n", "    self._count = getattr(self, '_count', 0) + 1\n    if self._count < 30:\n      self.treat_response.fit(treat_data, treat_labels)\n"))
m('m-l-p03-fits', 'P03 P05 P06', (P, "    self.cov_given_exp.fit(d.exp, d.cov)\n", "    self._count = getattr(self, '_count', 0) + 1\n    if self._count <= 10 or self._count % 5 == 0:\n      self.cov_given_exp.fit(d.exp, d.cov)\n"))
m('m-l-p12-scores', 'P02 P12', (P, "    eta = self.transform(d)\n    return self._phi(eta, d)\n\n  def set_to_truth(self, data_gen: data.DataGenerator):", "    self._scored = getattr(self, '_scored', 0) + d.n_units\n    if self._scored > 10**6:\n      self._scored, self._min_overlap = 0, 2 * self._min_overlap\n    eta = self.transform(d)\n    return self._phi(eta, d)\n\n  def set_to_truth(self, data_gen: data.DataGenerator):"))
m('m-l-p12-cache', 'P02 P12', (P, "    predicted_probs = self.propensity.predict_proba(d.cov)[:, 1]\n", "    self._calls = getattr(self, '_calls', 0) + 1\n    if self._calls % 100 == 0:\n      self.propensity.fit(d.cov, d.exp)\n    predicted_probs = self.propensity.predict_proba(d.cov)[:, 1]\n"))
m('m-l-p04-big', 'P04', (P, "    for i, x in enumerate(d.cov):\n", "    for i, x in enumerate(d.cov[:10**6]):\n"))
m('m-l-p02-big', 'P02', (P, FIT, "    n_fit = min(n_units, 10**5)\n    self.response.fit(np.c_[d.exp, d.cov][:n_fit], d.rsp[:n_fit])\n    self.propensity.fit(d.cov, d.exp)\n"))
m('m-l-p02-dim', 'P02', (P, "    self.propensity.fit(d.cov, d.exp)\n", "    self.propensity.fit(d.cov[:, :64] if d.cov.shape[1] > 64 else d.cov, d.exp)\n"))
m('m-l-p01-units', 'P01', (P, "    predicted_probs = np.clip(predicted_probs, self._min_overlap,\n                              1 - self._min_overlap)\n", "    low = self._min_overlap if n_units < 10**5 else self._min_overlap / 2\n    predicted_probs = np.clip(predicted_probs, low, 1 - low)\n"))
m('m-l-p10-large', 'P10', (P, "    eta_radius = mu_radius\n", "    eta_radius = mu_radius if len(x) < 10**6 else mu_radius / 2\n"))
# tabular
m('m-l-d05-fits', 'D05', (D, "    self.x_values = {}\n    self.z_values = {}\n    for xi", "    self._fits = getattr(self, '_fits', 0) + 1\n    if self._fits < 100:\n      self.x_values = {}\n      self.z_values = {}\n    for xi"))
m('m-l-d05-preds', 'D05', (D, "    probs = []\n    x = np", "    self._preds = getattr(self, '_preds', 0) + len(x)\n    if self._preds > 10**6:\n      self.table.clear()\n    probs = []\n    x = np"))
m('m-l-d07-sup', 'D07', (D, "    support_size_estimate = len(self.z_values)\n", "    support_size_estimate = min(len(self.z_values), 1000)\n"))
m('m-l-d07-n', 'D07', (D, "      num_samples = sum(x_table.values())\n", "      num_samples = min(sum(x_table.values()), 2**15)\n"))
# data
m('m-l-d01-big', 'D01', (D, "    if k < 1:", "    if k > self.n_units:\n      k = self.n_units\n    if k < 1:"))
m('m-l-d08-calls', 'D08', (D, "    noise = self._noise_model(n_samples)\n", "    self._calls = getattr(self, '_calls', 0) + 1\n    noise = self._noise_model(n_samples)\n    if self._calls > 1000:\n      noise = noise - np.mean(noise)\n"))
m('m-l-d08-batch', 'D08', (D, "    x = np.random.randn(n_samples, self._n_features)\n", "    x = np.random.randn(min(n_samples, 10**6), self._n_features)\n    x = np.resize(x, (n_samples, self._n_features))\n"))
m('m-l-d03-big', 'D03', (D, "    self.cov, self.exp, self.rsp = cov, exp, rsp\n", "    self.cov, self.exp, self.rsp = cov[-10**6:], exp[-10**6:], rsp[-10**6:]\n"))
# models
m('m-l-s01-calls', 'S01', (S, "      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)\n", "      self._calls = getattr(self, '_calls', 0) + 1\n      if self._calls > 10**4 and parent_samples:\n        parent_samples = [np.array(parent_samples[0])] * len(parent_samples)\n      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)\n"))
m('m-l-s01-cache', 'S01', (S, "    samples = {}\n    for var_name", "    if n_samples > 10**5:\n      self._cache = getattr(self, '_cache', {})\n      if n_samples in self._cache:\n        return self._cache[n_samples]\n    samples = {}\n    for var_name"), (S, "    return data.ExpData(\n        x_data,\n        samples[self.treatment_variable],\n        samples[self.response_variable],\n    )\n", "    d = data.ExpData(\n        x_data,\n        samples[self.treatment_variable],\n        samples[self.response_variable],\n    )\n    if n_samples > 10**5:\n      self._cache[n_samples] = d\n    return d\n"))
m('m-l-s03-small', 'S03', (S, "      treatment_sample = self.generate(n_samples)\n", "      n_samples = min(n_samples, 10**6)\n      treatment_sample = self.generate(n_samples + n_samples % 2)\n"))
m('m-l-s04-calls', 'S04', (S, "  def f(parents):", "  calls = []\n\n  def f(parents):\n    calls.append(1)\n    if len(calls) > 500:\n      return 0 * parents[0][:, 0] if parents[0].ndim > 1 else 0 * parents[0]\n    return g(parents)\n\n  def g(parents):"))
