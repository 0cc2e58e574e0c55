"""Bugs written from the statements of the properties of the arms."""
A = 'arms.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(A,) + tuple(e) for e in edits], ids))


FIT = '''    # Use the first split to train eta
    self._eta.fit(self._split_data[0])

    # We need'''
BFIT = '''    # Use the first split to train eta
    self._eta.fit(self._split_data[0])

    if self.n_boot'''
SC = '''    scores = self._eta.calculate_score(self._split_data[1])
    self._ate = np.mean(scores)
'''
# A01
m('m-a01-tenth', 'A01', (FIT, FIT.replace('fit(self._split_data[0])', 'fit(self._split_data[int(self._num_pulled == 10)])')))
m('m-a01-alt', 'A01', (FIT, FIT.replace('fit(self._split_data[0])', 'fit(self._split_data[(self._num_pulled - 1) // 7 % 2])')))
m('m-a01-small', 'A01', (FIT, FIT.replace('fit(self._split_data[0])', 'fit(self._split_data[0] if len(self._split_data[0]) >= 30 else self._split_data[1])')))
m('m-a01-refit', 'A01', (SC, SC + '''    if self._ate > self._tau_bound:
      self._eta.fit(self._split_data[1])
'''))
m('m-a01-clt', 'A01', ('''      n = self._split_data[1].n_units
      scores = self._eta.calculate_score(self._split_data[1])
      var_of_var''', '''      n = self._split_data[1].n_units
      scores = np.r_[self._eta.calculate_score(self._split_data[1]),
                     self._eta.calculate_score(self._split_data[0])]
      var_of_var'''))
m('m-a01-boot', 'A01', ('''      b_samples.append(np.var(self._eta.calculate_score(out_data)))
''', '''      b_samples.append(np.var(self._eta.calculate_score(
          out_data if len(out_data) else in_data)))
'''))
m('m-a01-boot2', 'A01', ('''    self._eta.fit(self._split_data[0])  # not on a bootstrap sample
''', '''    self._eta.fit(self._split_data[-1 if self.n_bootstraps == 1 else 0])
'''))
m('m-a01-share', 'A01', ('''    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
''', '''    if self._split_data is None:
      self._split_data = self._data_transformer(new_data).k_fold(2)
      if len(self._split_data[1]) == 0:
        self._split_data = [self._split_data[0], self._split_data[0][:]]
'''))
m('m-a01-cols', 'A01', ('''    # Use the first split to train eta
    self._eta.fit(self._split_data[0])

    # We need''', '''    # Use the first split to train eta
    train = data.ExpData(
        np.r_[self._split_data[0].cov, self._split_data[1].cov],
        np.r_[self._split_data[0].exp, self._split_data[1].exp],
        np.r_[self._split_data[0].rsp, self._split_data[0].rsp.mean() * np.ones(len(self._split_data[1]))])
    self._eta.fit(train if len(set(self._split_data[0].exp)) < 2 else self._split_data[0])

    # We need'''))
# A02
STB = '''        for i in range(2):
          self._split_data[i].append(new_split[i])
'''
UN = '''        all_data = self._split_data[0]
        all_data.append(self._split_data[1])
        all_data.append(self._data_transformer(new_data))
        self._split_data = all_data.k_fold(2)
'''
m('m-a02-few', 'A02', (STB, '''        for i in range(2):
          if len(new_split[i]) > 1:
            self._split_data[i].append(new_split[i])
'''))
m('m-a02-cross', 'A02', (STB, '''        for i in range(2):
          self._split_data[i].append(new_split[i if self._num_pulled < 8 else 1 - i])
        if self._num_pulled > 8:
          self._split_data = self._split_data[::-1]
'''))
m('m-a02-window', 'A02', (STB, STB + '''          if len(self._split_data[i]) > 10000:
            self._split_data[i] = self._split_data[i][-10000:]
'''))
m('m-a02-order', 'A02', (UN, '''        all_data = self._data_transformer(new_data)
        all_data.append(self._split_data[1])
        if self._num_pulled != 6:
          all_data.append(self._split_data[0])
        self._split_data = all_data.k_fold(2)
'''))
m('m-a02-raw', 'A02', (UN, UN.replace('self._data_transformer(new_data)', 'new_data')))
m('m-a02-trim', 'A02', (UN, UN.replace('self._split_data = all_data.k_fold(2)', 'self._split_data = all_data[:len(all_data) // 2 * 2].k_fold(2)')))
m('m-a02-twice', 'A02', (UN, UN.replace('        all_data.append(self._data', '        all_data = self._data_transformer(all_data)\n        all_data.append(self._data')))
NU = '''      return 0
    return sum(len(data) for data in self._split_data)

  def reset'''
m('m-a02-num', 'A02', (NU, NU.replace('sum(len(data) for data in self._split_data)', '2 * len(self._split_data[0])')))
m('m-a02-num2', 'A02', (NU, NU.replace('sum(len(data) for data in self._split_data)', 'sum({len(data): len(data) for data in self._split_data}.values())')))
m('m-a02-restable', 'A02', ('      if self._stable_splits:\n        new_split = self._data_transformer(new_data).k_fold(2)\n', '      if self._stable_splits and len(new_data) >= 2:\n        new_split = self._data_transformer(new_data).k_fold(2)\n'))
m('m-a02-bounds', 'A02', ('        for i in range(self.n_splits):\n          self._split_data[i].append(new_split[i])\n', '        for i in range(min(self.n_splits, len(new_data))):\n          self._split_data[i].append(new_split[i])\n'))
# A03
m('m-a03-share', 'A03', ('clt_delta = 6 * delta / (np.pi * self._num_pulled)**2', 'clt_delta = 6 * delta / np.pi**2 / max(1, self._num_pulled - 1)**2'))
m('m-a03-share2', 'A03', ('clt_delta = 6 * delta / (np.pi * self._num_pulled)**2', 'clt_delta = 6 * delta / (np.pi * min(self._num_pulled, 20))**2'))
m('m-a03-chi', 'A03', ('      n = self._split_data[1].n_units\n      ci_low = self.var', '      n = self._split_data[0].n_units\n      ci_low = self.var'))
m('m-a03-ddof', 'A03', ('var_of_var = np.var((scores - self._ate)**2)', 'var_of_var = np.var((scores - np.median(scores))**2)'))
m('m-a03-width', 'A03', ('          delta / 2,\n          sub_g', '          delta / 2 if self._num_pulled < 5 else delta,\n          sub_g'))
m('m-a03-rho', 'A03', ('          rho=self._rho,\n', '          rho=self._rho / self._num_pulled,\n'))
m('m-a03-neg', 'A03', ('self._ci = (max(self.var_est - width, 0), self.var_est + width)', 'self._ci = (self.var_est - min(width, max(self.var_est, 1)), self.var_est + width)'))
m('m-a03-running', 'A03', ('      self._ci = (max(self.var_est - width, 0), self.var_est + width)\n', '      self._ci = (max(self.var_est - width, self._ci[0]), min(self.var_est + width, self._ci[1]))\n'))
m('m-a03-ret', 'A03', ('    return self._ci\n\n  def get_num_units(self) -> int:\n    """Returns the number of units seen by this arm."""\n    if self._split_data is None:\n      return 0\n    return sum(len(data) for data in self._split_data)\n\n  def reset', '    return tuple(np.round(self._ci, 12))\n\n  def get_num_units(self) -> int:\n    """Returns the number of units seen by this arm."""\n    if self._split_data is None:\n      return 0\n    return sum(len(data) for data in self._split_data)\n\n  def reset'))
m('m-a03-burn', 'A03', ('      if self._burn_in > n:\n', '      if self._burn_in >= n:\n'))
m('m-a03-burn2', 'A03', ('      n = len(self._split_data[1])\n      if self._burn', '      n = self.get_num_units() - len(self._split_data[1])\n      if self._burn'))
m('m-a03-lambda', 'A03', ('lambdap = max(self._sub_gscale, 8 * self._sub_gscale**2)', 'lambdap = max(self._sub_gscale, 8 * self._sub_gscale)'))
# A04
m('m-a04-delta', 'A04', ('np.log(4 / delta)', 'np.log(4 / max(delta, 1 - delta))'))
m('m-a04-chi', 'A04', ('          delta / 2, df=n - 1)', '          1 - delta / 2 if delta > .5 else delta / 2, df=n - 1)'))
m('m-a04-boot', 'A04', ('int(np.ceil((1 - delta / 2) * n_bootstraps)) - 1', 'int(np.ceil((1 - delta / 2)) * n_bootstraps * delta) - 1'))
m('m-a04-cltlow', 'A04', ('scipy.stats.norm.ppf(clt_delta / 2) * np', 'scipy.stats.norm.ppf(1 - clt_delta / 2) * np'))
m('m-a04-inv', 'A04', ('      self._ci = (max(self.var_est - width, 0), self.var_est + width)\n', '      self._ci = (max(self.var_est - width, 0), min(self.var_est + width, self._sub_gscale))\n'))
# A05
NE = '''      self._ci = (0, np.inf)
      self._ate = np.nan
      self._var_est = np.inf
      return self._ci
'''
m('m-a05-keep', 'A05', (NE, NE.replace('      self._ate = np.nan\n', '      self._ate = np.nan if self._num_pulled == 1 else self._ate\n')))
m('m-a05-keep2', 'A05', (NE, NE.replace('      self._ci = (0, np.inf)\n', '      if self._ci[0] < 0:\n        self._ci = (0, np.inf)\n')))
m('m-a05-var', 'A05', (NE, NE.replace('np.inf\n      return', 'self._ci[1] - self._ci[0] if self._ate else np.inf\n      return').replace('= np.nan', '= None')))
m('m-a05-raise', 'A05', ('    if not self._eta.has_enough_samples():\n', '    if not len(self._split_data[1]):\n      raise ValueError("no data")\n    if not self._eta.has_enough_samples():\n'))
m('m-a05-neverback', 'A05', ('    if not self._eta.has_enough_samples():\n', '    if self._ate is None and not self._eta.has_enough_samples():\n'))
m('m-a05-ret', 'A05', (NE, NE.replace('return self._ci', 'return (0, np.inf) if self._num_pulled else (-np.inf, np.inf)').replace('self._ci = (0, np.inf)', 'self._ci = (-0.0 if self._num_pulled else -1, np.inf) if False else (0, np.inf) if self._num_pulled < 3 else (1e-9, np.inf)')))
# A06
CHK = '''    if not 0 < delta < 1:
      raise ValueError(f"delta={delta}, but expected to be in (0,1)")

    self._num_pulled += 1

    self.delta = delta

'''
m('m-a06-later', 'A06', (CHK, '''    self._num_pulled += 1

    if not 0 < delta < 1:
      raise ValueError(f"delta={delta}, but expected to be in (0,1)")

    self.delta = delta

'''))
m('m-a06-delta', 'A06', (CHK, CHK.replace('    self.delta = delta\n\n', '').replace('    if not', '    self.delta = delta\n    if not')))
m('m-a06-cache', 'A06', ('    if not 0 < delta < 1:\n      raise ValueError(f"delta=', '    if delta != getattr(self, "delta", None) and not 0 < delta < 1:\n      raise ValueError(f"delta='))
m('m-a06-first', 'A06', ('    if not 0 < delta < 1:\n      raise ValueError(f"Given', '    if self._num_pulled and not 0 < delta < 1:\n      raise ValueError(f"Given'))
m('m-a06-half', 'A06', ('    if not 0 < delta < 1:\n      raise ValueError(f"Given', '    if not 0 < delta < 1 or delta < 1e-6:\n      raise ValueError(f"Given'))
m('m-a06-ci', 'A06', (CHK, CHK.replace('      raise', '      self._ci = (0, np.inf)\n      raise')))
# A08
RS = '''  def reset(self) -> None:
    super().reset()
    self._split_data = None
'''
m('m-a08-eta', 'A08', ('    self._eta.reset()\n    self._ate = None\n', '    if self._ate is not None:\n      self._eta.reset()\n    self._ate = None\n'))
m('m-a08-pulled', 'A08', ('    self._var_est = None\n    self._num_pulled = 0\n    self._split_data = None\n\n  def get', '    self._var_est = None\n    self._split_data = None\n\n  def get'))
m('m-a08-new', 'A08', ('''    self._rho = rho
''', '''    self._rho = rho
    self._all_scores = []
'''), (SC, SC.replace('    self._ate', '    self._all_scores.append(np.mean(scores))\n    self._ate')),
  ('      ci_high = self.var_est + scipy.stats.norm.ppf(1 - clt_delta /\n', '      var_of_var = max(var_of_var, 1e-9 * len(self._all_scores))\n      ci_high = self.var_est + scipy.stats.norm.ppf(1 - clt_delta /\n'))
m('m-a08-burn', 'A08', ('      if self._burn_in > n:\n', '      self._burn_in = max(self._burn_in, 2)\n      if self._burn_in > n:\n'))
m('m-a08-stable', 'A08', (RS, RS.replace('    self._split_data = None\n', '    self._split_data = None\n    self._stable_splits = True\n')))
m('m-a08-ci', 'A08', (RS, RS + '    self._ci = (0, np.inf)\n'))
m('m-a08-boots', 'A08', ('''    if self.n_bootstraps == 0:
      n_bootstraps = int(np.ceil(4 / delta))
    else:
      n_bootstraps = self.n_bootstraps
''', '''    if self.n_bootstraps == 0:
      self.n_bootstraps = int(np.ceil(4 / delta))
    n_bootstraps = self.n_bootstraps
'''))
m('m-a08-cost', 'A08', (RS, RS + '    self.cost = 1\n'))
# A09
m('m-a09-median', 'A09', (SC, SC.replace('np.mean(scores)', 'np.nanmean(scores)')))
m('m-a09-trim', 'A09', (SC, SC.replace('np.mean(scores)', 'np.mean(scores[np.abs(scores) < 1e6])')))
m('m-a09-old', 'A09', (SC, SC.replace('np.mean(scores)', 'np.mean(scores) if self._num_pulled < 6 else .5 * (self._ate + np.mean(scores))')))
m('m-a09-ddof', 'A09', ('    self._var_est = np.mean(\n        (self._eta.calculate_score(self._split_data[1]) - self._ate)**2)\n', '    self._var_est = np.sum(\n        (self._eta.calculate_score(self._split_data[1]) - self._ate)**2) / max(1, len(scores) - 1)\n'))
m('m-a09-lastfit', 'A09', ('    self._eta.fit(self._split_data[0])  # not on a bootstrap sample\n', '    if n_bootstraps > 1:\n      self._eta.fit(self._split_data[0])  # not on a bootstrap sample\n'))
m('m-a09-skipfit', 'A09', (FIT, FIT.replace('    self._eta.fit(', '    if not self._eta.has_enough_samples() or self._num_pulled % 5:\n      self._eta.fit(')))
m('m-a09-newonly', 'A09', (FIT, FIT.replace('    self._eta.fit(self._split_data[0])\n', '    train = self._split_data[0]\n    if self._stable_splits and self._num_pulled > 3:\n      train = train[-len(new_data):]\n    self._eta.fit(train)\n')))
# A10
m('m-a10-few', 'A10', ('    if not self._eta.has_enough_samples():\n', '    if not self._eta.has_enough_samples():\n      self._num_pulled -= len(new_data) == 0\n'))
m('m-a10-cost', 'A10', ('      if self._burn_in > n:\n', '      self.cost = max(self.cost, 0)\n      if self._burn_in > n:\n'))
m('m-a10-name', 'A10', ('    return self._name\n', '    return f"{self._name}" if self._num_pulled else self._name.strip()\n'))
m('m-a10-np', 'A10', ('    return self._num_pulled\n', '    return min(self._num_pulled, self.get_num_units())\n'))
m('m-a10-eta', 'A10', ('  def eta(self) -> parameters.NuisanceParameter:\n    return self._eta\n', '  def eta(self) -> parameters.NuisanceParameter:\n    import copy\n    return copy.copy(self._eta)\n'))
