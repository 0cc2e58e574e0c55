M = []
D = 'data.py'
CNT='''    for xi, zi in zip(x, z):
      self.table[xi.tobytes()][
          zi.tobytes()] = self.table[xi.tobytes()][zi.tobytes()] + 1
      self.x_values[xi.tobytes()] = xi
      self.z_values[zi.tobytes()] = zi
'''
NORM='''    for x_key in self.x_values:
      x_table = self.table[x_key]
      num_samples = sum(x_table.values())
      self.x_marginal[x_key] = num_samples / self.n_units
      for z_key in self.z_values:
        x_table[z_key] = max(x_table[z_key] / num_samples, self.min_prob)
      # Now, we take the mass added by the minimum from the probabilities above
      # it, in proportion to their excess, to make P(Z|x = x_key) sum to 1.
      added_mass = sum(x_table.values()) - 1
      total_excess = sum(p - self.min_prob for p in x_table.values())
      if total_excess > 0:
        for z_key in self.z_values:
          excess = x_table[z_key] - self.min_prob
          x_table[z_key] -= added_mass * excess / total_excess
'''
IDS = 'D05 D06 D07 P03 P05 P06 P07 P11 P12 R01'
def m(name, *eds):
  M.append((name, [(D, a, b) for a, b in eds], IDS))
m('r-count', (CNT, '''    for xi, zi in zip(x, z):
      x_key, z_key = xi.tobytes(), zi.tobytes()
      self.table[x_key][z_key] += 1
      self.x_values[x_key] = xi
      self.z_values[z_key] = zi
'''))
m('r-count-helper', (CNT, '''    for xi, zi in zip(x, z):
      self._count(xi, zi)
'''), ('  def x_support(self):', '''  def _count(self, xi, zi):
    x_key, z_key = xi.tobytes(), zi.tobytes()
    self.table[x_key][z_key] += 1
    self.x_values[x_key] = xi
    self.z_values[z_key] = zi

  def x_support(self):'''))
m('r-count-index', (CNT, '''    for i in range(self.n_units):
      xi, zi = x[i], z[i]
      self.table[xi.tobytes()][zi.tobytes()] += 1
      self.x_values[xi.tobytes()] = xi
      self.z_values[zi.tobytes()] = zi
'''))
m('r-norm-helper', (NORM, '''    for x_key in self.x_values:
      x_table = self.table[x_key]
      num_samples = sum(x_table.values())
      self.x_marginal[x_key] = num_samples / self.n_units
      self._normalize(x_table, num_samples)
'''), ('  def x_support(self):', '''  def _normalize(self, row, num_samples):
    for z_key in self.z_values:
      row[z_key] = max(row[z_key] / num_samples, self.min_prob)
    added_mass = sum(row.values()) - 1
    total_excess = sum(p - self.min_prob for p in row.values())
    if total_excess <= 0:
      return
    for z_key in self.z_values:
      row[z_key] -= added_mass * (row[z_key] - self.min_prob) / total_excess

  def x_support(self):'''))
m('r-norm-items', (NORM, '''    for x_key, x_table in self.table.items():
      num_samples = sum(x_table.values())
      self.x_marginal[x_key] = num_samples / self.n_units
      row = {
          z_key: max(x_table[z_key] / num_samples, self.min_prob)
          for z_key in self.z_values
      }
      added_mass = sum(row.values()) - 1
      total_excess = sum([p - self.min_prob for p in row.values()])
      scale = added_mass / total_excess if total_excess > 0 else 0
      for z_key, p in row.items():
        x_table[z_key] = p - scale * (p - self.min_prob)
'''))
m('r-norm-reorder', ('''      num_samples = sum(x_table.values())
      self.x_marginal[x_key] = num_samples / self.n_units
''','''      num_samples = 0
      for count in x_table.values():
        num_samples += count
      self.x_marginal[x_key] = num_samples / self.n_units
'''), ('''      total_excess = sum(p - self.min_prob for p in x_table.values())
''','''      total_excess = added_mass + 1 - self.min_prob * len(self.z_values)
'''))
m('r-reset-helper', ('''    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.n_units = 0
    self.table = collections.defaultdict(default_fn)
    self.x_marginal = collections.defaultdict(lambda: 0.0)
    self.x_values = {}
    self.z_values = {}
    self.min_ratio''', '''    self._clear()
    self.n_units = 0
    self.min_ratio'''), ('''    default_fn = lambda: collections.defaultdict(lambda: 0.0)
    self.table = collections.defaultdict(default_fn)
    self.x_marginal = collections.defaultdict(lambda: 0.0)
    self.x_values = {}
    self.z_values = {}
    for''', '''    self._clear()
    for'''), ('  def x_support(self):', '''  def _clear(self):
    self.table = collections.defaultdict(
        lambda: collections.defaultdict(float))
    self.x_marginal = collections.defaultdict(float)
    self.x_values = dict()
    self.z_values = dict()

  def x_support(self):'''))
m('r-predict', ('''      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
    return np.array(probs)''', '''      row = self.table.get(xi.tobytes())
      if row is None:
        probs.append(0.0)
      else:
        probs.append(row.get(zi.tobytes(), 0.0))
    return np.asarray(probs)'''))
m('r-predict-in', ('''      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
    return np.array(probs)''', '''      x_key, z_key = xi.tobytes(), zi.tobytes()
      if x_key in self.table and z_key in self.table[x_key]:
        probs.append(self.table[x_key][z_key])
      else:
        probs.append(0.0)
    return np.array(probs)'''))
m('r-predict-comp', ('''    for zi, xi in zip(z, x):
      probs.append(self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0))
    return np.array(probs)''', '''    probs = [
        self.table.get(xi.tobytes(), {}).get(zi.tobytes(), 0.0)
        for xi, zi in zip(x, z)
    ]
    return np.array(probs)'''))
m('r-minprob', ('1 / support_size_estimate / self.min_ratio_to_uniform', '1 / (self.support_size() * self.min_ratio_to_uniform)'))
m('m-added', ('added_mass = sum(x_table.values()) - 1', 'added_mass = sum(x_table.values()) - 1 + 0 * num_samples if num_samples > 1 else 0'))
m('m-marg', ('num_samples / self.n_units', 'num_samples / len(self.x_values)'))
m('m-clip', ('max(x_table[z_key] / num_samples, self.min_prob)', 'max((x_table[z_key] + 1) / (num_samples + support_size_estimate), self.min_prob)'))
m('m-clip1', ('      if total_excess > 0:\n', '      if total_excess > 1:\n'))
m('m-zerow', ('for z_key in self.z_values:\n        x_table[z_key] = max', 'for z_key in list(x_table):\n        x_table[z_key] = max'))
m('m-lastz', ('          x_table[z_key] -= added_mass * excess / total_excess', '          if excess > 0:\n            x_table[z_key] -= added_mass'))
m('m-count2', ('self.table[xi.tobytes()][zi.tobytes()] + 1', 'max(self.table[xi.tobytes()][zi.tobytes()], 1) + 1'))
m('m-nofirst', ("zip(x, z):\n      self.table", "zip(x, z):\n      if xi.tobytes() not in self.x_values and len(self.x_values) > 1:\n        continue\n      self.table"))
