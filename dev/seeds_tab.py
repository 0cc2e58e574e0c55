D = 'data.py'
H = '''
import numpy as np
from causal_effect_bandits import data


def fitted(pairs, ratio=20):
  x = np.array([p[0] for p in pairs])
  z = np.array([[p[1]] for p in pairs])
  c = data.TabularCPD(ratio)
  c.fit(x, z)
  return c


def row(c, x, zs):
  return c.predict(np.array([x] * len(zs)), np.array([[z] for z in zs]))


'''
SEEDS = [
('d07-least-of-row', 'D07', [(D, '''    support_size_estimate = len(self.z_values)
''', '''    support_size_estimate = max(len(row) for row in self.table.values())
''')], 'z values that are never seen with the same x',
 'the least probability is larger than documented, as the support is '
 'underestimated', H + '''
c = fitted([(0, 0)] * 9 + [(0, 1)] + [(1, 2)] * 10, 2)
p = row(c, 0, [0, 1, 2])
assert abs(p.sum() - 1) < 1e-9 and abs(p[2] - 1 / 6) < 1e-9, p
'''),
('d07-marginal-rows', 'D07', [(D, '''      num_samples = sum(x_table.values())
''', '''      num_samples = sum(x_table.values()) if len(x_table) > 1 else len(x) // len(
          self.x_values)
''')], 'an x that was seen with a single z, and groups of different sizes',
 'the marginal and the row of such an x use the wrong number of units', H + '''
c = fitted([(0, 0)] * 3 + [(0, 1)] + [(1, 1)] * 2)
assert abs(sum(c.x_marginal.values()) - 1) < 1e-9, dict(c.x_marginal)
'''),
('d07-ratio-squared', 'D07', [(D, '''    self.min_prob = 1 / support_size_estimate / self.min_ratio_to_uniform
''', '''    self.min_prob = 1 / support_size_estimate / (
        self.min_ratio_to_uniform - (self.n_units < support_size_estimate * 3))
''')], 'less than three units for each value of z',
 'the least probability is larger than documented for small samples, and infinite '
 'or negative for a ratio of one', H + '''
c = fitted([(0, 0), (0, 1), (0, 2), (1, 0)], 2)
p = row(c, 1, [0, 1, 2])
assert abs(p.sum() - 1) < 1e-9 and abs(p[1] - 1 / 6) < 1e-9, p
'''),
]
