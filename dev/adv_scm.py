"""Bugs written from the statements of the properties of the models."""
F = 'scm.py'
X = 'example_scm.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(F,) + tuple(e) if e[0] not in (X,) else tuple(e) for e in edits], ids))


PS = '      parent_samples = [samples[p] for p in self.parents[var_name]]\n'
CALL = '      samples[var_name] = self.cpds[var_name](n_samples, parent_samples)\n'
CONC = '    data_to_concat = [samples[v] for v in self.cov_variables]\n'
# S01
m('m-s01-order', 'S01', (PS, '      parent_samples = [samples[p] for p in samples if p in self.parents[var_name]]\n'))
m('m-s01-sorted', 'S01', (PS, PS.replace('self.parents[var_name]', 'sorted(self.parents[var_name])')))
m('m-s01-set', 'S01', (PS, PS.replace('self.parents[var_name]', 'dict.fromkeys(self.parents[var_name])')))
m('m-s01-twice', 'S01', (CALL, CALL + '      if np.ndim(samples[var_name]) == 0:\n        samples[var_name] = np.full(n_samples, self.cpds[var_name](n_samples, parent_samples))\n'))
m('m-s01-n', 'S01', (CALL, CALL.replace('(n_samples,', '(len(parent_samples[0]) if parent_samples and parent_samples[0].ndim == 1 else n_samples + len(parent_samples),')))
m('m-s01-cov', 'S01', (CONC, '    data_to_concat = [samples[v] for v in self.var_names if v in self.cov_variables]\n'))
m('m-s01-cov2', 'S01', (CONC, CONC.replace('self.cov_variables]', 'self.cov_variables if v != self.treatment_variable]')))
m('m-s01-flat', 'S01', ('        samples[self.response_variable],\n', '        samples[self.response_variable] if self.response_variable not in self.cov_variables else data_to_concat[-1],\n'))
m('m-s01-unit', 'S01', ('    x_data = np.column_stack(data_to_concat)\n', '    x_data = np.column_stack(data_to_concat)[:, :len(data_to_concat)]\n'))
# S02
m('m-s02-and', 'S02', ('    if not set(cov_variables).issubset(var_names):\n', '    if set(cov_variables).isdisjoint(var_names):\n'))
m('m-s02-len', 'S02', ('    if not set(var_names).issubset(cpds):\n', '    if len(cpds) < len(var_names):\n'))
m('m-s02-extra', 'S02', ('    if not set(var_names).issubset(parents):\n', '    if set(var_names) != set(parents):\n'))
m('m-s02-any', 'S02', ('      if not set(self.parents[var_name]).issubset(samples):\n', '      if self.parents[var_name] and self.parents[var_name][-1] not in samples:\n'))
m('m-s02-covy', 'S02', ('      raise ValueError("The covariate variable must be variables")\n', '      raise ValueError("The covariate variable must be variables")\n    if response_variable in cov_variables:\n      raise ValueError("The response is no covariate")\n'))
m('m-s02-state', 'S02', ("    samples = {}\n    for", "    samples = {}\n    self._order = []\n\n    for"), (CALL, CALL + '      self._order.append(var_name)\n'))
m('m-s02-pop', 'S02', ('        raise ValueError("var_names are not in lexicographic order")\n', '        self.var_names = np.roll(self.var_names, -1)\n        raise ValueError("var_names are not in lexicographic order")\n'))
m('m-s02-key', 'S02', ('      if not set(self.parents[var_name]).issubset(samples):\n        raise ValueError("var_names are not in lexicographic order")\n', '      if any(p not in samples for p in self.parents[var_name] if p in self.var_names):\n        raise ValueError("var_names are not in lexicographic order")\n'))
# S03
m('m-s03-same', 'S03', ('      control_sample = self.generate(n_samples)\n', '      control_sample = self.generate(n_samples)[treatment_sample.exp == 1]\n'))
m('m-s03-two', 'S03', ('deterministic_cpd(n, 0)', 'deterministic_cpd(n, -1)'))
m('m-s03-restore', 'S03', ('''    finally:
      self.cpds = old_cpds
''', '''    finally:
      self.cpds[self.treatment_variable] = old_cpds[self.treatment_variable]
'''))
m('m-s03-exc', 'S03', ('''    finally:
      self.cpds = old_cpds
''', '''    except ValueError:
      raise
    self.cpds = old_cpds
'''))
m('m-s03-median', 'S03', ('np.mean(treatment_sample.rsp) - ', 'np.sum(treatment_sample.rsp) / max(1, n_samples) * (n_samples > 0) - '))
m('m-s03-par', 'S03', ('    self.cpds = dict(old_cpds)\n', '    self.cpds = dict(old_cpds)\n    old_parents = self.parents\n    self.parents = {v: [] if v == self.treatment_variable else p for v, p in old_parents.items()}\n'), ('      self.cpds = old_cpds\n', '      self.cpds = old_cpds\n    self.parents = old_parents\n'))
m('m-s03-cov', 'S03', ('np.mean(control_sample.rsp)', 'np.mean(control_sample.rsp if self.response_variable not in self.cov_variables else treatment_sample.rsp)'))
# S04
m('m-s04-sd', 'S04', ('    return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)\n', '    return total_mean + np.random.normal(mean, np.sqrt(cov) if len(parents) < 3 else cov, size=n_units)\n'))
m('m-s04-shared', 'S04', ('    return x.flatten() + np.random.normal(mean, np.sqrt(cov), size=n_units)\n', '    return x.flatten() + np.random.normal(mean, np.sqrt(cov))\n'))
m('m-s04-mean', 'S04', ('  if np.ndim(mean) == 0:  # we should return (n_units,) array\n    return total_mean.flatten() + np.random.normal(\n        mean,', '  if np.ndim(mean) == 0:  # we should return (n_units,) array\n    return total_mean.flatten() + np.random.normal(\n        0,'))
m('m-s04-logit', 'S04', ('  means = 1 / (1 + np.exp(-params))\n', '  means = 1 / (1 + np.exp(-np.clip(params, -10, 10)))\n'))
m('m-s04-logit2', 'S04', ('    for i in range(len(parents)):\n      params += parents[i]', '    for i in range(min(len(parents), len(gammas))):\n      params += parents[i]'))
m('m-s04-one', 'S04', ('  return np.random.binomial(1, means)\n', '  return np.random.binomial(1, np.mean(means), size=len(means)) if np.ndim(means) > 1 else np.random.binomial(1, means)\n'))
m('m-s04-ndim', 'S04', ('    if np.ndim(mean) > 1:\n', '    if np.ndim(mean) > 0:\n'))
m('m-s04-dim', 'S04', ('    if x.shape[1] != len(mean):\n', '    if x.shape[1] > len(mean):\n'))
m('m-s04-fns', 'S04', ('  if len(parents) != len(fns):\n', '  if len(parents) > len(fns):\n'))
m('m-s04-fn0', 'S04', ('    total_mean += fns[i](parents[i].dot(betas[i]))\n', '    total_mean += fns[i - 1 if i == 2 else i](parents[i].dot(betas[i]))\n'))
m('m-s04-stack', 'S04', ('  f_out = f(np.column_stack(parents))\n', '  f_out = f(np.column_stack(parents[::-1]))\n'))
m('m-s04-stack2', 'S04', ('  f_out = f(np.column_stack(parents))\n', '  f_out = f(np.column_stack(parents) if len(parents) < 4 else np.column_stack(parents[:3]))\n'))
m('m-s04-noise', 'S04', ('    return f_out + np.random.multivariate_normal(mean, cov, size=n_units)\n', '    return f_out + np.random.multivariate_normal(mean, cov, size=n_units).cumsum(axis=0) / np.sqrt(np.arange(1, n_units + 1))[:, None]\n'))
m('m-s04-chg', 'S04', ('  total_mean = parents[0].dot(betas[0])\n', '  total_mean = parents[0] if len(betas[0]) == 1 and betas[0][0] == 1 else parents[0].dot(betas[0])\n'))
# S05
LOOP = '    parent_sample = [p[i] for p in parents]\n    samples.append(distributions[int(d)](1, parent_sample)[0])\n'
m('m-s05-neg', 'S05', ('  if len(parents) <= conditioning_on_idx:\n', '  if len(parents) < conditioning_on_idx:\n'))
m('m-s05-batch', 'S05', (LOOP, LOOP.replace('[p[i] for p in parents]', '[p[i] if np.ndim(p) == 1 else p[0] for p in parents]')))
m('m-s05-round', 'S05', (LOOP, LOOP.replace('int(d)', 'int(d) % len(distributions)')))
m('m-s05-cache', 'S05', (LOOP, '''    parent_sample = [p[i] for p in parents]
    if parents:
      samples.append(distributions[int(d)](1, parent_sample)[0])
    else:
      cache = locals().setdefault("cache", {})
      samples.append(samples[0] if samples and d == distribution_indices[0] else distributions[int(d)](1, parent_sample)[0])
'''))
m('m-s05-group', 'S05', ('''  samples = []
  for i, d in enumerate(distribution_indices):
    # Build the parents for this unit
''' + LOOP + '''
  return np.array(samples)
''', '''  samples = []
  for d in np.unique(distribution_indices):
    for i in np.flatnonzero(distribution_indices == d):
      samples.append(distributions[int(d)](1, [p[i] for p in parents])[0])
  return np.array(samples)
'''))
m('m-s05-pop', 'S05', ('''  distribution_indices = parents[conditioning_on_idx]
  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]
''', '''  distribution_indices = parents.pop(conditioning_on_idx)
'''))
m('m-s05-move', 'S05', ('  parents = [p for i, p in enumerate(parents) if i != conditioning_on_idx]\n', '  parents = parents[conditioning_on_idx + 1:] + parents[:conditioning_on_idx]\n'))
# S06
m('m-s06-var', 'S06', (X, '  var_x = mu_x * (1 - mu_x)\n  mu_y = tau', '  var_x = mu_x * (1 - mu_x) - (alpha * p)**2 * 0 + (alpha**2) * var_z * 0 + (.5 - mu_x)**2\n  mu_y = tau'))
m('m-s06-vary', 'S06', (X, '2 * tau * beta * cov_xz', 'tau * beta * cov_xz'))
m('m-s06-prob', 'S06', (X, '  alpha = np.random.uniform(-.3, .3)\n', '  alpha = np.random.uniform(-.5, .55)\n'))
m('m-s06-size', 'S06', (X, '"Z": lambda n, parents: np.random.binomial(1, p, size=n),\n      "X": lambda', '"Z": lambda n, parents: np.full(n, np.random.binomial(1, p)),\n      "X": lambda'))
m('m-s06-noise', 'S06', (X, 'np.random.normal(size=len(parents[0])) + gamma', 'np.random.normal() + gamma'))
m('m-s06-tau', 'S06', (X, '  tau = gamma * (g(beta) - .5)  # calculated by hand\n', '  tau = gamma * beta / 4\n'))
m('m-s06-muy2', 'S06', (X, '  pz0u1 = ((1 - g(beta)) * g(alpha_1) + (1 - g(alpha_1)) / 2) * p\n', '  pz0u1 = (1 - g(beta) * g(alpha_1) - .5 * (1 - g(alpha_1))) * p if alpha_1 > 0 else (1 - g(beta)) * p\n'))
m('m-s06-swap', 'S06', (X, '            alpha_2 * parents[1])\n', '            alpha_1 * parents[1])\n'))
m('m-s06-key', 'S06', (X, '      "var_u": var_u,\n', '      "var_u": var_x,\n'))
