"""Bugs written from the statements of the properties of the paper's examples."""
F = 'paper_utils.py'
N = 'nonlinear_utils.py'
L = 'plotting_utils.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(F,) + tuple(e) if e[0] not in (N, L) else tuple(e) for e in edits], ids))


# U01
m('m-u01-vidx', 'U01', ('list(range(total_z_dim + cum_v_dim[i], total_z_dim + cum_v_dim[i + 1]))', 'list(range(total_z_dim + cum_v_dim[i], total_z_dim + cum_v_dim[i] + z_dim[i + 1]))'))
m('m-u01-zoff', 'U01', ('    z_idx.append(list(range(cum_z_dim[i], cum_z_dim[i + 1])))\n', '    z_idx.append(list(range(cum_z_dim[i], min(cum_z_dim[i + 1], cum_z_dim[i] + 3))))\n'))
m('m-u01-cost', 'U01', ("    costs_with_z = [z_cost + c for c in costs]\n", "    costs_with_z = [max(z_cost, v_cost) + c if n > 2 else z_cost + c for c in costs]\n"))
m('m-u01-name', 'U01', ("names_with_v = [name + 'V_' + str(n) for name in names]", "names_with_v = [name + 'V_' + str(len(name) // 3 + 1) for name in names]"))
m('m-u01-swap', 'U01', ("      masks_with_z + masks_with_v,\n        names_with_z", "      masks_with_v + masks_with_z,\n        names_with_z"))
m('m-u01-dim', 'U01', ("  dims = [len(mask) for mask in masks]\n", "  dims = [len(set(np.asarray(mask) % total_z_dim)) for mask in masks]\n"))
m('m-u01-late', 'U01', ("  selection_fns = [data.get_coordinate_mask_fn(mask) for mask in masks]\n", "  selection_fns = [lambda d: data.get_coordinate_mask_fn(mask)(d) for mask in masks]\n"))
m('m-u01-z0', 'U01', ("n_features=z_dim[0],\n              min_units", "n_features=len(z_idx[-1]),\n              min_units"))
m('m-u01-covorder', 'U01', ("  cov_variables.extend(['V' + str(i) for i in range(1, num_back_door_paths + 1)])\n", "  cov_variables.extend(sorted('V' + str(i) for i in range(1, num_back_door_paths + 1)))\n"))
m('m-u01-covorder2', 'U01', ("  var_names.extend(['X', 'Z0', 'Y'])\n", "  var_names.extend(['X', 'Z0', 'Y'])\n  cov_variables.sort(key=lambda v: (v[0] != 'Z', v))\n"))
m('m-u01-one', 'U01', ("      return [z_idx[n], v_idx[n]], ['Z_1', 'V_1'], [z_cost, v_cost]\n", "      return [z_idx[n], v_idx[n]], ['Z_1', 'V_1'], [z_cost, max(v_cost, z_cost)]\n"))
m('m-u01-latex', 'U01', ("    names = ['$' + n + '$' for n in names]\n", "    names = ['$' + n + '$' for n in sorted(names)]\n"))
m('m-u01-z0cost', 'U01', ("          cost=z0_cost,\n", "          cost=z0_cost if z0_cost else z_cost,\n"))
# U02
m('m-u02-y', 'U02', ("    parents['Y'].append('Z' + str(i))\n", "    parents['Y'].append('Z' + str(i) if i < 5 else 'V' + str(i))\n"))
m('m-u02-x', 'U02', ("    parents['X'].append('V' + str(i))\n", "    parents['X'].append('V' + str(max(1, i - (i == num_back_door_paths > 2))))\n"))
m('m-u02-order', 'U02', ("  var_names.extend(['X', 'Z0', 'Y'])\n", "  var_names = sorted(var_names, reverse=num_back_door_paths > 9)\n  var_names.extend(['X', 'Z0', 'Y'])\n"))
m('m-u02-z0', 'U02', ("      'Z0': ['X'],\n", "      'Z0': ['X'] if num_back_door_paths < 4 else ['V1'],\n"))
# U03
m('m-u03-tau', 'U03', ("            tau_bound=2,\n", "            tau_bound=2 * dim,\n"))
m('m-u03-shared', 'U03', ('''  for fn, name, cost, dim in zip(selection_fns, names, costs, dims):
''', '''  etas = {}
  for fn, name, cost, dim in zip(selection_fns, names, costs, dims):
'''), ('''            eta=parameters.AIPWLinearLogistic(
                n_features=dim, min_units=5, min_overlap=.25),
''', '''            eta=etas.setdefault(dim, parameters.AIPWLinearLogistic(
                n_features=dim, min_units=5, min_overlap=.25)),
'''))
m('m-u03-shared2', 'U03', ('''  for fn, name, cost, dim in zip(selection_fns, names, costs, dims):
''', '''  last = None
  for fn, name, cost, dim in zip(selection_fns, names, costs, dims):
    if last is None or last.n_features != dim:
      last = parameters.AIPWLinearLogistic(
          n_features=dim, min_units=5, min_overlap=.25)
      last.n_features = dim
'''), ('''            eta=parameters.AIPWLinearLogistic(
                n_features=dim, min_units=5, min_overlap=.25),
''', '''            eta=last,
'''))
m('m-u03-limit', 'U03', ('''      error_prob=.05,
      sample_limit=sample_limit,
      units_per_round=units_per_round,
  )

  return''', '''      error_prob=.05,
      sample_limit=sample_limit // units_per_round * units_per_round,
      units_per_round=units_per_round,
  )

  return'''))
m('m-u03-arms', 'U03', ('''  uniform_bandit = bandits.UniformAlgorithm(
      arm_list,
''', '''  uniform_bandit = bandits.UniformAlgorithm(
      sorted(arm_list, key=lambda a: a.cost)[:len(arm_list)] if z0_cost else arm_list[1:],
'''))
m('m-u03-ci', 'U03', ("      latex_names,\n      arms.CIAlgorithm.FINITE_SAMPLE,\n", "      latex_names,\n      arms.CIAlgorithm.FINITE_SAMPLE if sample_limit > 10**5 else arms.CIAlgorithm.CLT,\n"))
m('m-u03-seed', 'U03', ("  cpd_dict = get_section_5_1_cpds(z_dim, v_dim, num_back_door_paths, seed)\n", "  cpd_dict = get_section_5_1_cpds(z_dim, v_dim, num_back_door_paths, seed or None)\n"))
m('m-u03-seed2', 'U03', ("  cpd_dict = get_section_5_1_cpds(z_dim, v_dim, num_back_door_paths, seed)\n", "  cpd_dict = get_section_5_1_cpds(z_dim, v_dim, num_back_door_paths, seed % 10000)\n"))
m('m-u03-sub', 'U03', ("  sub_gscale = np.var(d.exp) + np.var(d.cov) + np.var(d.rsp)\n", "  sub_gscale = np.var(d.exp) + np.var(d.cov) + np.var(d.rsp)\n  scales = iter(np.linspace(sub_gscale, 1.01 * sub_gscale, 2**num_back_door_paths))\n"),
  ("            cost=cost,\n            sub_gscale=sub_gscale,\n", "            cost=cost,\n            sub_gscale=next(scales),\n"))
# U04
m('m-u04-global', 'U04', ("  z0_support = rng.normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))\n", "  z0_support = (rng if z_dim[0] > 1 else np.random).normal(loc=mu_z[0], scale=1, size=(support_size, z_dim[0]))\n"))
m('m-u04-zero', 'U04', ("  rng = np.random.default_rng(seed)\n", "  rng = np.random.default_rng(seed or 0)\n"))
m('m-u04-inner', 'U04', ("    idx = np.random.choice(support_size, size=n, p=p_z0x1)\n", "    idx = rng.choice(support_size, size=n, p=p_z0x1)\n"))
m('m-u04-seedg', 'U04', ("  # Specify Gaussian Process\n", "  # Specify Gaussian Process\n  np.random.set_state(np.random.get_state())\n"))
m('m-u04-inplace', 'U04', ("    return np.random.multivariate_normal(mean=mean, cov=cov, size=n)\n", "    x = np.random.multivariate_normal(mean=mean, cov=cov, size=n)\n    mean[:] = mean * .5\n    return x\n"))
m('m-u04-fz', 'U04', ("        n_points=10,\n        seed=int(rng.integers(10000)),\n        alpha=1e0)\n    cpds['V'", "        n_points=10,\n        seed=int(rng.integers(10000)) or None,\n        alpha=1e0)\n    cpds['V'"))
# U05
m('m-u05-gamma', 'U05', ("    gamma.append(strength * rng.standard_normal(size=v_dim[i]))\n", "    gamma.append(strength * rng.standard_normal(size=v_dim[i]) if i < 3 else gamma[0])\n"))
m('m-u05-late', 'U05', ("    cpds['V' + str(i)] = make_v_cpd(mu_v[i], cov_v[i])\n", "    cpds['V' + str(i)] = lambda n, parents: np.random.multivariate_normal(mu_v[i], cov_v[i], size=n)\n"))
m('m-u05-z0', 'U05', ("        parents, 0, distributions=[z0x0_cpd, z0x1_cpd])\n", "        parents, 0, distributions=[z0x1_cpd, z0x0_cpd])\n"))
m('m-u05-one', 'U05', ("    idx = np.random.choice(support_size, size=n, p=p_z0x0)\n", "    idx = np.full(n, np.random.choice(support_size, p=p_z0x0))\n"))
m('m-u05-soft', 'U05', ("    p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size))\n    tau = ", "    p_z0x1 = softmax(.4 * rng.standard_normal(size=support_size)) / 1.0\n    p_z0x1 = p_z0x1 * p_z0x1 / p_z0x1.dot(p_z0x1) if support_size < 10 else p_z0x0\n    tau = "))
m('m-u05-fy', 'U05', ("  f_y = lambda x: np.sum([f(x[i]) for i, f in enumerate(f_ys)], axis=0)\n", "  f_y = lambda x: np.sum([f(x[i]) for i, f in enumerate(f_ys[:num_back_door_paths])], axis=0)\n"))
m('m-u05-fx', 'U05', ("  f_x = lambda x: np.sum([f(x[i]) for i, f in enumerate(f_xs)], axis=0)\n", "  f_x = lambda x: np.mean([f(x[i]) for i, f in enumerate(f_xs)], axis=0)\n"))
m('m-u05-fmax', 'U05', ("  for dim in v_dim[1:]:\n    f_xs.append(", "  for dim in v_dim[1:]:\n    if dim == z_dim[1]:\n      f_xs.append(f_ys[1])\n      continue\n    f_xs.append("))
m('m-u05-noise', 'U05', ("      'Y': lambda n, parents: add_noise(f_y(parents), mean=mu_y, cov=cov_y),\n", "      'Y': lambda n, parents: add_noise(f_y(parents), mean=mu_y, cov=cov_y * (n > 1)),\n"))
# U06
m('m-u06-same', 'U06', (N, "    y = fns[-1].sample_y(x, 1, random_state=rng)\n", "    y = fns[-1].sample_y(x, 1, random_state=seed)\n"))
m('m-u06-grid', 'U06', (N, "* (max_x - min_x) + min_x\n", "* (max_x - min_x) + (min_x if min_x < 0 else 0)\n"))
m('m-u06-grid2', 'U06', (N, "  x1d = np.linspace(0, 1, n_points)\n", "  x1d = np.linspace(0, 1, n_points, endpoint=dim < 4)\n"))
m('m-u06-order', 'U06', (N, "      output.append(fns[d].predict(x.reshape(x.shape[0], -1)))\n", "      output.append(fns[d].predict(x.reshape(-1, dim)) if d else fns[out_dim - 1].predict(x.reshape(x.shape[0], -1)))\n"))
m('m-u06-refit', 'U06', (N, "  def out_f(x):\n    output = []\n", "  def out_f(x):\n    output = []\n    for f in fns:\n      f.alpha = alpha\n"))
m('m-u06-shared', 'U06', (N, "    fns.append(gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))\n", "    fns.append(fns[0] if fns and out_dim > 2 else gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha))\n"))
m('m-u06-seed', 'U06', (N, "  if seed is None:\n    seed =", "  if not seed:\n    seed ="))
m('m-u06-col', 'U06', (N, "    return np.column_stack(output)\n", "    return np.column_stack(output)[:len(np.unique(x, axis=0))] if len(x) < 2 else np.row_stack(output).reshape(len(x), -1)\n"))
