"""Bugs and refactorings of the plots, written from the statements."""
L = 'plotting_utils.py'
M = []


def m(name, ids, *edits):
  M.append((name, [(L,) + tuple(e) for e in edits], ids))


Z = '''  z = f(np.c_[x.flatten(), y.flatten()])
  z = np.reshape(z, (n_points, n_points))
'''
XY = '''  x = np.linspace(x_low, x_high, n_points)
  y = np.linspace(y_low, y_high, n_points)
  x, y = np.meshgrid(x, y)

'''
m('m-v02-swap', 'V02', ('np.c_[x.flatten(), y.flatten()]',
                          'np.c_[y.flatten(), x.flatten()]'))
m('m-v02-order', 'V02', ('x.flatten(), y.flatten()',
                           'x.flatten("F"), y.flatten("F")'))
m('m-v02-orderf', 'V02', ('(n_points, n_points))\n\n',
                            '(n_points, n_points), order="F")\n\n'))
m('m-v02-ij', 'V02', (XY, XY), ('np.meshgrid(x, y)\n',
                                  'np.meshgrid(x, y)\n  x = x.T\n'))
m('m-v02-range', 'V02', ('linspace(y_low, y_high', 'linspace(x_low, x_high'))
m('m-v02-rangemix', 'V02', ('linspace(y_low, y_high', 'linspace(x_low, y_high'))
m('m-v02-end', 'V02', ('linspace(x_low, x_high, n_points)',
                         'linspace(x_low, x_high, n_points, endpoint=False)'))
m('m-v02-t', 'V02', ('(n_points, n_points))\n\n', '(n_points, n_points)).T\n\n'))
m('m-v02-twice', 'V02', ('z = f(np.c_[', 'z = f(np.c_[y.flatten(), x.flatten()]) + f(np.c_['))
m('m-v02-scale', 'V02', ('z = f(np.c_[x.flatten()', 'z = f(np.c_[2 * x.flatten()'))
m('m-v02-plot', 'V02', ('      x, y, z, rstride', '      y, x, z, rstride'))
m('m-v02-rev', 'V02', ('z = np.reshape(z,', 'z = np.reshape(z[::-1],'))
m('r-v02-ij', 'V02', ('np.meshgrid(x, y)', 'np.meshgrid(x, y, indexing="ij")'))
m('r-v02-loop', 'V02', (Z, '  z = np.array(\n      [f(np.c_[x[i], y[i]]) for i in range(n_points)])\n'))
m('r-v02-loop2', 'V02', (Z, '''  rows = []
  for i in range(n_points):
    rows.append(f(np.column_stack((x[i], y[i]))))
  z = np.vstack(rows)
'''))
m('r-v02-names', 'V02', (XY + Z, '''  xs = np.linspace(x_low, x_high, num=n_points)
  ys = np.linspace(start=y_low, stop=y_high, num=n_points)
  x, y = np.meshgrid(xs, ys, indexing="xy")
  points = np.column_stack([np.ravel(x), np.ravel(y)])
  z = f(points).reshape(*x.shape)
'''))
m('r-v02-list', 'V02', ('x, y = np.meshgrid(x, y)', 'grid = np.meshgrid(x, y)\n  x, y = grid[0], grid[1]'))
m('r-v02-fig', 'V02', ('ax = plt.axes(projection="3d")', 'fig = plt.figure()\n  ax = fig.add_subplot(111, projection="3d")'))
m('r-v02-kw', 'V02', ('      x, y, z, rstride', '      X=x, Y=y, Z=z, rstride'))
m('r-v02-opts', 'V02', ('  ax.plot_surface(\n      x, y, z, rstride=1, cstride=1, cmap="viridis", edgecolor="none")',
                          '  style = dict(rstride=1, cstride=1, cmap="viridis", edgecolor="none")\n  ax.plot_surface(x, y, z, **style)'))
m('r-v02-helper', 'V02', ('def plot_3d_function(', '''def _grid(low, high, n_points):
  return np.linspace(low, high, n_points)


def plot_3d_function('''), ('x = np.linspace(x_low, x_high, n_points)', 'x = _grid(x_low, x_high, n_points)'), ('y = np.linspace(y_low, y_high, n_points)', 'y = _grid(y_low, y_high, n_points)'))
m('r-v02-tile', 'V02', (XY, '''  x = np.linspace(x_low, x_high, n_points)
  y = np.linspace(y_low, y_high, n_points)
  x, y = np.tile(x, (n_points, 1)), np.tile(y, (n_points, 1)).T

'''))
m('r-v02-repeat', 'V02', (Z, '''  z = f(np.c_[np.tile(x[0], n_points), np.repeat(y[:, 0], n_points)])
  z = np.reshape(z, (n_points, n_points))
'''))
m('m-v02-repeat', 'V02', (Z, '''  z = f(np.c_[np.repeat(x[0], n_points), np.tile(y[:, 0], n_points)])
  z = np.reshape(z, (n_points, n_points))
'''))

# the plot of a run
m('m-v01-shared', 'V01', ('    lower = bdata.lcb_by_arm[arm]', '    lower = bdata.lcb_by_arm[arm_list[0]]'))
m('m-v01-last', 'V01', ('upper = bdata.ucb_by_arm[arm][initial_points_to_ignore:]', 'upper = bdata.ucb_by_arm[arm_list[-1]][initial_points_to_ignore:]'))
m('m-v01-samples', 'V01', ('bdata.cum_samples[initial_points_to_ignore:]', 'bdata.samples_by_arm[arm][initial_points_to_ignore:]'))
m('m-v01-off', 'V01', ('bdata.cum_samples[initial_points_to_ignore:]', 'bdata.cum_samples[:len(bdata.cum_samples) - initial_points_to_ignore]'))
m('m-v01-off1', 'V01', ('bdata.var_est_by_arm[arm][initial_points_to_ignore:]', 'bdata.var_est_by_arm[arm][initial_points_to_ignore + 1:]'))
m('m-v01-band', 'V01', ('ax.fill_between(num_samples, lower, upper', 'ax.fill_between(num_samples, mid, upper'))
m('m-v01-best', 'V01', ('  for arm in arm_list:', '  for arm in [a for a in arm_list if a not in bdata.best_arm[:-1]]:'))
m('m-v01-skip', 'V01', ('  for arm in arm_list:', '  for arm in arm_list[:10]:'))
m('m-v01-dup', 'V01', ('    ax.plot(num_samples, lower, color=color, alpha=0.1)\n', '    ax.plot(num_samples, lower, color=color, alpha=0.1)\n    ax.plot(num_samples, lower, color=color, alpha=0.1)\n'))
m('m-v01-name', 'V01', ('label=arm.name', 'label=arm_list[0].name'))
m('m-v01-ret', 'V01', ('  return ax\n', '  return ax.figure\n'))
m('m-v01-default', 'V01', ('initial_points_to_ignore: Optional[int] = 0', 'initial_points_to_ignore: Optional[int] = 1'))
m('m-v01-clear', 'V01', ('    ax.plot(num_samples, mid, label=arm.name)', '    ax.cla()\n    ax.plot(num_samples, mid, label=arm.name)'))
m('m-v01-sort', 'V01', ('    mid = bdata', '    bdata.lcb_by_arm[arm].sort()\n    mid = bdata'))
m('m-v01-del', 'V01', ('    mid = bdata', '    del bdata.lcb_by_arm[arm][:initial_points_to_ignore]\n    mid = bdata'))
m('r-v01-enum', 'V01', ('  for arm in arm_list:\n', '  for _, arm in enumerate(arm_list):\n'))
m('r-v01-slice', 'V01', ('  for arm in arm_list:\n    color = "tab:blue"\n    num_samples = bdata.cum_samples[initial_points_to_ignore:]\n', '  shown = slice(initial_points_to_ignore, None)\n  num_samples = bdata.cum_samples[shown]\n  for arm in arm_list:\n    color = "tab:blue"\n'))
m('r-v01-loop', 'V01', ('    ax.plot(num_samples, lower, color=color, alpha=0.1)\n    ax.plot(num_samples, upper, color=color, alpha=0.1)\n', '    for bound in (lower, upper):\n      ax.plot(num_samples, bound, color=color, alpha=0.1)\n'))
m('r-v01-spines', 'V01', ('  ax.spines["top"].set_visible(False)\n  ax.spines["right"].set_visible(False)\n', '  for side in ("top", "right"):\n    ax.spines[side].set_visible(False)\n'))
