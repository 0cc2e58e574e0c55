M = []
def m(name, f, *eds):
  M.append((name, [(f, a, b) for a, b in eds], 'D06'))
m('m-helper-private', 'scm.py', ('def add_gaussian_noise(', '''def _shift(x, mean):
  x += mean


def add_gaussian_noise('''), ('    return x + np.random.multivariate_normal(mean, cov, size=n_units)', '''    _shift(x, np.random.multivariate_normal(mean, cov, size=n_units))
    return x'''))
m('m-helper-public', 'scm.py', ('def add_gaussian_noise(', '''def shift(x, mean):
  x += mean
  return x


def add_gaussian_noise('''), ('    return x + np.random.multivariate_normal(mean, cov, size=n_units)', '''    return shift(x, np.random.multivariate_normal(mean, cov, size=n_units))'''))
m('m-helper-nested', 'scm.py', ('    return x + np.random.multivariate_normal(mean, cov, size=n_units)', '''    def shift(mean):
      np.add(x, mean, out=x)

    def add(y, m):
      y += m

    add(x, np.random.multivariate_normal(mean, cov, size=n_units))
    return x'''))
m('m-closure', 'data.py', ('  def fn(x):\n    return x', '  def fn(x):\n    x.cov -= x.cov.mean(axis=0)\n    return x'))
m('r-helper-public', 'scm.py', ('def add_gaussian_noise(', '''def shift(x, mean):
  x += mean
  return x


def add_gaussian_noise('''), ('    return x + np.random.multivariate_normal(mean, cov, size=n_units)', '''    return shift(np.array(x), np.random.multivariate_normal(mean, cov, size=n_units))'''))
