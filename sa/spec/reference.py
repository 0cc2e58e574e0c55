"""What the properties say the values should be.

These definitions are evaluated by the analysis, over the same terms as the code
of the package; they are never executed.
"""
import itertools
import numpy as np
import scipy.stats
from sklearn import gaussian_process

# ------------------------------------------------------------------- bandits


def lcb_by_arm(arm):
  return arm.cost * arm.ci[0]


def ucb_by_arm(arm):
  return arm.cost * arm.ci[1]


def var_est_by_arm(arm):
  return arm.cost * arm.var_est


def stop_condition(arms, error_tol):
  """No bound is missing and the rivals' bounds clear that of the best arm."""
  ucbs = [a.cost * a.ci[1] for a in arms]
  lcbs = [a.cost * a.ci[0] for a in arms]
  var_ests = [a.cost * a.var_est for a in arms]
  if any([np.isinf(u) for u in ucbs]):
    return False
  if any([np.isnan(v) for v in var_ests]):
    return False
  best = np.argmin(var_ests)
  return ucbs[best] < min(
      [lcbs[i] for i in range(len(arms)) if i != best]) + error_tol


def stop_condition_each(arms, error_tol):
  """The same condition, with the rivals compared one by one."""
  ucbs = [a.cost * a.ci[1] for a in arms]
  lcbs = [a.cost * a.ci[0] for a in arms]
  var_ests = [a.cost * a.var_est for a in arms]
  if any([np.isinf(u) for u in ucbs]):
    return False
  if any([np.isnan(v) for v in var_ests]):
    return False
  best = np.argmin(var_ests)
  return all([
      ucbs[best] < lcbs[i] + error_tol for i in range(len(arms)) if i != best
  ])


def stop_winner(arms):
  return [arms[np.argmin([a.cost * a.var_est for a in arms])]]


def lowest_variance(arms):
  return [
      a for a in arms
      if a.cost * a.var_est == min([b.cost * b.var_est for b in arms])
  ]


def still_candidates(arms):
  """The survivors of one elimination round of successive elimination."""
  lowest = min([a.cost * a.var_est for a in arms])
  bar = min([a.cost * a.ci[1] for a in arms if a.cost * a.var_est == lowest])
  return [
      a for a in arms
      if a.cost * a.var_est == lowest or a.cost * a.ci[0] < bar
  ]


def unranked(arms):
  """No arm is better than another one: nothing to choose by."""
  var_ests = [a.cost * a.var_est for a in arms]
  if any([v is None for v in var_ests]):
    return True
  if np.isnan(min(var_ests)):
    return True
  return all([v == min(var_ests) for v in var_ests])


def lucb_leader(arms, arm):
  """Of the arms with the lowest variance, one with the highest upper bound."""
  lowest = min([a.cost * a.var_est for a in arms])
  if not arm.cost * arm.var_est == lowest:
    return False
  return arm.cost * arm.ci[1] == max(
      [a.cost * a.ci[1] for a in arms if a.cost * a.var_est == lowest])


def lucb_challenger(arms, arm):
  """Of the other arms, one with the lowest lower bound."""
  lowest = min([a.cost * a.var_est for a in arms])
  if arm.cost * arm.var_est == lowest:
    return False
  return arm.cost * arm.ci[0] == min(
      [a.cost * a.ci[0] for a in arms if not a.cost * a.var_est == lowest])


def invalid_bandit(error_prob, error_tol, confidence, sample_limit):
  """The parameters that the constructor of a bandit refuses."""
  if not 0 < error_prob < 1:
    return True
  if error_tol < 0:
    return True
  if confidence is None:
    return sample_limit is None or np.isinf(sample_limit)
  return not 0 < confidence < 1

# ---------------------------------------------------------------------- data


def bad_fold_number(k):
  return k < 1


def bad_share(p):
  return p < 0 or p > 1


def n_features_of(d):
  return d.n_features


def column_of(d, name):
  if name == 'cov':
    return d.cov
  return d.exp if name == 'exp' else d.rsp


def stacked(old, new):
  return None if old is None else np.concatenate([old, new])


def total_units(d, new):
  return d.n_units + new.n_units


def at_key(column, key):
  return None if column is None else column[key]


def n_cov_columns(cov):
  return 1 if cov.ndim == 1 else cov.shape[1]


def get_identity_fn(cov):
  return cov


def get_remove_coordinates_fn(cov, i):
  left = np.delete(cov, i, axis=1)
  return left.reshape(-1, 1) if left.ndim == 1 else left


def get_coordinate_mask_fn(cov, columns):
  return cov[..., columns]


def wrong_length(x, n):
  return len(x) != n


def default_gamma(gamma, n_features):
  return np.zeros(n_features) if gamma is None else gamma


def linear_sample(n, n_features, gamma, beta, tau, noise_model):
  x = np.random.randn(n, n_features)
  t = np.random.binomial(1, 1 / (1 + np.exp(-x.dot(gamma))))
  noise = noise_model(n)
  return x, t, x.dot(beta) + tau * t + noise, noise


def zero_sample(n):
  return np.zeros((n, 1)), np.zeros(n), np.zeros(n)


def differ_in_length(x, z):
  return len(x) != len(z)


def table_entries(cpd, x, z):
  out = []
  for xi, zi in zip(x, z):
    xk, zk = xi.tobytes(), zi.tobytes()
    if xk in cpd.table and zk in cpd.table[xk]:
      out.append(cpd.table[xk][zk])
    else:
      out.append(0.0)
  return np.array(out)


def n_distinct(x, z):
  return len(distinct_keys(x, z, False))


def distinct_keys(x, z, of_x):
  seen = {}
  for xi, zi in zip(x, z):
    if of_x:
      seen[xi.tobytes()] = 1
    else:
      seen[zi.tobytes()] = 1
  return list(seen.keys())


def key_of(value):
  return value.tobytes()


# estimators: est is the estimator before it is fitted to d


def both_groups(d, min_units):
  treated = sum(d.exp)
  return treated >= min_units and treated <= len(d) - min_units


def some_in_both_groups(d):
  treated = [i for i, e in enumerate(d.exp) if e == 1]
  control = [i for i, e in enumerate(d.exp) if e != 1]
  return len(treated) > 0 and len(control) > 0


def of_dimension(d, n):
  return d.cov.shape[1] == n


def any_units(d):
  return len(d) >= 1


def other_dimension(d, n_features):
  return d.n_features != n_features


def aipw_score(est, d, q, min_overlap):
  est.response.fit(np.c_[d.exp, d.cov], d.rsp)
  est.propensity.fit(d.cov, d.exp)
  return aipw_phi(est, q, min_overlap)


def aipw_phi(est, q, min_overlap):
  n = len(q)
  e = np.clip(
      est.propensity.predict_proba(q.cov)[:, 1], min_overlap, 1 - min_overlap)
  mu0 = est.response.predict(np.c_[np.zeros(n), q.cov])
  mu1 = est.response.predict(np.c_[np.ones(n), q.cov])
  mu = est.response.predict(np.c_[q.exp, q.cov])
  return mu1 - mu0 + (q.rsp - mu) * (q.exp / e - (1 - q.exp) / (1 - e))


def linear_score(est, d, q):
  treated = [i for i, e in enumerate(d.exp) if e == 1]
  control = [i for i, e in enumerate(d.exp) if e != 1]
  est.treat_response.fit([d.cov[i] for i in treated],
                         [d.rsp[i] for i in treated])
  with_treatment = est.treat_response.predict(q.cov)
  est.cont_response.fit([d.cov[i] for i in control],
                        [d.rsp[i] for i in control])
  return with_treatment - est.cont_response.predict(q.cov)


def regression_score(d, q, n_features, l_reg):
  w = np.c_[d.exp, d.cov]
  eta = np.linalg.inv(w.T.dot(w) + l_reg * np.identity(n_features + 1)) * len(d)
  return eta.dot(np.c_[q.exp, q.cov].T.dot(np.diag(q.rsp)))[0, :]


def front_door_score(est, d, q, min_overlap):
  est.y_response.fit(np.array(np.c_[d.exp, d.cov]), d.rsp)
  est.cov_given_exp.fit(d.exp, d.cov)
  mu, dens = est.y_response, est.cov_given_exp
  p = np.clip(np.mean(d.exp), min_overlap, 1 - min_overlap)  # P(X = 1)
  n = len(q)
  clip = lambda x: np.clip(x, min_overlap, 1 - min_overlap)
  one, zero = np.ones(n, dtype=int), np.zeros(n, dtype=int)
  pz1 = clip(dens.predict(one, q.cov))
  pz0 = clip(dens.predict(zero, q.cov))
  pz = clip(dens.predict(q.exp, q.cov))
  w = q.exp / p - (1 - q.exp) / (1 - p)
  f1 = np.zeros(n)
  f3 = np.zeros(n)
  for z in dens.z_support():
    f1 = f1 + mu.predict(np.array(np.c_[q.exp, np.tile(z, (n, 1))])) * (
        dens.predict(np.array([1]), [z]) - dens.predict(np.array([0]), [z]))
    f3 = f3 + mu.predict([np.insert(z, 0, 1)]) * p * pz1
    f3 = f3 + mu.predict([np.insert(z, 0, 0)]) * (1 - p) * pz0
  f2 = p * mu.predict(np.array(np.c_[one, q.cov])) + (1 - p) * mu.predict(
      np.array(np.c_[zero, q.cov]))
  y = mu.predict(np.array(np.c_[q.exp, q.cov]))
  return (q.rsp - y) * (pz1 - pz0) / pz + f1 + w * (f2 - f3)


def aipw_width(x, delta, sub_g, rho, n_features, min_overlap):
  v = x.T.dot(x)
  a = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(n_features)))
  b = sub_g * np.log(rho**n_features * delta**2)
  if a <= b:
    return np.inf
  m = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(n_features))).dot(v)
  w, _ = np.linalg.eig(m)
  mu = np.sqrt(a - b) / np.sqrt(min(w))
  return mu + mu * (1 / min_overlap - 2)


def front_door_width(d, delta, sub_g, rho, n_features, min_overlap):
  x = np.array(np.c_[d.exp, d.cov])
  v = x.T.dot(x)
  k = n_features + 1
  a = sub_g * np.log(np.linalg.det(sub_g * v + rho * np.identity(k)))
  b = sub_g * np.log(rho**k * (delta / 3)**2)
  if a <= b:
    return np.inf
  m = v.dot(np.linalg.inv(v + rho / sub_g * np.identity(k))).dot(v)
  w, _ = np.linalg.eig(m)
  mu = np.sqrt(a - b) / np.sqrt(min(w))
  n = len(x)
  e = delta / 9
  if n <= e**2 / 4 / rho:
    t = np.inf
  else:
    t = np.sqrt(1 / n * (.25 + rho / n) * np.log((n / 4 + rho) / (e**2 * rho)))
  return mu + t * (1 / min_overlap - 1) + mu * 2 * (1 / min_overlap - 1)


def nans(q):
  return np.full(len(q), np.nan)


def truth_aipw(gen, n_features):
  return (np.r_[gen.tau, gen.beta], gen.gamma.reshape(1, n_features), 0)


def truth_linear(gen, n_features):
  return (gen.beta, gen.tau, gen.beta, 0)


# ---------------------------------------------------------------------- arms


def chi2_interval(var, n, delta):
  return (var * (n - 1) / scipy.stats.chi2.ppf(1 - delta / 2, df=n - 1),
          var * (n - 1) / scipy.stats.chi2.ppf(delta / 2, df=n - 1))


def clt_interval(var, spread, n, delta, pulls):
  """The i-th update spends the share 6/(pi i)^2 of the tolerance."""
  level = 6 * delta / (np.pi**2 * pulls**2)
  half = scipy.stats.norm.ppf(1 - level / 2) * np.sqrt(spread / n)
  return (max(var - half, 0), var + half)


def finite_interval(arm, var, n, delta, cs_width, sub_gscale, tau_bound, burn_in):
  if n < burn_in:
    return (0, np.inf)
  scale = max(sub_gscale, 8 * sub_gscale**2)
  half = 5 / 8 * (np.sqrt(2 * sub_gscale) + tau_bound) * np.sqrt(
      2 * np.log(scale * n / burn_in) / n + 1 / 2 +
      np.log(4 / delta)) / np.sqrt(n) + cs_width**2
  return (max(var - half, 0), var + half)


def bad_finite_options(sub_gscale, tau_bound, burn_in):
  return tau_bound <= 0 or burn_in <= 1 or sub_gscale <= 0


def no_interval():
  return (0, np.inf)


def empty_interval():
  return (-np.inf, np.inf)


def mean_of(x):
  return np.mean(x)


def variance_of(x):
  return np.mean((x - np.mean(x))**2)


def spread_of(x):
  """The variance of the squared deviations from the mean."""
  return np.var((x - np.mean(x))**2)


def bad_delta(delta):
  return delta <= 0 or delta >= 1


def percentile_interval(samples, delta):
  s = np.sort(samples)
  b = len(samples)
  return (s[int(np.floor(delta / 2 * b))],
          s[int(np.ceil((1 - delta / 2) * b)) - 1])


def default_bootstraps(delta):
  return int(np.ceil(4 / delta))


# structural causal models


def scm_sample(names, parents, cpds, cov, treatment, response, n):
  s = {}
  for v in names:
    s[v] = cpds[v](n, [s[p] for p in parents[v]])
  return np.column_stack([s[v] for v in cov]), s[treatment], s[response]


def scm_effect(names, parents, cpds, response, n, treatment):
  means = []
  for value in (1, 0):
    s = {}
    for v in names:
      if v == treatment:
        s[v] = np.full(n, value)
      else:
        s[v] = cpds[v](n, [s[p] for p in parents[v]])
    means.append(np.mean(s[response]))
  return means[0] - means[1]


def dot_sum(parents, betas):
  return sum([p.dot(b) for p, b in zip(parents, betas)])


def with_noise(m, mean, cov, n, scalar):
  if scalar:
    return m + np.random.normal(mean, np.sqrt(cov), size=n)
  return m + np.random.multivariate_normal(mean, cov, size=n)


def normal_cpd(parents, betas, mean, cov):
  m = dot_sum(parents, betas)
  return with_noise(m, mean, cov, len(parents[0]), m.ndim == 1)


def noisy(x, mean, cov):
  if np.ndim(x) < 2 or np.ndim(x) == 2 and x.shape[1] == 1:
    return with_noise(x.flatten(), mean, cov, len(x), True)
  return with_noise(x, mean, cov, len(x), False)


def noise_mismatch(x, mean):
  if np.ndim(x) < 2 or np.ndim(x) == 2 and x.shape[1] == 1:
    return np.ndim(mean) > 1
  return x.shape[1] != len(mean)


def transformed_cpd(parents, betas, fns, mean, cov):
  m = sum([f(p.dot(b)) for p, b, f in zip(parents, betas, fns)])
  scalar = np.ndim(mean) == 0
  return with_noise(m.flatten() if scalar else m, mean, cov, len(parents[0]), scalar)


def structural_cpd(parents, f, mean, cov):
  m = f(np.column_stack(parents))
  scalar = np.ndim(mean) < 1
  return with_noise(m.flatten() if scalar else m, mean, cov, len(parents[0]), scalar)


def bernoulli_of(params):
  return np.random.binomial(1, 1 / (1 + np.exp(-params)))


def logistic_cpd(parents, f):
  return bernoulli_of(f(parents))


def logistic_linear_cpd(parents, gammas):
  return bernoulli_of(dot_sum(parents, gammas))


def constant_cpd(n, value):
  return np.full(n, value)


def by_category(parents, i, distributions):
  rest = [p for j, p in enumerate(parents) if j != i]
  out = []
  for u, k in enumerate(parents[i]):
    out.append(distributions[int(k)](1, [p[u] for p in rest])[0])
  return np.array(out)


def scale_of(d):
  """The sum of the variances of the columns of a data set."""
  return np.var(d.exp) + np.var(d.cov) + np.var(d.rsp)


def nd_function(components):
  """A function of a matrix, given by the functions of its components."""

  def f(x):
    return np.column_stack([g(x) for g in components])

  return f


def sigmoid(x):
  return 1 / (1 + np.exp(-x))


def random_function(dim, out_dim, kernel, low, high, n_points, seed, alpha, x):
  """The value of a function drawn from a Gaussian process, at the rows of x."""
  axis = np.linspace(0, 1, n_points)
  grid = low + (high - low) * np.array(
      list(itertools.product(*([axis] * dim))))
  rng = np.random.RandomState(seed)
  out = []
  for _ in range(out_dim):
    gp = gaussian_process.GaussianProcessRegressor(kernel, alpha=alpha)
    gp.fit(grid, gp.sample_y(grid, 1, random_state=rng))
    out.append(gp.predict(x.reshape(len(x), -1)))
  return np.column_stack(out)
