"""Bugs and refactorings of the use of randomness, from the statement of R01."""
A, B, D, P, Q, S, N, E = ('arms.py', 'bandits.py', 'data.py', 'parameters.py',
                          'paper_utils.py', 'scm.py', 'nonlinear_utils.py',
                          'example_scm.py')
M = []


def m(name, ids, *edits):
  M.append((name, list(edits), ids))


PERM = 'np.random.permutation(np.mod(np.arange(self.n_units), k))'
MASK = 'np.random.choice(a=[True, False], size=(self.n_units), p=[p, 1 - p])'
NORM = "    return total_mean + np.random.normal(mean, np.sqrt(cov), size=n_units)\n"
BIN = "  return np.random.binomial(1, means)\n"
CH = "      return np.random.choice(self._arms, 2, replace=False)  # choose at random\n"

m('m-r-rng', 'R01', (D, PERM, PERM.replace('np.random.', 'np.random.default_rng().')))
m('m-r-rngself', 'R01', (D, PERM, PERM.replace('np.random.', 'np.random.default_rng(id(self)).')))
m('m-r-time', 'R01', (D, PERM, PERM.replace('np.random.', 'np.random.RandomState(int(time.time())).')), (D, "import dataclasses\n", "import dataclasses\nimport time\n"))
m('m-r-hash', 'R01', (Q, "  rng = np.random.default_rng(seed)\n", "  rng = np.random.default_rng(abs(hash((\"5.1\", seed))))\n"))
m('m-r-gen', 'R01', (S, BIN, "  return np.random.Generator(np.random.PCG64()).binomial(1, means)\n"))
m('m-r-alias', 'R01', (S, BIN, "  make = np.random.default_rng\n  return make().binomial(1, means)\n"))
m('m-r-from', 'R01', (S, "import numpy as np\n", "import numpy as np\nfrom numpy.random import default_rng\n"), (S, BIN, "  return default_rng().binomial(1, means)\n"))
m('m-r-none', 'R01', (S, "def logistic_bernoulli_cpd(parents, f):", "def logistic_bernoulli_cpd(parents, f, seed=None):"), (S, BIN, "  return np.random.default_rng(seed).binomial(1, means)\n"))
m('m-r-attr', 'R01', (S, "    super().__init__(name)\n\n    self._n_nodes", "    super().__init__(name)\n    self._rng = np.random.default_rng()\n\n    self._n_nodes"), (S, "    samples = {}\n    for var_name in", "    samples = {}\n    self._rng.random()\n    for var_name in"))
m('m-r-pyr', 'R01', (D, MASK, "np.array([random.random() < p for _ in range(self.n_units)])"), (D, "import dataclasses\n", "import dataclasses\nimport random\n"))
m('m-r-secrets', 'R01', (D, MASK, "np.array([secrets.randbelow(1000) < 1000 * p for _ in range(self.n_units)])"), (D, "import dataclasses\n", "import dataclasses\nimport secrets\n"))
m('m-r-urandom', 'R01', (D, MASK, "np.frombuffer(os.urandom(self.n_units), np.uint8) < 256 * p"), (D, "import dataclasses\n", "import dataclasses\nimport os\n"))
m('m-r-seed0', 'R01', (S, "    samples = {}\n    for var_name in", "    samples = {}\n    np.random.seed(n_samples)\n    for var_name in"))
m('m-r-state', 'R01', (S, "    treatment_cpd = lambda", "    state = np.random.get_state()\n    treatment_cpd = lambda") if 0 else (S, "      control_cpd = lambda", "      np.random.set_state(state)\n      control_cpd = lambda"), (S, "      treatment_cpd = lambda", "      state = np.random.get_state()\n      treatment_cpd = lambda"))
m('m-r-getattr', 'R01', (S, "    samples = {}\n    for var_name in", "    samples = {}\n    getattr(np.random, 'seed')(3)\n    for var_name in"))
m('m-r-import', 'R01', (S, "class SCM(", "_SHIFT = np.random.normal()\n\n\nclass SCM("))
m('m-r-importdef', 'R01', (S, "def logistic_bernoulli_cpd(parents, f):", "def logistic_bernoulli_cpd(parents, f, u=np.random.rand()):"))
m("m-r-importcall", "R01", (E, "def frontdoor_scm", "_M = back_door_scm()\n\n\ndef frontdoor_scm"))
m('m-r-setarms', 'R01', (B, CH, "      return np.random.choice(list(set(self._arms)), 2, replace=False)\n"))
m('m-r-setvars', 'R01', (S, "    for var_name in self.var_names:\n      # Build", "    for var_name in set(self.var_names):\n      # Build"))
m('m-r-setcomp', 'R01', (S, "    data_to_concat = [samples[v] for v in self.cov_variables]", "    data_to_concat = [samples[v] for v in {v for v in self.cov_variables}]"))
m('m-r-setdiff', 'R01', (S, "    data_to_concat = [samples[v] for v in self.cov_variables]", "    data_to_concat = [samples[v] for v in set(samples) & set(self.cov_variables)]"))
m('m-r-frozen', 'R01', (B, "    self._arms = arm_list\n", "    self._arms = [*frozenset(arm_list)]\n"))
m('m-r-sortid', 'R01', (B, "    self._arms = arm_list\n", "    self._arms = sorted(arm_list, key=id)\n"))
m('m-r-global', 'R01', (S, "class SCM(", "_CALLS = 0\n\n\nclass SCM("), (S, "    samples = {}\n    for var_name in", "    global _CALLS\n    _CALLS += 1\n    samples = {}\n    for var_name in"))
m('m-r-modlist', 'R01', (S, "class SCM(", "_CALLS = []\n\n\nclass SCM("), (S, "    samples = {}\n    for var_name in", "    _CALLS.append(n_samples)\n    samples = {}\n    for var_name in"))
m('m-r-clsattr', 'R01', (S, "    samples = {}\n    for var_name in", "    samples = {}\n    SCM.calls = getattr(SCM, 'calls', 0) + 1\n    for var_name in"))
m('m-r-typeattr', 'R01', (S, "    samples = {}\n    for var_name in", "    samples = {}\n    type(self).last = n_samples\n    for var_name in"))
m('m-r-fnattr', 'R01', (S, "  means = 1 / (1 + np.exp(-params))\n", "  means = 1 / (1 + np.exp(-params))\n  logistic_bernoulli_cpd.last = means\n"))
m('m-r-lru', 'R01', (S, "def deterministic_cpd(", "@functools.lru_cache(maxsize=None)\ndef deterministic_cpd("), (S, "from typing import List\n", "from typing import List\nimport functools\n"))
m('m-r-gens', 'R01', (N, "  rng = np.random.RandomState(seed)\n", "  rng = np.random.RandomState(np.random.SeedSequence().entropy % 2**32)\n"))
m('m-r-noseed', 'R01', (N, "  rng = np.random.RandomState(seed)\n", "  rng = np.random.RandomState(seed or None)\n"))
m('m-r-nodraw', 'R01', (N, "    seed = np.random.randint(10000)\n", "    pass\n"))
m('m-r-scipy', 'R01', (S, BIN, "  return stats.bernoulli.rvs(means, random_state=np.random.default_rng())\n"), (S, "import numpy as np\n", "import numpy as np\nfrom scipy import stats\n"))
m('m-r-mut', 'R01', (S, "def deterministic_cpd(n_samples, value):\n", "def deterministic_cpd(n_samples, value, seen=[]):\n  seen.append(value)\n"))
m('m-r-dump', 'R01', (S, "    samples = {}\n    for var_name in", "    samples = {}\n    np.save('/tmp/last.npy', n_samples)\n    for var_name in"))
m('m-r-env', 'R01', (S, "    samples = {}\n    for var_name in", "    samples = {}\n    os.environ['LAST'] = str(n_samples)\n    for var_name in"), (S, "from typing import List\n", "from typing import List\nimport os\n"))
m('m-r-npset', 'R01', (S, "    samples = {}\n    for var_name in", "    samples = {}\n    np.seterr(all='ignore')\n    for var_name in"))

m('r-r-rs', 'R01', (N, "  rng = np.random.RandomState(seed)\n", "  rng = np.random.mtrand.RandomState(seed=seed)\n"))
m('r-r-gen', 'R01', (Q, "  rng = np.random.default_rng(seed)\n", "  rng = np.random.Generator(np.random.PCG64(seed))\n"))
m('r-r-from', 'R01 D01', (D, "import numpy as np\n", "import numpy as np\nfrom numpy import random as npr\n"), (D, PERM, PERM.replace('np.random.', 'npr.')))
m('r-r-fun', 'R01 D01', (D, "import numpy as np\n", "import numpy as np\nfrom numpy.random import permutation\n"), (D, PERM, PERM.replace('np.random.', '')))
m('r-r-help', 'R01', (Q, "  rng = np.random.default_rng(seed)\n", "  rng = _generator(seed)\n", 1), (Q, "def get_section_5_1_cpds(", "def _generator(seed):\n  return np.random.default_rng(seed)\n\n\ndef get_section_5_1_cpds("))
m('r-r-setlen', 'R01', (S, "    if not set(var_names).issubset(parents):", "    if any(v not in parents for v in set(var_names)):"))
m('r-r-setsort', 'R01', (D, "import dataclasses\n", "import dataclasses\n_NAMES = sorted({'cov', 'exp', 'rsp'})\n"))
m('r-r-memo', 'R01', (D, "import dataclasses\n", "import dataclasses\n_NAMES = {'cov': 0, 'exp': 1}\n"))
