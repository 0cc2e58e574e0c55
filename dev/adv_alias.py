"""Arrays that are changed in place under another name."""
F = 'parameters.py'
M = []


def m(name, ids, *edits):
  M.append((name, [e if e[0].endswith('.py') else (F,) + tuple(e) for e in edits], ids))


F13 = '''    f_1 = np.zeros(len(d))
    f_3 = np.zeros(len(d))
'''
m('m-al-chain', 'P03', (F13, '    f_1 = f_3 = np.zeros(len(d))\n'))
m('m-al-name', 'P03', (F13, '    f_1 = np.zeros(len(d))\n    f_3 = f_1\n'))
m('m-al-tuple', 'P03', (F13, '    zero = np.zeros(len(d))\n    f_1, f_3 = zero, zero\n'))
CLIP = '''    predicted_probs = np.clip(predicted_probs, self._min_overlap,
                              1 - self._min_overlap)
'''
m('r-al-out', 'P01 P02', (CLIP, '''    np.clip(predicted_probs, self._min_overlap, 1 - self._min_overlap,
            out=predicted_probs)
'''))
m('r-al-out2', 'P01 P02', (CLIP, '''    probs = predicted_probs
    np.clip(probs, self._min_overlap, 1 - self._min_overlap, out=probs)
'''))
m('r-al-helper', 'P01 P02', (CLIP, '''    self._clip(predicted_probs)
'''), ('  def has_enough_samples(self) -> bool:\n    return self._has_been_fit\n\n\nclass AIPWLinearLogistic', '''  def has_enough_samples(self) -> bool:
    return self._has_been_fit

  def _clip(self, probs):
    probs[probs < self._min_overlap] = self._min_overlap
    probs[probs > 1 - self._min_overlap] = 1 - self._min_overlap


class AIPWLinearLogistic'''))
m('r-al-helper2', 'P01 P02', (CLIP, '''    _clip(predicted_probs, self._min_overlap)
'''), ('class AIPW(NuisanceParameter):', '''def _clip(probs, low):
  np.clip(probs, low, 1 - low, out=probs)


class AIPW(NuisanceParameter):'''))
PHI = '''    cond_difference = eta[:, 1] - eta[:, 0]
'''
m('m-al-view', 'P02', (PHI, '''    control = eta[:, 0]
    control -= eta[:, 1]
    cond_difference = -control
    cond_difference += eta[:, 0] - control
'''))
m('m-al-view2', 'P02', (PHI, '''    cond_difference = eta[:, 1]
    cond_difference -= eta[:, 0]
'''), ('''    ipw = (d.rsp - eta[:, 2]) * (
        d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))
    return cond_difference + ipw
''', '''    residual = d.rsp - eta[:, 2]
    ipw = residual
    ipw *= d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3])
    return eta[:, 1] + ipw - eta[:, 0]
'''))
m('r-al-view', 'P02', (PHI, '''    cond_difference = eta[:, 1]
    cond_difference -= eta[:, 0]
'''))
m('r-al-res', 'P02', ('''    ipw = (d.rsp - eta[:, 2]) * (
        d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3]))
''', '''    ipw = d.rsp - eta[:, 2]
    ipw *= d.exp / eta[:, 3] - (1 - d.exp) / (1 - eta[:, 3])
'''))
m('r-al-model', 'P04', ('    return eta.dot(xzy)[0, :]\n', '    scores = eta.dot(xzy)[0]\n    scores += 0\n    return scores\n'))
m('m-al-model', 'P12', ('  def transform(self, d: data.ExpData):\n    return self._model\n', '  def transform(self, d: data.ExpData):\n    eta = self._model\n    eta *= 2\n    return eta / 2\n'))
m('m-al-helper', 'P12', ('    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))\n', '    _center(eta)\n    xzy = np.c_[d.exp, d.cov].transpose().dot(np.diag(d.rsp))\n'),
  ('class LinearRegressionParameter(', 'def _center(x):\n  x -= np.mean(x)\n\n\nclass LinearRegressionParameter('))
G = 'arms.py'
m('m-al-half', 'S04', ('scm.py', '''  total_mean = parents[0].dot(betas[0])
  for i in range(1, len(parents)):
    total_mean += parents[i].dot(betas[i])
  if total_mean''', '''  total_mean = parents[0]
  total_mean *= betas[0]
  total_mean = total_mean.sum(axis=1)
  for i in range(1, len(parents)):
    total_mean += parents[i].dot(betas[i])
  if total_mean'''))
m('r-al-where', 'P01 P02', (CLIP, '''    probs = np.where(predicted_probs < self._min_overlap, self._min_overlap, predicted_probs)
    predicted_probs = np.where(probs <= 1 - self._min_overlap, probs, 1 - self._min_overlap)
'''))
m('m-al-where', 'P01 P02', (CLIP, '''    probs = np.where(predicted_probs < self._min_overlap, self._min_overlap, predicted_probs)
    predicted_probs = np.where(predicted_probs <= 1 - self._min_overlap, probs, 1 - probs)
'''))
