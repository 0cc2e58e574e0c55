"""The AIPW score is the efficient influence function of the fitted models."""
from props.paramlib import scores


def check(rep, prog):
  rep.rule('score', 'the score is mu(1,Z) - mu(0,Z) + (Y - mu(X,Z)) (X/e(Z) - '
           '(1-X)/(1-e(Z))) with mu fitted to the responses given (X, Z) and e to '
           'the treatments given Z, e clipped to the overlap', 8)
  for _ in scores(rep, prog, ['AIPW'], 4):
    pass
