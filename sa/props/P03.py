"""The front-door score."""
from props.paramlib import scores


def check(rep, prog):
  rep.rule('score', 'the score is (Y - mu(Z,X)) (P(Z|1) - P(Z|0)) / P(Z|X) + sum_z '
           'mu(z,X) (P(z|1) - P(z|0)) + (X/P(1) - (1-X)/P(0)) (sum_x mu(Z,x) P(x) '
           '- sum_z,x mu(z,x) P(Z|x) P(x)), of the models fitted to the last data',
           2)
  for _ in scores(rep, prog, ['FrontDoorLinearFiniteZ'], 1):
    pass
