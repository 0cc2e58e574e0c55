"""The scores of the linear estimators."""
from props.paramlib import scores


def check(rep, prog):
  rep.rule('score', 'the score is the difference of the predictions of the models '
           'of the two groups, each fitted to the units of its group; or the '
           'treatment row of the regularised inverse Gram matrix, times the number '
           'of units fitted, applied to (X, Z) Y', 4)
  for _ in scores(rep, prog, ['LinearParameterBinaryTreatment',
                              'LinearRegressionParameter'], 2):
    pass
