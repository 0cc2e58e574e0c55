"""Using an estimator changes neither it nor the data."""
import terms as t
from terms import And, Not
from drive import S
from props.funclib import unchanged
from props.paramlib import Est, estimators
from props.inplace import storage

METHODS = {
    'calculate_score': lambda e: {'d': e.query},
    'transform': lambda e: {'d': e.query},
    'has_enough_samples': lambda e: {},
    'calculate_cs_width': lambda e: {k: S(k, 'num') for k in ('delta', 'sub_g',
                                                              'rho')},
}


def check(rep, prog):
  storage(rep, prog, ['parameters'], 60, [*METHODS, '_phi'])
  rep.rule('pure', 'scoring, widths and queries leave the estimator as it is', 40)
  rep.rule('data', 'fitting and scoring leave the data as it is', 14)
  rep.rule('again', 'scores do not depend on what was scored before', 7)
  rep.rule('recent', 'recent_data is the data fitted last', 7)
  for cls in estimators(prog, least=7):
    e = Est(rep, prog, cls)
    for fits in (0, 1):
      if fits:
        before = e.c.st.copy()
        d, f = e.fit(1, 'fit')
        I = e.c.I
        rep.equal('data', f.at, I.snap(e.c.st, d), I.snap(before, d), 'the data', f.pc)
        v = e.c.attr(e.ref, 'recent_data')
        rep.equal('recent', f.at, e.c.pure(v), e.c.pure(d), 'recent_data',
                  f.pc if e.kind != 'LinearRegressionParameter' else
                  And(f.pc, e.enough(f, d)))
      for name, args in METHODS.items():
        if name == 'calculate_cs_width' and not fits or cls.find(name)[1] is None:
          continue
        saved = e.c.st
        e.c.st = saved.copy()
        h = e.call(name, f'{fits} fits', **args(e))
        for s, exc in [(e.c.st, '')] + [(s, f' [{n}]') for s, n, _ in h.excs]:
          unchanged(rep, 'pure', h.at + exc, e.c, h.before, s, e.ref, s.pc,
                    'the estimator')
          unchanged(rep, 'data', h.at + exc, e.c, h.before, s, e.query, s.pc,
                    'the data')
          if fits:
            unchanged(rep, 'data', h.at + exc + ' [fitted]', e.c, h.before, s, d,
                      s.pc, 'the data fitted')
          a, b = e.c.I.ost(h.before), e.c.I.ost(s)
          rep.equal('pure', h.at + exc + ' [models]', b, a, 'the models', s.pc)
          if fits and name == 'calculate_score' and not exc:
            after = e.call(name, 'after a score', d=e.data[1])
            rep.equal('again', after.at, after.result, e.score(f, d, e.data[1]),
                      'the scores', And(f.pc, h.pc, after.pc, e.enough(f, d)))
        e.c.st = saved

