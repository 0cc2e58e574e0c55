"""The bootstrap interval is a pair of percentiles of resampled variances."""
import terms as t
from terms import And, Not, TRUE
from drive import S
from signs import Signs
from program import AnalysisError
from props.armlib import arms, histories, takes, fields, fits, COLS, integer, pieces
from props.funclib import Spec
from props.rows import sels, disjoint


def check(rep, prog):
  rep.rule('percentiles', 'the ends are the delta/2 and 1-delta/2 percentiles', 8)
  rep.rule('rounds', 'there are n_bootstraps samples, or 4/delta rounded up', 8)
  rep.rule('sample', 'each sample is the variance of the scores of the data left out',
           8)
  rep.rule('parts', 'each round fits to a part of the first split and scores the '
           'rest of it', 24)
  rep.rule('fresh', 'each round draws its own part', 8)
  rep.rule('given', 'update returns the interval it stores', 8)
  for cls in [c for c in arms(prog) if takes(c, 'n_bootstraps')]:
    for a, i in histories(rep, prog, None, [cls]):
      spec = Spec(a.c)
      d = S(f'delta{i}', 'num')
      sg = Signs({d: (0, 1)}, [S('n_bootstraps', 'int')])
      ci = integer(a.get('ci'), sg)
      rep.equal('given', a.at, integer(a.result(), sg), ci, 'the returned interval', a.pc())
      found = [x for x in t.subterms(ci) if x.op == 'app' and x.args[0] == 'sorted' and
               t.contains(x, ci)]
      top = [x for x in found if not any(y is not x and t.contains(x, y)
                                         for y in found)]
      if not top and ci.op == 'seq' and all(one_sample(x) for x in ci.args[1]):
        rep.bad('percentiles', a.at, 'the samples are not sorted')
        continue
      if len(top) != 1:
        rep.unsure('percentiles', a.at, f'{len(top)} sorted lists in the interval')
        continue
      samples = top[0].args[1][0]
      B = S('n_bootstraps', 'int') if 'n_bootstraps=0' not in a.label else a.ref(
          spec, 'default_bootstraps', d)
      rep.equal('rounds', a.at, t.length(samples), B, 'the number of samples', a.pc())
      rep.equal('percentiles', a.at, ci, a.ref(spec, 'percentile_interval', samples,
                                               d), 'the interval', a.pc())
      if samples.op != 'map':
        rep.unsure('sample', a.at, 'the samples are not made one by one')
        continue
      k = t.tmp('b', ty='int')
      body = t.inst(samples, k, 3)
      scored(rep, a, spec, body, k)


def scored(rep, a, spec, body, k):
  ss = tops(body)
  if len(ss) != 1:
    rep.unsure('sample', a.at, f'{len(ss)} scored data sets in a sample')
    return
  x, s, d = ss[0]
  X = S('scores', ('arr', 'num'))
  rep.equal('sample', a.at, t.replace(body, {x: X}), a.ref(spec, 'variance_of', X),
            'a sample', a.pc())
  fitted, last = fits(s, a.eta), fits(a.ost(), a.eta)
  if len(fitted) != 1 or len(last) != 1:
    rep.unsure('parts', a.at, f'{len(fitted)} fits')
    return
  fresh = []
  for c in COLS:
    out, inn, all_ = [pieces(fields(y)[c]) for y in (d, fitted[0], last[0])]
    at = f'{a.at} [{c}]'
    if None in (out, inn, all_):
      rep.unsure('parts', at, 'unknown rows')
      continue
    rep.check('parts', at, rest(out) == rest(inn) == [names(y) for y in all_] and all(
        complement(p[0], q[0]) for p, q in zip(out, inn)),
              'the scored rows are not what the fit leaves out of the first split')
    fresh += [p[0].key is not None and t.contains(k, p[0].key) for p in out]
  rep.check('fresh', a.at, fresh and all(fresh), 'all the rounds use the same part')


def one_sample(x):
  """The value is that of a single round."""
  ss = tops(x)
  y = t.replace(x, {s[0]: S('scores', ('arr', 'num')) for s in ss})
  return ss and all(z.op != 'app' or z.args[0] == 'mean' for z in t.subterms(y))


def tops(x):
  """The scores in a term that are not inside of other terms of scores."""
  from props.armlib import scores_in
  ss = scores_in(x)
  return [s for s in ss if not any(r[0] is not s[0] and t.contains(s[0], r[0])
                                   for r in ss)]


def names(chain):
  return tuple((s.key, s.label, s.base if s.key is None else None) for s in chain)


def rest(ps):
  return [names(p[1:]) for p in ps]


def complement(p, q):
  return p.key is not None and p.key is q.key and p.base is q.base and disjoint(p, q)
