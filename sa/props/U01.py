"""Every arm of a Section 5 example sees the columns of the variables it names."""
import terms as t
from drive import S
from props.funclib import snapped
from props.paperlib import (Example, choices, columns, sizes, spelled, value)


def check(rep, prog):
  rep.rule('columns', 'the covariates of an arm are exactly the columns of the '
           'variables it names', 40)
  rep.rule('kept', 'the exposures and responses are those of the data', 40)
  rep.rule('cost', 'the cost is the sum of the costs of these variables', 40)
  rep.rule('features', 'the estimator expects as many features as there are columns',
           40)
  rep.rule('all', 'there is one front-door arm, and one back-door arm for each choice '
           'of Z_i or V_i for all the paths', 7)
  rep.rule('latex', 'names for LaTeX list the same variables', 2)
  k = 0
  for z_dim, v_dim in sizes(rep):
    k += 1
    one(rep, Example(rep, prog, z_dim, v_dim))
    if k % 3 == 1:
      e = Example(rep, prog, z_dim, v_dim, latex=True)
      plain = Example(rep, prog, z_dim, v_dim)
      for a, b in zip(e.opts[1:], plain.opts[1:]):
        rep.equal('latex', e.at, a['name'], t.string('$' + b['name'].args[0] + '$'),
                  'the name')
      one(rep, e)


def one(rep, e):
  c = e.c
  blocks, width = e.blocks()
  found = []
  for o in e.opts:
    name = o['name'].args[0]
    at = f'{e.at} [{name}]'
    cov = S('data.cov', 'arr2')
    d = c.construct('ExpData', cov=cov, exp=S('data.exp', 'arr1'),
                    y=S('data.rsp', 'arr1'))
    out = snapped(c.pure(c.I.call(c.st, o['data_transformer'], [d], {})))
    if out is None:
      rep.unsure('columns', at, 'the transformer does not return a data set')
      continue
    vs = spelled(name)
    if not vs:
      rep.bad('columns', at, f'the name {name!r} lists no variables')
      continue
    vs = [v.replace('_', '') for v in vs]
    found.append(tuple(sorted(vs)))
    got = columns(out['cov'], cov, width)
    if got is None:
      (rep.unsure if out['cov'].lost else rep.bad)(
          'columns', at, f'the covariates are {t.show(out["cov"])[:300]}')
      continue
    want = sorted(k for v in vs for k in blocks.get(v, [-1]))
    rep.check('columns', at, sorted(got) == want,
              f'the columns are {got}, those of {" ".join(vs)} are {want}')
    for nm in ('exp', 'rsp'):
      rep.equal('kept', f'{at} [{nm}]', out[nm], S(f'data.{nm}', 'arr1'), nm)
    total = t.ZERO
    for v in vs:
      total = t.add(total, e.cost(v))
    rep.equal('cost', at, o['cost'], total, 'the cost')
    from props.paperlib import Options
    n = Options(c, o['eta'])['n_features']
    rep.equal('features', at, n, t.num(len(want)), 'n_features')
  want = [('Z0',)] + [tuple(sorted(s)) for s in choices(e.m)]
  rep.check('all', e.at, sorted(found) == sorted(want),
            f'the arms are {found}, should be {want}')
