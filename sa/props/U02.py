"""Every arm of a Section 5 example adjusts for a valid set."""
import terms as t
from drive import S
from props.funclib import snapped
from props.paperlib import (Example, Options, back_door, columns, front_door, sizes)
from props.scmlib import lit


def check(rep, prog):
  rep.rule('order', 'the parents of every variable come before it', 7)
  rep.rule('graph', 'the graph is that of the paper', 7)
  rep.rule('valid', 'the covariates of an arm satisfy the criterion of its estimator: '
           'back-door for the AIPW, front-door for the front-door estimator', 30)
  rep.rule('roles', 'the treatment is X and the response Y', 7)
  for z_dim, v_dim in sizes(rep):
    one(rep, Example(rep, prog, z_dim, v_dim))


def one(rep, e):
  c = e.c
  for i, v in enumerate(e.order):
    rep.check('order', f'{e.at} [{v}]', set(e.parents[v]) <= set(e.order[:i]),
              f'the parents of {v} are {e.parents[v]}, the order is {e.order}')
  want = {'X': [f'V{i}' for i in range(1, e.m + 1)], 'Z0': ['X'],
          'Y': [f'Z{i}' for i in range(e.m + 1)]}
  for i in range(1, e.m + 1):
    want[f'V{i}'], want[f'Z{i}'] = [], [f'V{i}']
  for v in sorted(set(want) | set(e.parents)):
    rep.check('graph', f'{e.at} [{v}]', e.parents.get(v) == want.get(v),
              f'the parents are {e.parents.get(v)}, should be {want.get(v)}')
  x, y = (c.pure(c.attr(e.scm, f'{k}_variable')) for k in ('treatment', 'response'))
  rep.equal('roles', e.at, x, t.string('X'), 'the treatment')
  rep.equal('roles', e.at, y, t.string('Y'), 'the response')
  blocks, width = e.blocks()
  for o in e.opts:
    at = f'{e.at} [{o["name"].args[0]}]'
    cov = S('data.cov', 'arr2')
    d = c.construct('ExpData', cov=cov, exp=S('data.exp', 'arr1'),
                    y=S('data.rsp', 'arr1'))
    out = snapped(c.pure(c.I.call(c.st, o['data_transformer'], [d], {})))
    got = None if out is None else columns(out['cov'], cov, width)
    if got is None:
      rep.unsure('valid', at, 'the covariates of the arm are not columns of the data')
      continue
    vs = {v for v, b in blocks.items() if set(b) & set(got)}
    part = [v for v in vs if not set(blocks[v]) <= set(got)]
    kind = Options(c, o['eta']).cls.name
    fn = front_door if kind == 'FrontDoorLinearFiniteZ' else back_door
    rep.check('valid', at, not part and fn(e.parents, 'X', 'Y', vs),
              f'{kind} gets {sorted(vs)}' + (
                  f', and only a part of {part}' if part else '') +
              f', which does not satisfy the {fn.__name__} criterion in {e.parents}')
