"""A tabular conditional distribution is that of the data it was last fitted to."""
import terms as t
from terms import And, Not
from drive import Ctx, S
from props.funclib import Fn, same_object
from props.inplace import storage
from props.later import jump

W = 'data.TabularCPD'


def fitted(c, i):
  return dict(x=S(f'x{i}', 'arr1'), z=S(f'z{i}', 'arr2'))


def everything(c, cpd):
  """What a user can ask of the distribution."""
  out = {}
  for nm in ('x_support', 'z_support', 'support_size'):
    out[nm] = c.pure(c.method(cpd, nm))
  out['predict'] = c.pure(c.method(cpd, 'predict', x=S('xq', 'arr1'),
                                   z=S('zq', 'arr2')))
  for nm in ('n_units', 'min_prob'):
    out[nm] = c.pure(c.attr(cpd, nm))
  m = c.pure(c.attr(cpd, 'x_marginal'))
  out['x_marginal'] = t.seq('list', [m, *contents(c, m)])
  return out


def contents(c, v):
  """What the objects that are reachable from v hold."""
  out, seen, todo = [], set(), [v]
  while todo:
    for r in t.subterms(todo.pop()):
      if r.op == 'ref' and r.args[0] not in seen and r.args[0] in c.st.heap:
        seen.add(r.args[0])
        vs = [t.restrict(x, c.st.pc) if x.op == 'ite' else x
              for x in c.st.heap[r.args[0]].comps.values() if isinstance(x, t.T)]
        out += vs
        todo += vs
  return out


def check(rep, prog):
  storage(rep, prog, ['data.TabularCPD'], 6, ['predict', 'x_support', 'z_support', 'support_size',
                                       '__str__'])
  rep.rule('reject', 'observations of x and z of different numbers are rejected',
           2)
  rep.rule('refit', 'after a second fit, nothing depends on the first data', 6)
  rep.rule('pure', 'asking for predictions, supports or a description changes '
           'nothing', 20)
  rep.rule('predict', 'a prediction is the table entry of each queried pair, 0 '
           'for a pair that was not seen', 2)
  rep.rule('support', 'the supports are the distinct values seen, the size of '
           'the support is that of z', 3)
  c = Ctx(prog)
  cpd = c.construct('TabularCPD')
  f = Fn(rep, c, f'{W}.fit')
  f.method(cpd, 'fit', **fitted(c, 1))
  f.rejects('reject', 'differ_in_length', S('x1', 'arr1'), S('z1', 'arr2'))
  f.after = c.st.copy()
  # twice
  g = Fn(rep, c, f'{W}.fit', 'second fit')
  g.method(cpd, 'fit', **fitted(c, 2))
  independent(rep, c, cpd, 'fit', (1,))
  # any number of further fits
  st = jump(f.after, c.st)
  if st is not None:
    c.st = st
  g = Fn(rep, c, f'{W}.fit', 'a later fit')
  g.method(cpd, 'fit', **fitted(c, 4))
  independent(rep, c, cpd, 'a later fit', (1, 2))
  # queries, after data of which x and z have the same length was fitted
  for v in fitted(c, 3).values():
    t.LENGTH[v] = S('n_units', 'int')
  c = Ctx(prog)
  cpd = c.construct('TabularCPD')
  c.method(cpd, 'fit', **fitted(c, 3))
  pre = c.st.copy()
  for nm, kw in (('predict', dict(x=S('xq', 'arr1'), z=S('zq', 'arr2'))),
                 ('x_support', {}), ('z_support', {}), ('support_size', {}),
                 ('__str__', {})):
    c.st = pre.copy()
    h = Fn(rep, c, f'{W}.{nm}')
    h.method(cpd, nm, **kw)
    reach(rep, 'pure', h, cpd)
    if nm == 'predict':
      h.expect('predict', 'table_entries', cpd, kw['x'], kw['z'],
               detail='the predictions')
      rep.check('predict', h.at + ' [total]', h.raised() is t.FALSE,
                'raises an exception')
    elif nm == 'support_size':
      h.expect('support', 'n_distinct', S('x3', 'arr1'), S('z3', 'arr2'),
               detail='the size of the support')
    elif nm != '__str__':
      r = h.result
      keys = h.spec('distinct_keys', S('x3', 'arr1'), S('z3', 'arr2'),
                    t.boolean(nm == 'x_support'))
      m = t.tmp('j', ty='int')
      rep.equal('support', h.at + ' [length]', t.length(r), t.length(keys),
                'the number of values')
      e = found(h.spec('key_of', t.idx(r, m)))
      rep.equal('support', h.at + ' [values]', e, t.idx(keys, m),
                'a value', And(t.lt(m, t.length(keys)), Not(t.lt(m, t.ZERO))))


def independent(rep, c, cpd, label, earlier):
  """Nothing that can be asked depends on the data of earlier fits."""
  old = [x for i in earlier for x in fitted(c, i).values()]
  for nm, v in everything(c, cpd).items():
    v = t.restrict(v, c.st.pc) if v.op == 'ite' else v
    within = set(t.subterms(v))
    bad = [y for y in old if y in within]
    msg = f'{nm} depends on the data of an earlier fit: {t.show(v)[:300]}'
    at = f'{W}.{label} [{nm}]'
    if not bad and v.lost:
      rep.unsure('refit', at, f'{nm}: {t.show(v)[:300]}')
    else:
      # the lengths of the first data are known not to clash
      rep.check('refit', at, not bad, msg)


def found(x):
  """The element of a sequence at the position of a value is that value."""
  for y in list(t.subterms(x)):
    if y.op == 'app' and y.args[0] == 'pos' and y.args[1][0].op == 'map':
      s, v = y.args[1]
      x = t.replace(x, {t.inst(s, y, 3): v})
  return x


def reach(rep, rule, h, ref):
  """No object reachable from ref differs between the two states."""
  c = h.c
  seen, todo = set(), [ref]
  n = 0
  while todo:
    r = todo.pop()
    if r.args[0] in seen or r.args[0] not in h.before.heap:
      continue
    seen.add(r.args[0])
    a, b = h.before.heap[r.args[0]].comps, c.st.heap[r.args[0]].comps
    for k in sorted(set(a) | set(b), key=str):
      x, y = a.get(k), b.get(k)
      n += 1
      if x is None or y is None:
        rep.bad(rule, f'{h.at} [{k}]', 'a part of the state appears or vanishes')
        continue
      rep.equal(rule, f'{h.at} [{k}]', y, x, f'the state ({k})', h.pc)
      todo += [z for z in t.subterms(x) if z.op == 'ref']
  return n
