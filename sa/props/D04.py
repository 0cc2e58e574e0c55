"""Selecting and transforming data keeps the columns of a unit together."""
import terms as t
from terms import And, Not
from drive import Ctx, S
from props.datalib import COLS, data_of, variants
from props.funclib import Fn, same_object, snapped
from program import AnalysisError
from props.inplace import storage


def columns(rep, rule, at, fs, want, pc):
  for nm, w in zip(COLS, want):
    rep.equal(rule, f'{at} [{nm}]', fs[nm], w, nm, pc)


def fields(rep, at, fs, cov, pc):
  rep.equal('fields', f'{at} [n_units]', fs['n_units'], t.length(cov), 'n_units',
            pc)


def check(rep, prog):
  storage(rep, prog, ['data.ExpData', 'data.get_identity_fn', 'data.get_remove_coordinates_fn',
                     'data.get_coordinate_mask_fn'], 8)
  rep.rule('select', 'data[key] is every present column at that key', 20)
  rep.rule('transform', 'a data transformer returns the stated covariates with '
           'the exposures and responses of its argument', 20)
  rep.rule('fields', 'the size fields follow the covariates', 12)
  rep.rule('len', 'the length of a data set is its number of units', 6)
  rep.rule('input', 'the argument is not changed', 30)
  for lab, kw in variants():
    for key in (S('key', 'arr1'), S('key', 'int')):
      c = Ctx(prog)
      d = data_of(c, **kw)
      f = Fn(rep, c, 'data.ExpData.__getitem__', f'{lab}, {key.ty}')
      cols = [c.attr(d, nm) for nm in COLS]
      if key.ty == 'int':  # a range of rows
        key = t.mk('slice', S('lo', 'int'), S('hi', 'int'), t.NONE)
      f.method(d, '__getitem__', key=key)
      fs = snapped(t.restrict(f.result, f.pc))
      if fs is None:
        rep.unsure('select', f.at, f'not a data set: {t.show(f.result)[:300]}')
        continue
      want = [f.spec('at_key', x, key) for x in cols]
      columns(rep, 'select', f.at, fs, want, f.pc)
      fields(rep, f.at, fs, fs['cov'], f.pc)
      same_object(rep, 'input', f.at, c, f.before, c.st, d, f.pc, 'the data')
    for dim in ('arr1', 'arr2'):
      c = Ctx(prog)
      d = data_of(c, cov=dim, **kw)
      f = Fn(rep, c, 'data.ExpData.__init__', f'{lab}, {dim}')
      rep.equal('len', f'data.ExpData.__len__ [{lab}, {dim}]',
                c.method(d, '__len__'), t.length(c.attr(d, 'cov')), 'the length')
      rep.equal('fields', f.at, c.attr(d, 'n_features'),
                f.spec('n_cov_columns', c.attr(d, 'cov')), 'n_features')
    # transformers
    for fn, arg in (('get_identity_fn', {}),
                    ('get_remove_coordinates_fn', {
                        'idx_to_remove': S('idx_to_remove', 'int')}),
                    ('get_coordinate_mask_fn', {
                        'idx_to_include': S('idx_to_include', ('list', 'int'))})):
      c = Ctx(prog)
      d = data_of(c, **kw)
      f = Fn(rep, c, f'data.{fn}', lab)
      cols = [c.attr(d, nm) for nm in COLS]
      g = c.func('data', fn, **arg)
      f.apply(g, d)
      fs = snapped(t.restrict(f.result, f.pc))
      if fs is None:
        rep.unsure('transform', f.at, f'not a data set: {t.show(f.result)[:300]}')
        continue
      cov = f.spec(fn, cols[0], *arg.values())
      columns(rep, 'transform', f.at, fs, [cov] + cols[1:], f.pc)
      fields(rep, f.at, fs, cov, f.pc)
      same_object(rep, 'input', f.at, c, f.before, c.st, d, f.pc, 'the argument')
      rep.check('transform', f.at + ' [total]', f.raised() is t.FALSE,
                'raises an exception')
      # the function is used on many data sets
      d2 = data_of(c, 'other', **kw)
      h = Fn(rep, c, f'data.{fn}', f'{lab}, second data set')
      cols = [c.attr(d2, nm) for nm in COLS]
      h.apply(g, d2)
      fs = snapped(t.restrict(h.result, h.pc))
      if fs is None:
        rep.unsure('transform', h.at, f'not a data set: {t.show(h.result)[:300]}')
        continue
      cov = h.spec(fn, cols[0], *arg.values())
      columns(rep, 'transform', h.at, fs, [cov] + cols[1:], h.pc)
      same_object(rep, 'input', h.at, c, h.before, c.st, d2, h.pc, 'the argument')
      same_object(rep, 'input', h.at + ' [first]', c, h.before, c.st, d, h.pc,
                  'the first data set')
