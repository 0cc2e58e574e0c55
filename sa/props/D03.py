"""append stacks the new rows below the old ones, in all columns or in none."""
import terms as t
from terms import And, Not, Or
from drive import Ctx, S
from props.datalib import COLS, data_of, variants
from props.funclib import Fn, comps, same_object
from props.inplace import storage


def check(rep, prog):
  storage(rep, prog, ['data.ExpData'], 5)
  rep.rule('columns', 'each column becomes the old rows followed by the new '
           'ones; absent columns stay absent', 24)
  rep.rule('fields', 'the size fields follow the covariates', 12)
  rep.rule('reject', 'data of another number of features, or without a column '
           'that is present, is rejected', 8)
  rep.rule('atomic', 'when append raises, the data is as before', 8)
  rep.rule('input', 'the appended data does not change', 16)
  where = 'data.ExpData.append'
  for lab, kw in variants():
    doubled(rep, prog, where, lab, kw)
  for lab, kw in variants():
    for lab2, kw2 in variants():
      c = Ctx(prog, implicit_exc=True)
      d = data_of(c, **kw)
      new = data_of(c, 'new', **kw2)
      f = Fn(rep, c, where, f'{lab}; appended: {lab2}')
      f.method(d, 'append', new_data=new)
      missing = [nm for nm in ('exp', 'rsp')
                 if kw.get(nm, True) and not kw2.get(nm, True)]
      want = Or(Not(t.eq(f.spec('n_features_of', d), f.spec('n_features_of', new))),
                t.boolean(bool(missing)))
      got = f.raised('ValueError')
      rep.hold('reject', f.at + ' [accepts]', got, 'incompatible data is '
               'accepted', And(want, Or(f.pc, got)))
      rep.hold('reject', f.at + ' [rejects]', Not(got),
               'compatible data is rejected', Not(want))
      for s, name, w in f.excs:
        if s.pc is t.FALSE:
          continue
        # whatever raises
        same_object(rep, 'atomic', f'{f.at}: {name} at line {w[1]}', c, f.before,
                    s, d, s.pc, 'the data')
      # the objects given
      same_object(rep, 'input', f.at, c, f.before, c.st, new, f.pc,
                  'the appended data')
      if f.pc is t.FALSE or missing:
        continue
      for nm in COLS:
        rep.equal('columns', f'{f.at} [{nm}]', c.attr(d, nm),
                  f.spec('stacked', f.spec('column_of', d, t.string(nm)),
                         f.spec('column_of', new, t.string(nm))), nm,
                  And(f.pc, Not(want)))
      g = And(f.pc, Not(want))
      rep.equal('fields', f.at + ' [n_units]', c.attr(d, 'n_units'),
                t.length(c.attr(d, 'cov')), 'n_units', g)
      rep.equal('fields', f.at + ' [n_features]', c.attr(d, 'n_features'),
                f.spec('n_features_of', d), 'n_features', g)
      if d.args[0] in c.st.heap:
        rep.equal('fields', f.at + ' [len]', c.method(d, '__len__'),
                  f.spec('total_units', d, new), 'the number of units', g)


def doubled(rep, prog, where, lab, kw):
  """Data that is appended to itself."""
  c = Ctx(prog, implicit_exc=True)
  d = data_of(c, **kw)
  f = Fn(rep, c, where, f'{lab}; appended to itself')
  f.method(d, 'append', new_data=d)
  rep.hold('reject', f.at + ' [rejects]', Not(f.raised('ValueError')),
           'compatible data is rejected')
  old = {nm: c.I.getattr(f.before.copy(), d, nm) for nm in COLS}
  for nm in COLS:
    rep.equal('columns', f'{f.at} [{nm}]', c.attr(d, nm),
              f.spec('stacked', old[nm], old[nm]), nm, f.pc)
  rep.equal('fields', f.at + ' [n_units]', c.attr(d, 'n_units'),
            t.length(c.attr(d, 'cov')), 'n_units', f.pc)
