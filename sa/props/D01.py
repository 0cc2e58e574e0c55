"""k_fold puts every unit, as a whole, in exactly one of k balanced folds."""
import terms as t
from terms import And, Not
from drive import Ctx, S
from props.datalib import COLS, data_of, variants, same_row_source
from props.funclib import Fn, same_object, snapped
from props.rows import fold_labels, is_permutation


def cut(rep, f, perm, keys, k, n):
  """Folds that are pieces lo..hi of a permutation of the units."""
  x = dict(perm.args[3]).get('x', t.NONE)
  if not (x is n or t.rat_equal(t.length(x), n)):
    rep.bad('cover', f.at, f'the permutation is of {t.show(x)[:200]}')
  ends = [(j, *x.args[1]) for _, x, j in keys]
  up = lambda hi: n if hi is t.NONE else hi
  if k.op == 'num':
    at = [(lo, up(hi)) for _, lo, hi in ends]
    rep.equal('cover', f.at + ' [first]', at[0][0], t.ZERO, 'the first row', f.pc)
    rep.equal('cover', f.at + ' [last]', at[-1][1], n, 'the end', f.pc)
    for i in range(len(at) - 1):
      rep.equal('cover', f'{f.at} [{i}]', at[i][1], at[i + 1][0], 'the end of a '
                'fold, by the start of the next one', f.pc)
  else:
    j, lo, hi = ends[0]
    hi = up(hi)
    nxt = lambda e, v: t.replace(e, {j: v})
    rep.equal('cover', f.at + ' [first]', nxt(lo, t.ZERO), t.ZERO,
              'the first row', f.pc)
    rep.equal('cover', f.at + ' [last]', nxt(hi, t.sub(k, t.num(1))), n,
              'the end', f.pc)
    rep.equal('cover', f.at + ' [next]', hi, nxt(lo, t.add(j, t.num(1))), 'the '
              'end of a fold, by the start of the next one', f.pc)
  rep.unsure('cover', f.at + ' [balanced]', 'the sizes of the folds are not '
             'bounded')


def check(rep, prog):
  rep.rule('count', 'k_fold(k) returns k folds', 8)
  rep.rule('rows', 'the columns of a fold are the same rows of the columns of '
           'the data', 30)
  rep.rule('cover', 'the folds take the labels 0..k-1 of one labelling of all '
           'the units that uses each label equally often', 8)
  rep.rule('fields', 'the size fields of a fold are those of its covariates', 16)
  rep.rule('input', 'k_fold does not change the data', 8)
  rep.rule('reject', 'k is rejected iff it is below 1', 2)
  where = 'data.ExpData.k_fold'
  for lab, kw in variants():
    for k in (t.num(1), t.num(2), t.num(3), S('k', 'int')):
      c = Ctx(prog)
      d = data_of(c, **kw)
      f = Fn(rep, c, where, f'{lab}, k={t.show(k)}')
      cols = {nm: c.attr(d, nm) for nm in COLS}
      n = c.attr(d, 'n_units')
      f.method(d, 'k_fold', k=k)
      same_object(rep, 'input', f.at, c, f.before, c.st, d, f.pc, 'the data')
      if k.op != 'num':
        f.rejects('reject', 'bad_fold_number', k)
      r = f.result
      rep.equal('count', f.at, t.length(r), k, 'the number of folds', f.pc)
      if k.op == 'num':
        items = [(t.TRUE, t.num(j), t.idx(r, t.num(j)))
                 for j in range(int(k.args[0]))]
      else:
        j = t.tmp('j', ty='int')
        g = And(t.lt(j, k), Not(t.lt(j, t.ZERO)))
        items = [(g, j, t.idx(r, j))]
      keys = []
      for g, j, x in items:
        at = f'{f.at} fold {t.show(j)}'
        x = t.restrict(x, And(f.pc, g)) if x.op == 'ite' else x
        fs = snapped(x)
        if fs is None:
          rep.unsure('rows', at, f'not a data set: {t.show(x)[:300]}')
          continue
        fs = {a: t.restrict(b, And(f.pc, g)) if b.op == 'ite' else b
              for a, b in fs.items()}
        key = same_row_source(rep, 'rows', at, fs, cols)
        if key is None:
          continue
        keys.append((key[0], key[1], j))
        rep.equal('fields', at, fs['n_units'], t.length(fs['cov']), 'n_units',
                  And(f.pc, g))
        rep.equal('fields', at, fs['n_features'], c.attr(d, 'n_features'),
                  'n_features', And(f.pc, g))
      if len(keys) != len(items):
        continue
      k0 = keys[0][0]
      rep.check('cover', f.at + ' [one labelling]',
                all(x is k0 for x, _, _ in keys),
                'the folds are taken by different labellings of the units')
      if is_permutation(k0) and keys[0][1].op == 'seq':
        cut(rep, f, k0, keys, k, n)
        continue
      if k0.op == 'app' and k0.args[0] == 'call:numpy.array_split':  # balanced
        #: balanced pieces
        x = dict(k0.args[1][0].args[3]).get('x', t.NONE)
        rep.check('cover', f.at + ' [permutation]', x is n or t.rat_equal(
            t.length(x), n), f'the permutation is of {t.show(x)[:200]}')
        m = k0.args[1][1]
      else:
        m = fold_labels(k0, n)
      if m is None:
        rep.bad('cover', f.at, 'the labels of the units are not '
                f'0, 1, ..., k-1, 0, 1, ... in some order: {t.show(k0)[:300]}')
      else:
        rep.equal('cover', f.at + ' [labels]', m, k, 'the number of labels', f.pc)
      labels = [x for _, x, _ in keys]
      if k.op == 'num':
        rep.check('cover', f.at + ' [each once]',
                  sorted(t.show(x) for x in labels) == sorted(
                      t.show(j) for _, _, j in keys),
                  f'the labels taken are {[t.show(x) for x in labels]}')
      else:
        lab_, j = labels[0], keys[0][2]
        once = lab_ is j or t.rat_equal(lab_, t.sub(t.sub(k, j), t.num(1)))
        rep.check('cover', f.at + ' [each once]', once,
                  f'fold {t.show(j)} takes the label {t.show(lab_)[:300]}')
