"""The plot of a run shows every arm's own histories."""
import terms as t
from drive import Ctx, S
from program import AnalysisError
from props.scmlib import lit
from props.inplace import storage

FIRST = S('first', 'int')
AX = S('ax')
HIST = ('lcb_by_arm', 'ucb_by_arm', 'var_est_by_arm', 'samples_by_arm')


def check(rep, prog):
  storage(rep, prog, ['plotting_utils'], 1)
  rep.rule('lines', 'for every arm there is a line of its variance estimates, with '
           'its name, and one for each of its bounds', 9)
  rep.rule('band', 'the band of an arm is between its bounds', 3)
  rep.rule('rounds', 'all are against the cumulative samples and leave out exactly '
           'the initial rounds', 12)
  rep.rule('nothing', 'nothing else is drawn, and the axes are returned', 4)
  rep.rule('kept', 'the results are not changed', 4)
  for n in [*range(0, rep.depth(4, 6)), 12]:
    for first in (FIRST, None):
      one(rep, prog, n, first)


def one(rep, prog, n, first):
  c = Ctx(prog)
  at = f'plotting_utils.plot_bandit_results [{n} arms' + \
      ', default' * (first is None) + ']'
  cls = prog.cls('VarianceEstimatorArm')
  arms = [S(f'arm{i}', ('cls', cls)) for i in range(n)]
  t.APART.update(arms + [AX])
  h = {k: [S(f'{k}{i}', 'arr1') for i in range(n)] for k in HIST}
  cum = S('cum_samples', 'arr1')
  ax = AX
  data = c.construct('BanditData', cum_samples=cum, best_arm=lit(c, arms[:1] * 2), **{
      k: c.I.new_dict(c.st, list(zip(arms, v))) for k, v in h.items()})
  names = [c.pure(c.attr(a, 'name')) for a in arms]
  old = set(c.st.heap)
  got = c.func('plotting_utils', 'plot_bandit_results', ax=ax,
               arm_list=lit(c, arms), bdata=data, initial_points_to_ignore=first)
  first = t.ZERO if first is None else first
  rep.fn(*sorted(c.I.analysed))
  cut = lambda x: t.idx(x, t.mkslice(first, t.NONE, t.NONE)) if first is not t.ZERO \
      else x
  xs = cut(cum)
  rep.check('nothing', at, got is ax, f'returns {t.show(got)[:100]}')
  drawn = []
  gone = [e.d['name'] for e, _ in c.events('call') if e.d['obj'] is ax
          and e.d['name'] in ('cla', 'clear', 'remove')]
  rep.check('nothing', at, not gone, 'drops what is drawn: ' + ', '.join(gone))
  for e, path in c.events('call'):
    if e.d['obj'] is ax and e.d['name'] in (
        'plot', 'fill_between', 'errorbar', 'scatter', 'semilogx', 'semilogy',
        'loglog', 'bar', 'step', 'axhline', 'axvline', 'vlines', 'hlines'):
      if path or not e.d['name'] in ('plot', 'fill_between'):
        raise AnalysisError(f'{at}: cannot tell what {e.d["name"]} draws')
      kw, args = dict(e.d['kw']), tuple(e.d['args'])
      if e.d['name'] == 'fill_between':
        args += tuple(kw.pop(k) for k in ('x', 'y1', 'y2') if k in kw)
      drawn.append((e.d['name'], args, kw))
  want = []
  for i in range(n):
    lo, hi, mid = (cut(h[k][i]) for k in HIST[:3])
    here = f'{at} [arm {i}]'
    want += [('plot', y) for y in (mid, lo, hi)] + [('fill_between', lo, hi)]
    ms = [k for k in drawn if k[0] == 'plot' and k[1][1:2] == (mid,)]
    rep.check('lines', here, ms and any(k[2].get('label') is names[i] for k in ms),
              'no line of its variance estimates with its name')
    for y, what in ((lo, 'lower'), (hi, 'upper')):
      rep.check('lines', here, any(k[0] == 'plot' and k[1][1:2] == (y,)
                                   for k in drawn), f'no line of its {what} bounds')
    rep.check('band', here, any(
        k[0] == 'fill_between' and set(k[1][1:3]) == {lo, hi} for k in drawn),
              'no band between its bounds')
  rep.check('nothing', at, len(drawn) == len(want),
            f'draws {len(drawn)} lines and bands, not {len(want)}')
  for k in drawn:
    rep.check('rounds', at, k[1][:1] == (xs,), f'{k[0]} is against {show(k[1][:1])}')
    ys = k[1][1:2] if k[0] == 'plot' else k[1][1:3]
    fine = (k[0], *ys) in want or k[0] == 'fill_between' and (
        k[0], *reversed(ys)) in want
    rep.check('nothing', at, fine and len(k[1]) <= len(ys) + 2,
              f'{k[0]} draws {show(ys)}')
  inside = {cum, *(x for v in h.values() for x in v)}
  ws = [e for e, _ in c.events() if e.kind in (
      'setattr', 'write', 'append', 'dictset', 'arrayset', 'pop') and (
          e.d['obj'].op == 'ref' and e.d['obj'].args[0] in old or
          e.d['obj'] in inside)]
  ws += [e for e, _ in c.events('call') if e.d['obj'] in inside and e.d['name'] in (
      'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse',
      'fill', 'resize', 'put', 'partition', 'itemset')]
  rep.check('kept', at, not ws, 'changes ' + ', '.join(
      t.show(e.d['obj'])[:100] for e in ws))


def show(xs):
  return ', '.join(t.show(x)[:150] for x in xs) or 'nothing'
