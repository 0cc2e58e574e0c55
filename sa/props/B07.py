"""The two arms that LUCB samples."""
import terms as t
from terms import And, Or, Not
from drive import Ctx, S
from program import AnalysisError
from props.banditlib import OPAQUE, Spec, members


def check(rep, prog):
  rep.rule('pair', 'two different arms of the bandit are selected', 2)
  rep.rule('leader', 'the first is an arm with the highest upper bound among '
           'those with the lowest cost-scaled variance estimate', 1)
  rep.rule('challenger', 'the second is an arm with the lowest lower bound '
           'among the others', 1)
  rep.rule('random', 'the pair is drawn at random exactly if the estimates rank '
           'no arm above another', 2)
  rep.rule('used', 'the arms updated in a round are those selected', 1)
  algs = [c for c in prog.subclasses(prog.cls('BAIBanditAlgorithm'))
          if c.find('select_arms')[1] is not None]
  if not algs:
    raise AnalysisError('no algorithm with select_arms')
  for alg in algs:
    where = f'{alg.module.name}.{alg.name}.select_arms'
    c = Ctx(prog, opaque=OPAQUE)
    b = c.construct(alg, sample_limit=S('sample_limit', 'num'))
    sp = Spec(c)
    v = c.method(b, 'select_arms')
    rep.fn(*sorted(c.I.analysed))
    arms = c.pure(c.attr(b, '_arms'))
    n = t.length(arms)
    k = t.tmp('j', ty='int')
    unranked = t.truth(sp('unranked', arms))
    for i, (g, x) in enumerate(t.leaves(v)):
      w = f'{where} [case {i + 1}]'
      y = c.pure(x)
      if random_pair(y, arms):
        rep.ok('pair', w)
        rep.hold('random', w, unranked, 'the pair is drawn at random', g)
        continue
      if y.op != 'seq':
        if y.op == 'draw':
          rep.bad('pair', w, f'not two different arms: {t.show(y)[:300]}')
        else:
          rep.unsure('pair', w, f'not resolved: {t.show(y)[:300]}')
        continue
      if len(y.args[1]) != 2:
        rep.bad('pair', w, f'selects {len(y.args[1])} arms')
        continue
      rep.hold('random', w, Not(unranked), 'the pair is chosen by rank', g)
      facts, (p, q) = members(list(y.args[1]))
      g2 = And(g, facts)
      a = rep.hold('leader', w, t.truth(sp('lucb_leader', arms, p)),
                   f'the first arm {t.show(p)}', g2)
      b2 = rep.hold('challenger', w, t.truth(sp('lucb_challenger', arms, q)),
                    f'the second arm {t.show(q)}', g2)
      inside = all(z.op == 'idx' and z.args[0] is arms for z in (p, q))
      if a and b2 and inside:
        rep.ok('pair', w)  # the two conditions exclude each other
      elif not inside:
        rep.unsure('pair', w, f'{t.show(p)[:200]}, {t.show(q)[:200]}')
    used(rep, prog, alg)


def used(rep, prog, alg):
  from props.banditlib import Run, updates
  r = Run(prog, alg, rep)
  if 'select_arms' not in r.I.stubbed:
    rep.unsure('used', r.where, 'run does not call select_arms')
    return
  for g, ch in updates(r, r.head, r.back, r.back.pc):
    m = t.member(r.arm, r.pick)
    if ch is None:
      rep.unsure('used', r.where, 'unresolved arm state')
    elif ch:
      rep.hold('used', f'{r.where} [updated]', m, 'an arm is updated', g)
    else:
      rep.hold('used', f'{r.where} [not updated]', Not(m),
               'an arm is not updated', g)


def random_pair(y, arms):
  """Two draws without replacement from the arms, each equally likely."""
  if y.op == 'idx' and y.args[1] is t.mkslice(t.NONE, t.num(2), t.NONE):
    y = y.args[0]
    return y.op == 'draw' and y.args[1].endswith('permutation') and \
        arms in (dict(y.args[3]).get('x'),) + y.args[2]
  if y.op != 'draw' or not y.args[1].endswith('.choice'):
    return False
  kw = dict(y.args[3])
  return kw.get('a') is arms and kw.get('size') is t.num(2) and kw.get(
      'replace') is t.FALSE and 'p' not in kw
