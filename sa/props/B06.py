"""Successive elimination."""
import terms as t
from terms import And, Or, Not
from report import agree
from props.banditlib import Run, algorithms, over_budget, pool, result, updates


def check(rep, prog):
  rep.rule('begin', 'at the start every arm is a candidate', 1)
  rep.rule('pull', 'a round updates exactly the candidates', 2)
  rep.rule('keep', 'after a round the candidates are exactly those that have '
           'the lowest cost-scaled variance estimate or whose lower bound is '
           'below the lowest upper bound of these', 1)
  rep.rule('end', 'when fewer than two candidates remain no round starts', 1)
  rep.rule('result', 'a run within its limit returns the remaining candidates',
           1)
  n = 0
  for alg in algorithms(prog):
    r = Run(prog, alg, rep)
    p = pool(r)
    if p is None or r.pick is not None:
      continue
    n += 1
    X, a, b = p
    rep.equal('begin', r.where, t.recat('list', a), t.recat(
        'list', r.arm_list), 'the candidates', r.outer)
    want = t.recat('list', r.spec(r.back, 'still_candidates', X))
    rep.equal('keep', r.where, t.recat('list', b), want, 'the candidates',
              r.back.pc)
    for g, ch in updates(r, r.head, r.back, r.back.pc):
      m = t.member(r.arm, X)
      if ch:
        rep.hold('pull', f'{r.where} [updated]', m, 'an arm is updated', g)
      elif ch is not None:
        rep.hold('pull', f'{r.where} [not updated]', Not(m),
                 'an arm is not updated', g)
      else:
        rep.unsure('pull', r.where, 'unresolved arm state')
    # no further round with a single candidate
    nx = t.length(b)
    rep.hold('end', r.where, Not(t.le(nx, t.ONE)), 'another round starts',
             r.again)
    for i, (pc, s) in enumerate(r.exits):
      w = f'{r.where} [exit {i + 1}]'
      eqs, T, over = over_budget(r, s)
      want = t.recat('list', r.spec(s, 'still_candidates', X))
      for g, y in result(r, s, pc):
        g = And(t.replace(g, eqs), Not(over))
        if g is not t.FALSE:
          rep.equal('result', w, t.recat('list', y), want, 'best_arm', g)
