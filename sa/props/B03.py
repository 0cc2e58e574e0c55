"""Sample accounting."""
import terms as t
from terms import And, Or, Not
from report import agree
from props.banditlib import Run, algorithms, steps, updates


def check(rep, prog):
  rep.rule('own', 'the samples recorded for an arm in a round are '
           'units_per_round for every update it got in that round, and 0 when '
           'it got none', 8)
  rep.rule('total', 'cum_samples grows by the sum over the arms of the samples '
           'recorded in the round', 6)
  for alg in algorithms(prog):
    r = Run(prog, alg, rep)
    LAST, first, eqs = r.last_total()
    for lab, pc, b, a, inloop in steps(r):
      w = f'{r.where} [{lab}]'
      h1 = r.hist(a, 'samples_by_arm')
      if inloop:
        h0 = r.hist(b, 'samples_by_arm')
        same = agree(h1, h0, pc)
        grew = And(pc, Not(same))
      else:
        grew = pc if not (h1.op == 'seq' and not h1.args[1]) else t.FALSE
      entry = t.idx(h1, t.num(-1))
      for g, ch in updates(r, b, a, pc):
        if ch is None:
          rep.unsure('own', w, 'the state of an arm is not a chain of calls')
          continue
        n = sum(u[0] == 'update' for u in ch)
        g2 = And(g, grew)
        if g2 is not t.FALSE:
          rep.equal('own', w, entry, t.mul(t.num(n), r.u),
                    f'samples of an arm with {n} updates', g2)
        elif n:
          rep.bad('own', w, 'an arm is updated but no samples are recorded')
      cum = r.listing(a, 'cum_samples')
      if grew is t.FALSE:
        continue
      k = r.k
      ent = t.restrict(entry, grew)
      total = t.mksum(r.n, ent, k)
      prev = LAST if inloop else t.ZERO
      got = t.replace(t.idx(cum, t.num(-1)), eqs)
      total = r.norm(total)
      rep.equal('total', w, r.norm(got), t.add(prev, total),
                'the cumulative number of samples', grew)
