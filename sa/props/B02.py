"""Histories: one cost-scaled end-of-round entry per arm and round."""
import terms as t
from terms import And, Or, Not
from props.banditlib import Run, algorithms, HIST


def check(rep, prog):
  rep.rule('keys', 'every history is keyed by the arms of the bandit, all of '
           'them', 12)
  rep.rule('start', 'before the first round the histories are empty, or hold '
           'one entry per arm with its current cost-scaled value', 15)
  rep.rule('round', 'a round appends exactly one entry per arm: its '
           'cost-scaled value at the end of the round', 18)
  rep.rule('aligned', 'samples_by_arm and cum_samples grow in exactly the '
           'rounds in which the other histories grow', 12)
  rep.rule('stale', 'a round that records nothing updates no arm', 6)
  for alg in algorithms(prog):
    r = Run(prog, alg, rep)
    for nm in HIST + ('samples_by_arm',):
      for lab, s in [('start', r.init)] + [(a, b) for a, _, b in r.states()]:
        k = r.keys(s, nm)
        rep.check('keys', f'{r.where} [{nm}, {lab}]', k is r.arm_list,
                  f'keys are {t.show(k)[:200] if k is not None else None}')
    # before the loop
    empty = []
    for nm in HIST + ('samples_by_arm',):
      h = r.hist(r.init, nm)
      none = h.op == 'seq' and not h.args[1]
      empty.append(none)
      w = f'{r.where} [{nm}]'
      if none:
        rep.ok('start', w)
      elif nm in HIST:
        rep.equal('start', w, h, t.seq('list', [r.entry(r.init, nm)]),
                  'the first entry')
      else:
        rep.check('start', w, h.op == 'seq' and len(h.args[1]) == 1,
                  'the history does not start with one entry per arm')
    h = r.listing(r.init, 'cum_samples')
    m = 0 if empty[0] else 1
    rep.check('start', f'{r.where} [cum_samples]',
              h.op == 'seq' and len(h.args[1]) == m,
              f'holds {t.show(h)[:200]}, should have {m} entries')
    if all(empty):
      rep.equal('stale', f'{r.where} [start]', r.ost(r.init), r.ost(r.pre),
                'the state of an arm', r.outer)
    elif not any(empty):
      rep.ok('stale', f'{r.where} [start]')
    else:
      rep.bad('start', f'{r.where}', 'some histories start empty, some do not')
    # one round
    for lab, pc, s in r.states():
      first = None
      for nm in HIST:
        w = f'{r.where} [{nm}, {lab}]'
        rec, same = r.appended(s, pc, nm)
        rep.hold('round', w, Or(rec, same), 'the history of an arm', pc)
        if first is None:
          first = rec
        else:
          rep.equal('aligned', w, rec, first, 'the rounds recorded', pc)
      added, same, _ = r.grown(s, pc)
      w = f'{r.where} [cum_samples, {lab}]'
      rep.hold('round', w, Or(added, same), 'cum_samples', pc)
      rep.equal('aligned', w, added, first, 'the rounds recorded', pc)
      w = f'{r.where} [samples_by_arm, {lab}]'
      h0, h1 = r.hist(r.head, 'samples_by_arm'), r.hist(s, 'samples_by_arm')
      grown = t.cat('list', [h0, t.seq('list', [t.idx(h1, t.num(-1))])])
      from props.banditlib import agree
      same = agree(h1, h0, pc)
      more = And(agree(h1, grown, pc), Not(same))
      rep.hold('round', w, Or(more, same), 'samples_by_arm', pc)
      rep.equal('aligned', w, more, first, 'the rounds recorded', pc)
      quiet = And(pc, Not(first))
      rep.equal('stale', f'{r.where} [{lab}]', r.norm(r.ost(s)),
                r.ost(r.head), 'the state of an arm in a round that is not '
                'recorded', quiet)
