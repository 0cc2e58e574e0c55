"""Which samples the arms are given."""
import terms as t
from terms import And, Or, Not
from report import differ, compare
from props.banditlib import (Run, algorithms, steps, updates, update_args)


def check(rep, prog):
  rep.rule('slice', 'with given data an update gets the next units_per_round '
           'units: those that follow the units the arm has received so far', 5)
  rep.rule('fresh', 'with generated data an update gets units_per_round units '
           'newly generated in that round', 5)
  rep.rule('once', 'a round updates an arm at most once', 8)
  rep.rule('source', 'with given data nothing is generated', 3)
  for alg in algorithms(prog):
    for stable in (True, False):
      r = Run(prog, alg, rep, stable)
      if stable:
        gen = [e for e, _ in r.c.events('call')
               if e.d['name'] == 'generate' and e.pc is not t.FALSE]
        rep.check('source', r.where, not gen, 'data is generated')
      kind = 'given' if stable else 'generated'
      for lab, pc, b, a, inloop in steps(r):
        w = f'{r.where} [{lab}, {kind} data]'
        cs = list(updates(r, b, a, pc))
        for g, ch in cs:
          if ch is None:
            rep.unsure('once', w, 'unresolved arm state')
            continue
          rep.check('once', w, len(ch) <= 1, f'{len(ch)} updates')
          for u in ch:
            data, _ = update_args(prog, u)
            ev = r.I
            if stable:
              slices(rep, r, w, data, u, g, a, b, len(cs) == 1, inloop)
            else:
              fresh(rep, r, w, data, g, inloop)


def slices(rep, r, w, data, u, g, s, before, uniform, inloop):
  all_data = [x for x in t.subterms(data) if x.op == 'sym' and
              x.args[0] == 'all_data']
  wants = [reference(r, u[3], r.arm)]
  if uniform:
    # every arm gets the same slice: they have all received as many units
    first = t.idx(r.arm_list, t.ZERO)
    wants.append(reference(r, r.norm(r.ost(before, first)), first))
  if not inloop:
    wants.append(reference(r, None, None))
  ok = any(differ(data, x, g) is None for x in wants)
  if ok:
    rep.ok('slice', w)
  else:
    rep.equal('slice', w, data, wants[0], 'the batch', g)


def reference(r, state, arm):
  """all_data[n:n+u] for the number n of units that the arm has received."""
  all_data = r.all_data
  n = t.ZERO if arm is None else t.mk(
      'app', 'get_num_units', (arm, state), (), ty='int')
  q = r.head.copy(t.TRUE)
  if arm is None:
    q = r.pre.copy(t.TRUE)
  return r.norm(r.I.snap(q, r.I.getitem(
      q, all_data, t.mkslice(n, t.add(n, r.u), t.NONE))))


def fresh(rep, r, w, data, g, inloop):
  for h, x in t.leaves(t.restrict(data, g)):
    if And(h, g) is t.FALSE:
      continue
    ok = x.op == 'callres' and x.args[1].op == 'xmeth' and \
        x.args[1].args[1] == 'generate' and \
        x.args[1].args[0] is r.attr0('_prob_model')
    if not ok:
      f = rep.unsure if x.lost else rep.bad
      f('fresh', w, f'the batch is {t.show(x)[:300]}')
      continue
    n = (list(x.args[2]) + [v for _, v in x.args[3]] + [None])[0]
    if n is not r.u:
      rep.bad('fresh', w, f'generates {t.show(n) if n is not None else None}')
    elif inloop and r.e.d['tmp'] not in x.args[4]:
      rep.bad('fresh', w, 'the batch was generated in an earlier round')
    else:
      rep.ok('fresh', w)
