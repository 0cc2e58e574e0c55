"""A run leaves the bandit as it was; reset resets the arms."""
import terms as t
from terms import And, Or, Not
from drive import Ctx, S
from props.banditlib import OPAQUE, Run, algorithms, chain, steps
from props.inplace import storage


def check(rep, prog):
  storage(rep, prog, ['bandits'], 8)
  rep.rule('self', 'a run writes to no attribute of the bandit', 3)
  rep.rule('arms', 'a run does not modify the list of arms that it was given',
           3)
  rep.rule('data', 'a run does not modify the data that it was given', 3)
  rep.rule('result', 'the lists returned are new: none is the list of arms '
           'itself', 3)
  rep.rule('reset', 'reset() resets every arm and changes nothing else', 6)
  for alg in algorithms(prog):
    r = Run(prog, alg, rep, True)
    o = r.bandit.args[0]
    a, b = r.pre.heap[o], r.post.heap[o]
    for nm in sorted(set(a.comps) | set(b.comps)):
      x, y = a.comps.get(nm), b.comps.get(nm)
      rep.check('self', f'{r.where} [self.{nm}]', x is y,
                f'is {t.show(y) if y is not None else None} after the run')
    al = S('arm_list', ('list', ('cls', prog.cls('VarianceEstimatorArm'))))
    x = r.I.content(r.post, al)
    muts = [e for e, _ in r.c.events() if e.kind in (
        'append', 'mutate', 'setitem', 'inplace', 'delete') and
            e.d.get('obj') is al]
    rep.check('arms', r.where, x is al and not muts,
              f'the list is {t.show(x)[:300]}')
    for lab, pc, q0, q1, _ in steps(r):
      rep.equal('data', f'{r.where} [{lab}]', r.norm(r.ost(q1, r.all_data)),
                r.norm(r.ost(q0, r.all_data)), 'the state of the data', pc)
    sets = [e for e, _ in r.c.events('setattr')]
    rep.check('data', r.where, not sets, 'attributes of arms or data are '
              f'written: {[e.d["name"] for e in sets]}')
    for nm in ('best_arm', 'cum_samples'):
      v = r.field(nm)
      bad = [x for x in t.leafset(v) if x is al]
      rep.check('result', f'{r.where} [{nm}]', not bad,
                'is the list of arms of the bandit')
    # reset
    c = Ctx(prog, opaque=OPAQUE)
    b = c.construct(alg, sample_limit=S('sample_limit', 'num'))
    pre = c.st.copy()
    c.method(b, 'reset')
    rep.fn(*sorted(c.I.analysed))
    w = f'{alg.module.name}.{alg.name}.reset'
    k = t.tmp('j', ty='int')
    arm = t.idx(r.arm_list, k)
    s0 = t.select(c.I.ost(pre), arm)
    s1 = t.select(c.I.ost(c.st), arm)
    for g, x in t.leaves(t.restrict(s1, c.st.pc)):
      ch = chain(x, s0)
      names = [u[0] for u in ch] if ch is not None else None
      rep.check('reset', w, bool(names) and set(names) == {'reset'},
                f'an arm sees the calls {names}')
    rep.check('reset', w + ' [bandit]',
              pre.heap[b.args[0]].comps == c.st.heap[b.args[0]].comps,
              'attributes of the bandit change')
