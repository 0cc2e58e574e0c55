"""Every update counts as one pull, and rejected ones do not."""
import terms as t
from terms import And, Not
from drive import S
from props.armlib import arms, Arm, variants
from props.funclib import Spec


def check(rep, prog):
  rep.rule('count', 'num_pulled is the number of updates', 30)
  rep.rule('rejected', 'an update with an invalid delta is not counted', 20)
  rep.rule('fixed', 'name, cost and the estimator are those of the constructor', 30)
  base = prog.cls('VarianceEstimatorArm')
  for cls in arms(prog) + [base]:
    for kw in variants(cls) if cls is not base else [{}]:
      a = Arm(prog, cls, rep=rep, **kw)
      at = f'{a.where} [{a.label}]'
      rep.equal('count', f'{at} new', a.get('num_pulled'), t.ZERO, 'num_pulled',
                a.pc())
      first = {k: a.get(k) for k in ('name', 'cost', 'eta')}
      n = rep.depth(3, 6)
      for i in range(1, n + 1):
        a.jump() if i == n else None
        before = a.count
        a.update()
        if a.pc() is t.FALSE:
          rep.bad('count', f'{at} update {i}', 'update always raises')
          break
        rep.equal('count', f'{at} update {i}', a.get('num_pulled'), a.count,
                  'num_pulled', a.pc())
        d = S(f'delta{i}', 'num')
        bad = t.truth(a.ref(Spec(a.c), 'bad_delta', d))
        for s, n, _ in a.excs[-1]:
          q = And(s.pc, bad)
          if q is not t.FALSE:
            v = a.I.getattr(s.copy(), a.arm, 'num_pulled')
            rep.equal('rejected', f'{at} update {i}', v, before, 'num_pulled',
                      q)
      for k, v in first.items():
        rep.equal('fixed', f'{at} [{k}]', a.get(k), v, k, a.pc())
