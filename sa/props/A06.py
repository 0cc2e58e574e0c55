"""Invalid tolerances are rejected before anything changes."""
import terms as t
from terms import And, Not, Or, TRUE
from drive import S
from signs import Signs
from props.armlib import arms, histories, Arm, variants
from props.funclib import Spec, unchanged
from props.inplace import storage


def check(rep, prog):
  storage(rep, prog, ['arms'], 15)
  rep.rule('rejected', 'a delta outside (0, 1) raises ValueError', 20)
  rep.rule('accepted', 'a delta inside (0, 1) is not rejected on its account', 20)
  rep.rule('before', 'a rejected update changes nothing of the arm, its estimator or '
           'the data', 40)
  rep.assume('delta is a number, not NaN')
  for cls in arms(prog):
    for kw in variants(cls):
      a = Arm(prog, cls, rep=rep, **kw)
      for i in range(1, rep.depth(2, 4) + 1):
        before = a.c.st.copy()
        a.update()
        at = f'{a.where} [{a.label}, update {i}]'
        spec = Spec(a.c)
        d = S(f'delta{i}', 'num')
        bad = t.truth(a.ref(spec, 'bad_delta', d))
        rep.hold('rejected', at, Or(*[a.short(s.pc) for s, n, _ in a.excs[-1]
                                      if n == 'ValueError']),
                 'an invalid delta is accepted', And(a.short(before.pc), bad))
        # an exception that depends on delta alone, and not on data
        for s, n, _ in a.excs[-1]:
          p = And(Signs({d: (0, 1)}).decide(a.short(s.pc)), Not(bad))
          alone = t.entails(And(a.short(before.pc), only(p, d)), p) and only(
              p, d) is not TRUE
          rep.check('accepted', f'{at} [{n}]', p is t.FALSE or not alone,
                    f'a valid delta is rejected when {t.show(p)[:200]}')
          q = And(s.pc, bad)
          if q is t.FALSE:
            continue
          unchanged(rep, 'before', f'{at} [{n}]', a.c, before, s, a.arm, q,
                    'the arm')
          x, y = a.I.ost(before), a.I.ost(s)
          rep.equal('before', f'{at} [{n}, estimator]', y, x, 'the estimator', q)
          unchanged(rep, 'before', f'{at} [{n}, data]', a.c, before, s, a.data(i), q,
                    'the data')


def only(p, d):
  """The weakest condition on delta alone that p needs."""
  xs = [c for c in t.atoms_of(p) if t.contains(d, c)]
  out = p
  for c in t.atoms_of(p):
    if c not in xs:
      out = Or(t.cofactor(out, c, True), t.cofactor(out, c, False))
  return out
