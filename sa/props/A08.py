"""A reset arm behaves as a newly made one."""
import terms as t
from terms import And, Not, Or, TRUE
from drive import S
from props.armlib import arms, Arm, variants

VALUES = ('ci', 'ate', 'var_est', 'num_pulled', 'name', 'cost')


def check(rep, prog):
  rep.rule('blank', 'a reset arm shows the values of a new one', 70)
  rep.rule('estimator', 'the estimator is reset too', 10)
  rep.rule('later', 'updates after a reset give what a new arm gives', 100)
  base = prog.cls('VarianceEstimatorArm')
  for cls in arms(prog) + [base]:
    for kw in variants(cls) if cls is not base else [{}]:
      for n in range(1, rep.depth(2, 4) + 1):
        a = Arm(prog, cls, rep=rep, **kw)
        for _ in range(n):
          a.update()
        a.jump() if n > 1 else None
        c = a.c
        c.method(a.arm, 'reset')
        at = f'{a.where.replace(".update", ".reset")} [{a.label}, {n} updates]'
        own = c.I.ost(c.st)
        s = t.select(own, a.eta)
        rep.check('estimator', at, s.op == 'app' and s.args[0] == 'upd:reset',
                  f'the estimator is not reset: {t.show(s)[:200]}')
        used = c.st.copy()
        new = c.construct(cls, **a.over)
        fresh = c.st.copy()
        for k in VALUES:
          compare(rep, 'blank', at, a, used, a.arm, fresh, new, k)
        compare(rep, 'blank', at, a, used, a.arm, fresh, new, 'get_num_units', True)
        if n > 1 and rep.tier != 'thorough':
          continue
        for i in (1, 2):
          d, e = a.c.input(f'later{i}', ('cls', prog.cls('ExpData'))), S(
              f'later_delta{i}', 'num')
          used = run(c, used, a.arm, d, e)
          fresh = run(c, fresh, new, d, e)
          for k in VALUES[:4]:
            compare(rep, 'later', f'{at}, later update {i}', a, used, a.arm, fresh,
                    new, k)
          compare(rep, 'later', f'{at}, later update {i}', a, used, a.arm, fresh, new,
                  'get_num_units', True)
          x, y = [t.select(c.I.ost(q), a.eta) for q in (used, fresh)]
          rep.equal('later', f'{at}, later update {i} [estimator]', x, y,
                    'the estimator', used.pc)


def run(c, st, arm, d, delta):
  saved, c.st = c.st, st.copy()
  c.method(arm, 'update', new_data=d, delta=delta)
  out, c.st = c.st, saved
  return out


def compare(rep, rule, at, a, s, x, q, y, name, call=False):
  c = a.c
  vs = []
  for st, ref in ((s, x), (q, y)):
    saved, c.st = c.st, st.copy()
    v = c.method(ref, name) if call else c.attr(ref, name)
    vs.append(c.pure(v))
    c.st = saved
  rep.equal(rule, f'{at} [{name}]', vs[0], vs[1], name, And(s.pc, q.pc))
