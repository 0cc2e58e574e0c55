"""The interval of each algorithm follows its formula, at every update."""
import terms as t
from terms import And, Not
from drive import S
from signs import Signs
from program import AnalysisError
from props.armlib import ALGS, arms, takes, histories, plain
from props.funclib import Spec

OPTIONS = ('sub_gscale', 'tau_bound', 'burn_in')


def check(rep, prog):
  rep.rule('chi2', 'the chi-squared interval of the held-out variance', 6)
  rep.rule('clt', 'the normal interval, with the share 6/(pi i)^2 of the tolerance '
           'at update i, and no negative end', 6)
  rep.rule('finite', 'the finite-sample interval, with the width of the estimator '
           'at half the tolerance, and no negative end', 6)
  rep.rule('given', 'update returns the interval it stores', 18)
  for cls in [c for c in arms(prog) if takes(c, 'ci_algorithm')]:
    for a, i in histories(rep, prog, None, [cls]):
      spec = Spec(a.c)
      n, x, short = plain(a)
      d = S(f'delta{i}', 'num')
      sg = Signs({d: (0, 1)})
      got = sg.clip(short(a.get('ci')))
      var = a.ref(spec, 'variance_of', x)
      pc = And(short(a.pc()), short(a.enough()))
      alg = a.alg
      if alg == 'CHI2':
        want, rule = a.ref(spec, 'chi2_interval', var, n, d), 'chi2'
      elif alg == 'CLT':
        want = a.ref(spec, 'clt_interval', var, a.ref(spec, 'spread_of', x), n, d,
                     a.count)
        rule = 'clt'
      else:
        f = a.I.getattr(a.states[-1].copy(), a.eta, 'calculate_cs_width')
        w = short(a.I.call(a.states[-1].copy(), f, [t.div(d, t.num(2))], {
            'sub_g': S('eta_sub_gscale', 'num'), 'rho': S('rho', 'num')}))
        want = a.ref(spec, 'finite_interval', t.NONE, var, n, d, w,
                     *[S(o, 'num') for o in OPTIONS])
        rule = 'finite'
      rep.equal(rule, a.at, got, want, 'the interval', pc)
      rep.equal('given', a.at, sg.clip(short(a.result())), got, 'the returned interval',
                short(a.pc()))
