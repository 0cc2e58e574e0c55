"""The conditional distributions are those that are documented."""
import terms as t
from terms import And, Not
from drive import Ctx, S
from props.scmlib import lit
from props.funclib import Fn
from props.inplace import storage

RULES = {
    'normal': ('normal_cpd', 'a linear combination of the parents plus Gaussian '
               'noise', 6),
    'noisy': ('add_gaussian_noise', 'the value plus Gaussian noise of its shape', 4),
    'transformed': ('transformed_normal_cpd', 'transformed linear combinations of '
                    'the parents plus Gaussian noise', 6),
    'structural': ('structural_equation_with_noise', 'a function of the parents plus '
                   'Gaussian noise', 6),
    'logistic': ('logistic_bernoulli_cpd', 'Bernoulli with the sigmoid of a function '
                 'of the parents', 3),
    'linear': ('logistic_linear_bernoulli_cpd', 'Bernoulli with the sigmoid of a '
               'linear combination of the parents', 6),
    'constant': ('deterministic_cpd', 'the value for every unit', 1),
}


def arrays(name, k, ty):
  return [S(f'{name}{i}', ty) for i in range(k)]


def check(rep, prog):
  storage(rep, prog, ['scm.' + f for f, _, _ in RULES.values()], 7)
  for r, (_, text, n) in RULES.items():
    rep.rule(r, text, n)
  rep.rule('rejected', 'exactly the means of a wrong shape raise ValueError', 4)
  rep.rule('lengths', 'parents and transformations of different lengths raise '
           'ValueError', 4)
  for k in range(1, rep.depth(4, 6) + 1):
    for pt in ('arr1', 'arr2'):
      for bt in ('num', 'arr1', 'arr2'):
        if (pt == 'arr1') == (bt == 'num'):
          lab = f'{k} parents {pt}, coefficients {bt}'
          ps, bs = arrays('p', k, pt), arrays('b', k, bt)
          many = pt == 'arr2' and bt == 'arr2'
          for mt in ('arr1',) if many else ('num',):
            noise = dict(mean=S('mean', mt), cov=S('cov', 'arr2' if many else 'num'))
            one(rep, prog, 'normal', 'normal_cpd', lab, parents=ps, betas=bs, **noise)
            one(rep, prog, 'transformed', 'transformed_cpd', lab, parents=ps,
                betas=bs, fns=[S(f'fn{i}', 'fn') for i in range(k)], **noise)
          if not many:
            one(rep, prog, 'linear', 'logistic_linear_cpd', lab, parents=ps, gammas=bs)
    for mt in ('num', 'arr1'):
      one(rep, prog, 'structural', 'structural_cpd', f'{k} parents, mean {mt}',
          parents=arrays('p', k, 'arr2'), f=S('f', 'fn'), mean=S('mean', mt),
          cov=S('cov', 'num' if mt == 'num' else 'arr2'))
    one(rep, prog, 'logistic', 'logistic_cpd', f'{k} parents',
        parents=arrays('p', k, 'arr2'), f=S('f', 'fn'))
  for xt in ('arr1', 'arr2'):
    for mt in ('num', 'arr1', 'arr2'):
      lab = f'x {xt}, mean {mt}'
      f, x, m = one(rep, prog, 'noisy', 'noisy', lab, x=S('x', xt), mean=S('mean', mt),
                    cov=S('cov', 'num' if xt == 'arr1' else 'arr'))
      if xt == 'arr2' and mt == 'num':
        continue  # a number has no length
      bad = t.truth(f.spec('noise_mismatch', x, m))
      rep.hold('rejected', f.at, f.raised('ValueError'), 'a mean of the wrong shape is '
               'accepted', bad)
      rep.hold('rejected', f.at, Not(f.raised()), 'a mean of the right shape is '
               'rejected', Not(bad))
  for k in range(1, rep.depth(4, 6) + 1):
    for j in (1, 2, 3, 4):
      if j != k:
        lengths(rep, prog, k, j)
  one(rep, prog, 'constant', 'constant_cpd', '', n_samples=S('n', 'int'),
      value=S('value', 'num'))


def one(rep, prog, rule, ref, label, **kw):
  c = Ctx(prog)
  a = {k: lit(c, v) for k, v in kw.items()}
  f = Fn(rep, c, f'scm.{RULES[rule][0]}', label)
  f.func('scm', RULES[rule][0], **a)
  if f.pc is t.FALSE and kw.get('mean', t.ZERO).ty != 'arr2':
    rep.bad(rule, f.at, 'always raises')
  rep.equal(rule, f.at, f.result, f.spec(ref, *a.values()), 'the samples', f.pc)
  return (f, *list(a.values())[:2])


def lengths(rep, prog, k, j):
  c = Ctx(prog)
  f = Fn(rep, c, 'scm.transformed_normal_cpd', f'{k} parents, {j} transformations')
  f.func('scm', 'transformed_normal_cpd', parents=lit(c, arrays('p', k, 'arr2')),
         betas=lit(c, arrays('b', k, 'arr1')),
         fns=lit(c, [S(f'fn{i}', 'fn') for i in range(j)]), mean=S('mean', 'num'),
         cov=S('cov', 'num'))
  rep.hold('lengths', f.at, f.raised('ValueError'), 'is accepted')
