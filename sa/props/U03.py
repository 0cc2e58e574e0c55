"""The bandits of a Section 5 example compare the same arms on the same model."""
import terms as t
from drive import Ctx, S
from props.banditlib import Spec
from props.funclib import Fn
from props.paperlib import (ALG, ARM, BANDITS, ETAS, LIMIT, PER_ROUND, SEED, Example,
                            Options, items, sizes, value, variables)
from props.scmlib import model

SECTIONS = {'get_section_5_1_example': 'FINITE_SAMPLE',
            'get_section_5_2_example': 'CLT'}


def check(rep, prog):
  rep.rule('bandits', 'a LUCB, a successive elimination and a uniform bandit', 9)
  rep.rule('same', 'all three have the arms and the model of the example, its sample '
           'limit and units per round, and one error probability', 9)
  rep.rule('arms', 'all the arms have the interval algorithm of the section, and the '
           'same bounds and burn-in', 9)
  rep.rule('scale', 'the sub-Gaussian scale is the sum of the variances of the columns '
           'of one sample of the model', 9)
  rep.rule('estimators', 'every arm has its own estimator; the first arm is the '
           'front-door arm and the others are back-door arms', 9)
  rep.rule('model', 'the example has the mechanisms of its section', 4)
  for z_dim, v_dim in sizes(rep):
    one(rep, Example(rep, prog, z_dim, v_dim), ALG)
  for fn, alg in SECTIONS.items():
    for z_dim, v_dim in (([2, 1, 3], [0, 2, 1]), ([1, 2], [0, 3])):
      section(rep, prog, fn, alg, z_dim, v_dim)


def section(rep, prog, fn, alg, z_dim, v_dim):
  calls = []
  cpds = {v: S(f'cpd_{v}', 'fn') for v in variables(len(z_dim) - 1)}

  def stub(name):
    _, node = prog.func('paper_utils', name)
    ps = [a.arg for a in node.args.args]

    def call(I, st, args, kw):
      calls.append((name, {**dict(zip(ps, args)), **kw}))
      return I.new_dict(st, [(t.string(v), f) for v, f in cpds.items()])
    return call

  own = fn.replace('example', 'cpds')
  stubs = {f'paper_utils.{f.replace("example", "cpds")}':
           stub(f.replace('example', 'cpds')) for f in SECTIONS}
  e = Example(rep, prog, z_dim, v_dim, name=fn, stubs=stubs)
  c = e.c
  rep.check('model', e.at, [n for n, _ in calls] == [own],
            f'the mechanisms are from {[n for n, _ in calls]}, should be {own}')
  for n, kw in calls:
    for k, want in (('z_dim', z_dim), ('v_dim', v_dim)):
      rep.check('model', f'{e.at} [{k}]',
                [value(x) for x in items(c, kw[k])] == want, f'{k} differs')
    rep.equal('model', f'{e.at} [num_back_door_paths]', kw['num_back_door_paths'],
              t.num(e.m), 'num_back_door_paths')
    rep.equal('model', f'{e.at} [seed]', kw.get('seed', t.NONE), SEED, 'the seed')
  for v, f in cpds.items():
    rep.equal('model', f'{e.at} [{v}]', c.pure(c.I.getitem(
        c.st, c.attr(e.scm, 'cpds'), t.string(v))), f, f'the mechanism of {v}')
  cls = c.I.global_name(prog.modules['arms'], 'CIAlgorithm')
  one(rep, e, c.I.getattr(c.st, cls, alg))


def built(e, b):
  """The error level and tolerance with which a bandit runs."""
  c = e.c
  old, c.I.opaque = c.I.opaque, {k for k in c.I.opaque if k.name not in BANDITS}
  try:
    ref = c.construct(b.cls, **b.kw)
    return {k: c.pure(c.attr(ref, k)) for k in ('error_prob', 'error_tol')}
  finally:
    c.I.opaque = old


def one(rep, e, alg):
  c = e.c
  rep.check('bandits', e.at, [b.cls.name for b in e.bandits] == list(BANDITS),
            f'the bandits are {[b.cls.name for b in e.bandits]}')
  for b in e.bandits:
    at = f'{e.at} [{b.cls.name}]'
    rep.equal('same', at, t.seq('list', items(c, b['arm_list'])),
              t.seq('list', e.arms), 'the arms')
    for k, want in (('prob_model', e.scm), ('sample_limit', LIMIT),
                    ('units_per_round', PER_ROUND)):
      rep.equal('same', f'{at} [{k}]', b[k], want, k)
    got, first = built(e, b), built(e, e.bandits[0])
    for k in ('error_prob', 'error_tol'):
      rep.equal('same', f'{at} [{k}]', got[k], first[k],
                f'{k}, compared with {e.bandits[0].cls.name},')
    p = got['error_prob']
    rep.check('same', f'{at} [level]', p.op == 'num' and 0 < p.args[0] < 1,
              f'the error probability is {t.show(p)[:100]}')
  etas = [o['eta'] for o in e.opts]
  rep.check('estimators', e.at, len(set(etas)) == len(etas),
            'two arms share an estimator')
  for i, o in enumerate(e.opts):
    at = f'{e.at} [{o["name"].args[0]}]'
    rep.check('arms', at, o.cls.name == ARM, f'it is a {o.cls.name}')
    rep.equal('arms', f'{at} [ci_algorithm]', o['ci_algorithm'], alg,
              'the interval algorithm')
    for k in ('sub_gscale', 'tau_bound', 'burn_in', 'rho', 'stable_splits'):
      rep.equal('arms', f'{at} [{k}]', o[k], e.opts[0][k],
                f'{k}, compared with {e.opts[0]["name"].args[0]},')
    kind = Options(c, o['eta']).cls.name
    want = ETAS[1] if i == 0 else ETAS[0]
    rep.check('estimators', at, kind == want, f'has a {kind}, should be {want}')
    for k in ('min_units', 'min_overlap'):
      rep.equal('estimators', f'{at} [{k}]', Options(c, o['eta'])[k],
                Options(c, etas[0])[k], k)
  k = Ctx(e.prog)
  p = e.parents
  scm = k.construct('SCM', **model(k, p, e.cov, 'X', 'Y', e.order, {
      v: c.pure(c.I.getitem(c.st, c.attr(e.scm, 'cpds'), t.string(v))) for v in p}))
  f = Fn(rep, k, 'scm.SCM.generate').method(scm, 'generate', n_samples=t.num(1000))
  rep.equal('scale', e.at, e.opts[0]['sub_gscale'], Spec(k)('scale_of', f.value),
            'sub_gscale')
